#!/bin/bash
# usage: run.sh ID            decide one property (tier from VERIF_TIER, seed from VERIF_SEED)
#        run.sh replay FILE   evaluate a saved case again
#        run.sh build         build everything
# exit 0: held; exit 1 + VIOLATION line: broken; 2: no answer (build failure, harness error)
cd "$(dirname "$0")" || exit 2
export JV_ROOT="$PWD"
export HOME=/root
case ":$PATH:" in *:/root/.cargo/bin:*) ;; *) export PATH="/root/.cargo/bin:$PATH" ;; esac
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_TARGET_DIR="$PWD/harness/target"
id="$1" b= only=
if [ "$id" = replay ]; then
    file="$2"
    only=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1])).get("build", "debug"))' "$file") || exit 2
    id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$file") || exit 2
fi
case "$id" in
    build)
        all="--offline --quiet --manifest-path harness/Cargo.toml --features hashes,maths,encryption,ratchet,sharing"
        cargo build $all && exec cargo build $all --profile rel --bin jv-hashes --bin jv-encryption --bin jv-ratchet --bin jv-sharing ;;
    H*) g=hashes ;;
    M*) g=maths ;;
    E*) g=encryption ;;
    R*) g=ratchet ;;
    S01|S02|S03) g=sharing ;;
    S11) g=sharing b=delegates ;;
    S10) g=sharing b=or ;;
    S*) g=sharing b=mpc ;;
    *) echo "usage: run.sh ID | replay FILE | build"; exit 2 ;;
esac
b=${b:-$g}
compile() { # debug | release
    local p=dev
    [ "$1" = release ] && p=rel
    if ! cargo build --offline --quiet --manifest-path harness/Cargo.toml --features $g --bin jv-$b --profile $p >&2; then
        echo "ERROR build failed"
        exit 2
    fi
}
binary() {
    if [ "$1" = release ]; then echo "$CARGO_TARGET_DIR/rel/jv-$b"; else echo "$CARGO_TARGET_DIR/debug/jv-$b"; fi
}
if [ "$1" = replay ]; then
    compile "$only"
    ulimit -v 8000000
    exec "$(binary "$only")" replay "$file"
fi
compile debug
# S11 and M07 build programs of their own, always in the same way
# (the quick tier has the second build where the first one took little and refusals matter)
case "$VERIF_TIER:$id" in
    *:M07|*:S11) passes=debug ;;
    thorough:*|*:H*|*:E*|*:R*|*:S01|*:S02|*:S03) passes="debug release"; compile release ;;
    *) passes=debug ;;
esac
# runaway allocation ends in an abort that is attributed to its case, not in the machine's memory running out
case "$id" in S10) ulimit -v 3500000 ;; *) ulimit -v 8000000 ;; esac
for pass in $passes; do
    JV_PASS=$pass "$(binary $pass)" run "$id" || exit $?
done
