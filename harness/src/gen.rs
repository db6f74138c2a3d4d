//! Compile and run generated programs that use the library, in a scratch crate below harness/gen.

use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};

fn verif_root() -> PathBuf {
    PathBuf::from(std::env::var("JV_ROOT").unwrap_or_else(|_| "/verif".into()))
}

/// A scratch package holding one binary per program.
pub struct Package {
    dir: PathBuf,
    name: String,
}

fn harness_error(m: String) -> ! {
    println!("ERROR {}", m);
    std::process::exit(2)
}

impl Package {
    /// `deps` is the text of the `[dependencies]` section.
    pub fn new(name: &str, deps: &str) -> Package {
        let dir = verif_root().join("harness").join("gen").join(name);
        let _ = std::fs::remove_dir_all(&dir);
        if let Err(e) = std::fs::create_dir_all(dir.join("src/bin")) {
            harness_error(format!("cannot create {}: {}", dir.display(), e));
        }
        let toml = format!(
            "[package]\nname = \"{}\"\nversion = \"0.1.0\"\nedition = \"2018\"\n\n[workspace]\n\n[dependencies]\n{}\n\n\
             [profile.dev]\nopt-level = 0\ndebug = false\nincremental = false\n",
            name, deps
        );
        std::fs::write(dir.join("Cargo.toml"), toml).unwrap();
        // same dependency versions as the harness
        std::fs::copy(verif_root().join("harness/Cargo.lock"), dir.join("Cargo.lock")).unwrap();
        Package { dir, name: name.into() }
    }

    /// Replace all programs and build them. `Err` is the compiler output.
    pub fn build(&self, programs: &[String]) -> Result<(), String> {
        let bin = self.dir.join("src/bin");
        let _ = std::fs::remove_dir_all(&bin);
        std::fs::create_dir_all(&bin).unwrap();
        for (i, p) in programs.iter().enumerate() {
            std::fs::write(bin.join(format!("{}_p{}.rs", self.name, i)), p).unwrap();
        }
        let out = Command::new("cargo")
            .args(["build", "--offline", "--quiet", "--manifest-path"])
            .arg(self.dir.join("Cargo.toml"))
            .env("CARGO_TARGET_DIR", self.dir.join("target"))
            .output();
        match out {
            Ok(o) if o.status.success() => Ok(()),
            Ok(o) => Err(String::from_utf8_lossy(&o.stderr).to_string()),
            Err(e) => harness_error(format!("cannot run cargo: {}", e)),
        }
    }

    /// Build a program that must compile if the toolchain and the library are usable at all.
    pub fn control(&self, program: &str) {
        if let Err(e) = self.build(&[program.to_string()]) {
            harness_error(format!("control program does not build:\n{}", e));
        }
    }

    /// Run program `i` with `input` on stdin; `Err` if it does not exit with success.
    pub fn run(&self, i: usize, input: &str) -> Result<String, String> {
        let exe = self.dir.join("target/debug").join(format!("{}_p{}", self.name, i));
        let child = Command::new(&exe).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn();
        let mut child = match child {
            Ok(c) => c,
            Err(e) => harness_error(format!("cannot run {}: {}", exe.display(), e)),
        };
        let mut stdin = child.stdin.take().unwrap();
        let text = input.to_string();
        let w = std::thread::spawn(move || {
            let _ = stdin.write_all(text.as_bytes());
        });
        let o = child.wait_with_output().unwrap();
        w.join().unwrap();
        if o.status.success() {
            Ok(String::from_utf8_lossy(&o.stdout).to_string())
        } else {
            Err(format!("generated program failed ({}): {}", o.status, String::from_utf8_lossy(&o.stderr)))
        }
    }
}
