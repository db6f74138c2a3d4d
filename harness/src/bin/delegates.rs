#![recursion_limit = "512"]
//! S11: delegation of protocol traits, in generated programs and for the library's own traits.
use futures::executor::block_on;
use jester_maths::prime::IetfGroup2 as F;
use jester_sharing::*;
use jester_sharing::{CryptoRng, RngCore};
use jv::{ensure, ensure_eq, fnv, Info, Prop, Res, Sm, Tier};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::pin::Pin;

// ------------------------------------------------------------------------------------ generated programs

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
enum Kind {
    Num,
    Text,
    Bytes,
    Data,
    Share,
    ShareRef,
    Party,
    Gen,
    Gen2,
    Pairs,
    Maybe,
    Counter,
    Kept,
    Long,
    Extra,
    Tuple,
    Action,
}
use Kind::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
enum Ret {
    Text,
    Num,
    Unit,
    Maybe,
    Tuple,
    /// one of the borrowed arguments (by position modulo their number)
    Borrow(u8),
    /// one of the arguments of type T
    Move(u8),
    Future,
    Error,
    SendFuture,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Method {
    params: Vec<Kind>,
    ret: Ret,
    /// has a body in the trait
    default: bool,
    /// patterns of the parameters if it has a body: 0 name, 1 mut name, 2 underscore
    patterns: Vec<u8>,
    inline_bounds: bool,
    /// same name as in other traits
    common_name: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TraitDef {
    /// order of the type parameters
    order: u64,
    extra: bool,
    lifetime: bool,
    vis: u8,
    comma_generics: bool,
    comma_where: bool,
    /// which bounds the trait itself states, and in which order
    bounds: u8,
    bound_order: u64,
    split: bool,
    methods: Vec<Method>,
    /// per implementation (two delegates, own implementations): which defaults are overridden
    overrides: u64,
}

/// How a protocol struct obtains one trait.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
enum Choice {
    Delegate(u8),
    Own,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Program {
    traits: Vec<TraitDef>,
    /// per struct: choice per trait, whether its implementations are generic, whether it shares a marker type
    protos: Vec<(Vec<Choice>, bool, bool)>,
    calls: u8,
    seed: u64,
}

impl Program {
    fn choice(&self, p: usize, k: usize) -> Choice {
        let c = &self.protos[p].0;
        if c.is_empty() {
            Choice::Delegate(0)
        } else {
            c[k % c.len()]
        }
    }
}

impl TraitDef {
    fn params(&self) -> Vec<&'static str> {
        let mut v = vec!["T", "P", "S"];
        if self.extra {
            v.push("U");
        }
        Sm(self.order).shuffle(&mut v);
        if self.order == 0 {
            v = if self.extra { vec!["T", "S", "P", "U"] } else { vec!["T", "S", "P"] };
        }
        v
    }
    fn has_default(&self) -> bool {
        self.methods.iter().any(|m| m.default)
    }
    /// `<...>` with the given parameter names replaced
    fn generics(&self, lifetime: &str, with: impl Fn(&str) -> String) -> Vec<String> {
        let mut v = vec![];
        if self.lifetime {
            v.push(lifetime.to_string());
        }
        v.extend(self.params().iter().map(|p| with(p)));
        v
    }
    fn predicates(&self, mask: u8) -> Vec<String> {
        let mut v = vec![];
        let mut push = |on: bool, p: &str, bs: &[&str]| {
            if on {
                if self.split {
                    v.extend(bs.iter().map(|b| format!("{}: {}", p, b)));
                } else {
                    v.push(format!("{}: {}", p, bs.join(" + ")));
                }
            }
        };
        push(mask & 1 != 0, "T", &["Show", "Clone", "From<u64>"]);
        push(mask & 2 != 0, "P", &["Show", "Node"]);
        push(mask & 4 != 0, "S", &["Show", "Send", "Sync"]);
        if self.extra {
            push(mask & 8 != 0, "U", &["Show"]);
        }
        if v.is_empty() {
            v.push("u64: Copy".into());
        }
        Sm(self.bound_order).shuffle(&mut v);
        v
    }
    fn overridden(&self, imp: usize, m: usize) -> bool {
        self.overrides >> ((imp * 5 + m) % 64) & 1 == 1
    }
    fn method_name(&self, k: usize, m: usize) -> String {
        if self.methods[m].common_name {
            format!("run{}", m)
        } else {
            format!("step{}_{}", k, m)
        }
    }
    fn kinds(&self, m: usize) -> Vec<Kind> {
        self.methods[m].params.iter().map(|k| match k {
            Long if !self.lifetime => Kept,
            Extra if !self.extra => Num,
            k => *k,
        }).collect()
    }
    fn ret(&self, m: usize) -> Ret {
        let ks = self.kinds(m);
        match self.methods[m].ret {
            Ret::Borrow(_) if !ks.contains(&Kept) => Ret::Text,
            Ret::Move(_) if !ks.contains(&Data) => Ret::Text,
            r => r,
        }
    }
    /// whether parameter i is hidden by a pattern in the default body
    fn hidden(&self, m: usize, i: usize) -> bool {
        let d = &self.methods[m];
        // arguments with effects stay usable
        d.default && d.patterns.get(i).copied().unwrap_or(0) == 2 && !matches!(self.kinds(m)[i], Data | Kept | Party | Counter | Action)
    }
    fn signature(&self, k: usize, m: usize, in_trait: bool) -> String {
        let ks = self.kinds(m);
        let d = &self.methods[m];
        let future = matches!(self.ret(m), Ret::Future | Ret::SendFuture);
        let mut ps = vec![];
        for (i, kind) in ks.iter().enumerate() {
            let ty = match kind {
                Num => "u64",
                Text => "&str",
                Bytes => "Vec<u8>",
                Data => "T",
                Share => "S",
                ShareRef => "&S",
                Party if future => "&'a mut P",
                Party => "&mut P",
                Gen => "R",
                Gen2 => "Q",
                Pairs => "&[(S, S)]",
                Maybe => "Option<T>",
                Counter => "&mut u64",
                Kept => "&'a u64",
                Long => "&'x u64",
                Extra => "U",
                Tuple => "(u64, u64)",
                Action => "&mut dyn FnMut(u64) -> u64",
            };
            let pat = d.patterns.get(i).copied().unwrap_or(0);
            if in_trait && d.default && self.hidden(m, i) {
                ps.push(if *kind == Tuple { format!("(_b{0}, _c{0}): {1}", i, ty) } else { format!("_: {}", ty) });
            } else if in_trait && d.default && pat == 1 {
                ps.push(format!("mut a{}: {}", i, ty));
            } else {
                ps.push(format!("a{}: {}", i, ty));
            }
        }
        let ret = match self.ret(m) {
            Ret::Text => " -> String",
            Ret::Num => " -> u64",
            Ret::Unit => "",
            Ret::Maybe => " -> Option<T>",
            Ret::Tuple => " -> (String, u64)",
            Ret::Borrow(_) => " -> &'a u64",
            Ret::Move(_) => " -> T",
            Ret::Future => " -> Pin<Box<dyn Future<Output = String> + 'a>>",
            Ret::SendFuture => " -> Pin<Box<dyn Future<Output = String> + Send + 'a>>",
            Ret::Error => " -> Result<u64, String>",
        };
        let mut gen: Vec<String> = vec!["'a".into()];
        let mut wh: Vec<&str> = vec![];
        // declared in an order that differs from their use
        if ks.contains(&Gen2) {
            gen.push(if d.inline_bounds { "Q: Show".into() } else { "Q".into() });
            wh.push("Q: Show");
        }
        if ks.contains(&Gen) {
            gen.push(if d.inline_bounds { "R: Show".into() } else { "R".into() });
            wh.push("R: Show");
        }
        if self.ret(m) == Ret::SendFuture {
            // the party is captured by the future
            wh.push("P: Send");
        }
        if d.inline_bounds {
            wh.retain(|w| w.starts_with("P"));
        }
        let wh = if wh.is_empty() { String::new() } else { format!(" where {}", wh.join(", ")) };
        format!("fn {}<{}>({}){}{}", self.method_name(k, m), gen.join(", "), ps.join(", "), ret, wh)
    }
    fn body(&self, k: usize, m: usize, tag: &str, in_trait: bool) -> String {
        let ks = self.kinds(m);
        let mut shows = vec![];
        for i in 0..ks.len() {
            if in_trait && self.hidden(m, i) {
                shows.push("String::from(\"_\")".into());
            } else if ks[i] == Action {
                shows.push(format!("a{}({}).show()", i, 7 + i));
            } else {
                shows.push(format!("a{}.show()", i));
            }
        }
        let name = self.method_name(k, m);
        let mut s = format!("let args: Vec<String> = vec![{}]; let tr = format!(\"{}.{}.{}({{}})\", args.join(\";\")); log(&tr);\n", shows.join(", "), tag, k, name);
        for (i, kind) in ks.iter().enumerate() {
            if *kind == Counter {
                s += &format!("        *a{0} = a{0}.wrapping_mul(31).wrapping_add(fnv(&tr)).wrapping_add({0});\n", i);
            }
        }
        let parties: String = ks.iter().enumerate().filter(|x| *x.1 == Party).map(|(i, _)| format!("a{}.note(&tr); ", i)).collect();
        let ret = self.ret(m);
        if matches!(ret, Ret::Future | Ret::SendFuture) {
            s += &format!("        Box::pin(async move {{ Yield(fnv(&tr) % 3).await; {} log(\"done\"); tr }})", parties);
            return s;
        }
        s += "        ";
        s += &parties;
        s += &match ret {
            Ret::Text => "tr".to_string(),
            Ret::Num => "fnv(&tr)".to_string(),
            Ret::Unit => "".to_string(),
            Ret::Maybe => "if fnv(&tr) & 1 == 0 { Some(T::from(fnv(&tr))) } else { None }".to_string(),
            Ret::Tuple => "let h = fnv(&tr); (tr, h)".to_string(),
            Ret::Borrow(x) => {
                let v: Vec<usize> = (0..ks.len()).filter(|i| ks[*i] == Kept).collect();
                format!("a{}", v[x as usize % v.len()])
            }
            Ret::Move(x) => {
                let v: Vec<usize> = (0..ks.len()).filter(|i| ks[*i] == Data).collect();
                format!("a{}", v[x as usize % v.len()])
            }
            Ret::Error => "if fnv(&tr) & 1 == 0 { Ok(fnv(&tr)) } else { Err(tr) }".to_string(),
            Ret::Future | Ret::SendFuture => unreachable!(),
        };
        s
    }
    fn methods(&self, k: usize, tag: &str, imp: usize) -> String {
        let mut s = String::new();
        // implementations list their functions in another order
        for m in (0..self.methods.len()).rev() {
            if !self.methods[m].default || self.overridden(imp, m) {
                s += &format!("    {} {{\n        {}\n    }}\n", self.signature(k, m, false), self.body(k, m, tag, false));
            }
        }
        s
    }
}

const PRELUDE: &str = r##"#![allow(dead_code, unused_mut, unused_variables, unused_imports, private_bounds, private_interfaces, non_camel_case_types)]
use jester_sharing_proc::delegatable_protocol;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub struct Delegate;

thread_local! { static LOG: RefCell<Vec<String>> = RefCell::new(vec![]); }
fn log(s: &str) { LOG.with(|l| l.borrow_mut().push(s.to_string())) }
fn take_log() -> String { LOG.with(|l| l.replace(vec![])).join("|") }
fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    h ^ (h >> 29)
}
pub trait Show { fn show(&self) -> String; }
pub trait Node { fn note(&mut self, s: &str); }
#[derive(Clone)] pub struct Tv(u64);
pub struct Sv(u64);
pub struct Uv(u64);
impl From<u64> for Tv { fn from(v: u64) -> Tv { Tv(v) } }
impl Show for Tv { fn show(&self) -> String { format!("T{}", self.0) } }
impl Show for Sv { fn show(&self) -> String { format!("S{}", self.0) } }
impl Show for Uv { fn show(&self) -> String { format!("U{}", self.0) } }
impl Show for u64 { fn show(&self) -> String { format!("{}", self) } }
impl Show for str { fn show(&self) -> String { format!("s{}", self) } }
impl Show for String { fn show(&self) -> String { format!("o{}", self) } }
impl Show for () { fn show(&self) -> String { "()".into() } }
impl Show for Vec<u8> { fn show(&self) -> String { format!("{:?}", self) } }
impl<A: Show + ?Sized> Show for &A { fn show(&self) -> String { (**self).show() } }
impl<A: Show + ?Sized> Show for &mut A { fn show(&self) -> String { (**self).show() } }
impl<A: Show> Show for Option<A> { fn show(&self) -> String { match self { Some(a) => format!("Some({})", a.show()), None => "None".into() } } }
impl<A: Show, B: Show> Show for Result<A, B> { fn show(&self) -> String { match self { Ok(a) => format!("Ok({})", a.show()), Err(b) => format!("Err({})", b.show()) } } }
impl<A: Show, B: Show> Show for (A, B) { fn show(&self) -> String { format!("({},{})", self.0.show(), self.1.show()) } }
impl<A: Show> Show for [A] { fn show(&self) -> String { format!("[{}]", self.iter().map(|a| a.show()).collect::<Vec<_>>().join(",")) } }
struct Yield(u64);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 { return Poll::Ready(()); }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
struct Nop;
impl Wake for Nop { fn wake(self: Arc<Self>) {} }
fn drive<F: Future<Output = String> + ?Sized>(mut f: Pin<Box<F>>) -> String {
    let w = Waker::from(Arc::new(Nop));
    let mut cx = Context::from_waker(&w);
    let mut polls = 0;
    loop {
        polls += 1;
        if let Poll::Ready(s) = f.as_mut().poll(&mut cx) { return format!("{} after {}", s, polls); }
    }
}
"##;

/// The value of parameter i of a call, its rendering, and what it leaves behind.
struct Arg {
    /// statement before the call
    before: String,
    expr: String,
    shown: String,
}

fn args(ks: &[Kind], proto: usize, seed: u64) -> Vec<Arg> {
    let mut sm = Sm(seed);
    let mut v = vec![];
    for (i, k) in ks.iter().enumerate() {
        // distinct by position
        let n = sm.below(1000) * 100 + i as u64 * 3;
        let (before, expr, shown) = match k {
            Num => ("".into(), format!("{}u64", n), format!("{}", n)),
            Text => ("".into(), format!("\"{}\"", n), format!("s{}", n)),
            Bytes => {
                let b: Vec<u8> = (0..n % 4).map(|x| (n / 3 + x) as u8).chain(Some(i as u8)).collect();
                ("".into(), format!("<Vec<u8>>::from(&{:?}[..])", b), format!("{:?}", b))
            }
            Data => ("".into(), format!("Tv({})", n), format!("T{}", n)),
            Share => ("".into(), format!("Sv({})", n), format!("S{}", n)),
            ShareRef => (format!("let b{} = Sv({});", i, n), format!("&b{}", i), format!("S{}", n)),
            Party => (format!("let mut b{} = Proto{} {{ id: {}, seen: vec![] }};", i, proto, n), format!("&mut b{}", i), format!("P{}.{}:0", proto, n)),
            Gen | Gen2 => {
                // both parameters have one type per call
                let t = mixed(seed, *k);
                let (e, s) = match t {
                    0 => (format!("{}u64", n), format!("{}", n)),
                    1 => (format!("String::from(\"{}\")", n), format!("o{}", n)),
                    _ => (format!("Sv({})", n), format!("S{}", n)),
                };
                ("".into(), e, s)
            }
            Pairs => {
                let l = n / 3 % 3 + (i as u64 & 1);
                let e: Vec<String> = (0..l).map(|x| format!("(Sv({}), Sv({}))", n + x, n + 50 + x)).collect();
                let s: Vec<String> = (0..l).map(|x| format!("(S{},S{})", n + x, n + 50 + x)).collect();
                (format!("let b{}: Vec<(Sv, Sv)> = vec![{}];", i, e.join(", ")), format!("&b{}", i), format!("[{}]", s.join(",")))
            }
            Maybe if n / 3 % 4 == 0 => ("".into(), "None".into(), "None".into()),
            Maybe => ("".into(), format!("Some(Tv({}))", n), format!("Some(T{})", n)),
            Counter => (format!("let mut b{} = {}u64;", i, n), format!("&mut b{}", i), format!("{}", n)),
            Kept | Long => (format!("let b{} = {}u64;", i, n), format!("&b{}", i), format!("{}", n)),
            Extra => ("".into(), format!("Uv({})", n), format!("U{}", n)),
            Tuple => ("".into(), format!("({}, {})", n, n + 1), format!("({},{})", n, n + 1)),
            Action => (
                format!("let mut count{0} = 0; let mut b{0} = |x: u64| {{ count{0} += 1; x * 1000000 + {1} }};", i, n),
                format!("&mut b{}", i),
                format!("{}", (7 + i as u64) * 1000000 + n),
            ),
        };
        v.push(Arg { before, expr, shown });
    }
    v
}

fn mixed(seed: u64, k: Kind) -> u64 {
    jv::mix(seed + (k == Gen) as u64) % 3
}

struct Call {
    proto: usize,
    k: usize,
    m: usize,
    seed: u64,
}

fn calls(p: &Program) -> Vec<Call> {
    let mut v = vec![];
    for proto in 0..p.protos.len() {
        for k in 0..p.traits.len() {
            for m in 0..p.traits[k].methods.len() {
                for c in 0..1 + p.calls % 3 {
                    v.push(Call { proto, k, m, seed: jv::mix(p.seed) ^ jv::mix((((proto * 8 + k) * 8 + m) * 8) as u64 + c as u64) });
                }
            }
        }
    }
    Sm(p.seed).shuffle(&mut v);
    v
}

/// What the call prints, by the specification.
fn expected(p: &Program, c: &Call) -> String {
    let t = &p.traits[c.k];
    let ks = t.kinds(c.m);
    let (tag, imp) = match p.choice(c.proto, c.k) {
        Choice::Delegate(d) => (format!("delegate{}", d % 2), (d % 2) as usize),
        Choice::Own => (format!("own{}", c.proto), 2 + c.proto),
    };
    let default = t.methods[c.m].default && !t.overridden(imp, c.m);
    let tag = if default { "default".to_string() } else { tag };
    let a = args(&ks, c.proto, c.seed);
    let shown: Vec<String> = a.iter().enumerate().map(|(i, a)| if default && t.hidden(c.m, i) { "_".into() } else { a.shown.clone() }).collect();
    let tr = format!("{}.{}.{}({})", tag, c.k, t.method_name(c.k, c.m), shown.join(";"));
    let h = fnv(tr.as_bytes());
    let mut log = tr.clone();
    let ret = match t.ret(c.m) {
        Ret::Text => format!("o{}", tr),
        Ret::Num => format!("{}", h),
        Ret::Unit => "()".into(),
        Ret::Maybe if h & 1 == 0 => format!("Some(T{})", h),
        Ret::Maybe => "None".into(),
        Ret::Tuple => format!("(o{},{})", tr, h),
        Ret::Borrow(x) => {
            let v: Vec<usize> = (0..ks.len()).filter(|i| ks[*i] == Kept).collect();
            a[v[x as usize % v.len()]].shown.clone()
        }
        Ret::Move(x) => {
            let v: Vec<usize> = (0..ks.len()).filter(|i| ks[*i] == Data).collect();
            a[v[x as usize % v.len()]].shown.clone()
        }
        Ret::Future | Ret::SendFuture => {
            log += "|done";
            format!("o{} after {}", tr, h % 3 + 1)
        }
        Ret::Error if h & 1 == 0 => format!("Ok({})", h),
        Ret::Error => format!("Err(o{})", tr),
    };
    let mut after = vec![];
    for (i, k) in ks.iter().enumerate() {
        match k {
            Party => after.push(format!("P{}.{}:1 {}", c.proto, &a[i].shown[a[i].shown.find('.').unwrap() + 1..a[i].shown.find(':').unwrap()], tr)),
            Counter => after.push(format!("{}", a[i].shown.parse::<u64>().unwrap().wrapping_mul(31).wrapping_add(h).wrapping_add(i as u64))),
            Action => after.push("1".into()),
            _ => (),
        }
    }
    format!("{} # {} # {}", ret, log, after.join(" # "))
}

/// What the macro has to generate beyond the trait itself, written out.
fn expansion(t: &TraitDef, k: usize, mask: u8) -> String {
    let id = |x: &str| x.to_string();
    let g = t.generics("'x", id).join(", ");
    let w = t.predicates(mask).join(", ");
    let mut s = String::new();
    let decls: Vec<String> = (0..t.methods.len())
        .map(|m| if t.methods[m].default { format!("    {} {{ {} }}\n", t.signature(k, m, true), t.body(k, m, "default", true)) } else { format!("    {};\n", t.signature(k, m, true)) })
        .collect();
    let forward = |to: &str| -> String {
        (0..t.methods.len())
            .map(|m| {
                let a: Vec<String> = (0..t.methods[m].params.len()).map(|i| format!("a{}", i)).collect();
                format!("    {} {{ {}::{}({}) }}\n", t.signature(k, m, false), to, t.method_name(k, m), a.join(", "))
            })
            .collect()
    };
    s += &format!("pub trait X{}Marker {{ type Marker; }}\n", k);
    s += &format!("trait X{0}Delegate<{1}> where {2} {{ type Delegate: X{0}<{1}>; }}\n", k, g, w);
    s += &format!("trait X{0}Impl<{1}, Marker> where {2} {{\n{3}}}\n", k, g, w, decls.concat());
    let me = format!("<P as X{}Impl<{}, Marker>>", k, g);
    s += &format!("impl<{1}, Marker> X{0}<{1}> for P where {2}, P: X{0}Marker<Marker = Marker> + X{0}Impl<{1}, Marker> {{\n{3}}}\n", k, g, w, forward(&me));
    let to = format!("<P as X{}Delegate<{}>>::Delegate", k, g);
    s += &format!("impl<{1}> X{0}Impl<{1}, Delegate> for P where {2}, P: X{0}Delegate<{1}> {{\n{3}}}\n", k, g, w, forward(&to));
    s
}

fn source(p: &Program, by_hand: bool) -> String {
    let mut s = PRELUDE.to_string();
    for (k, t) in p.traits.iter().enumerate() {
        let id = |x: &str| x.to_string();
        let vis = ["pub ", "", "pub(crate) "][t.vis as usize % 3];
        let mask = if t.has_default() { 15 } else { t.bounds };
        // a default body is shared by all implementations
        let all = t.predicates(15).join(", ");
        s += &format!(
            "{}{}trait X{}<{}{}> where {}{} {{\n",
            if by_hand { "" } else { "#[delegatable_protocol]\n" }, vis, k, t.generics("'x", id).join(", "), if t.comma_generics { "," } else { "" },
            t.predicates(mask).join(", "), if t.comma_where { "," } else { "" }
        );
        for m in 0..t.methods.len() {
            if t.methods[m].default {
                s += &format!("    {} {{\n        {}\n    }}\n", t.signature(k, m, true), t.body(k, m, "default", true));
            } else {
                s += &format!("    {};\n", t.signature(k, m, true));
            }
        }
        s += "}\n";
        if by_hand {
            s += &expansion(t, k, mask);
        }
        for d in 0..2 {
            s += &format!(
                "struct D{0}_{1};\nimpl<{2}> X{0}<{2}> for D{0}_{1} where {3} {{\n{4}}}\n",
                k, d, t.generics("'x", id).join(", "), all, t.methods(k, &format!("delegate{}", d), d)
            );
        }
    }
    s += "struct OwnCommon;\n";
    for (n, (_, generic, common)) in p.protos.iter().enumerate() {
        let me = format!("Proto{}", n);
        s += &format!(
            "struct {0} {{ id: u64, seen: Vec<String> }}\nimpl Node for {0} {{ fn note(&mut self, s: &str) {{ self.seen.push(s.to_string()) }} }}\n\
             impl Show for {0} {{ fn show(&self) -> String {{ format!(\"P{1}.{{}}:{{}}\", self.id, self.seen.len()) }} }}\nstruct Own{0};\n",
            me, n
        );
        for (k, t) in p.traits.iter().enumerate() {
            // implementation parameters: everything but P, or only the lifetime
            let mut ip: Vec<String> = vec![];
            if t.lifetime {
                ip.push("'x".into());
            }
            let val = |x: &str| if x == "P" { me.clone() } else if *generic { x.to_string() } else { format!("{}v", x) };
            let mut wh = String::new();
            if *generic {
                ip.extend(t.params().iter().filter(|p| **p != "P").map(|p| p.to_string()));
                let ps: Vec<String> = t.predicates(15).into_iter().filter(|p| !p.starts_with("P:")).collect();
                wh = format!(" where {}", ps.join(", "));
            }
            let ip = if ip.is_empty() { String::new() } else { format!("<{}>", ip.join(", ")) };
            let g = t.generics("'x", val).join(", ");
            match p.choice(n, k) {
                Choice::Delegate(d) => {
                    s += &format!("impl X{0}Marker for {1} {{ type Marker = Delegate; }}\n", k, me);
                    s += &format!("impl{0} X{1}Delegate<{2}> for {3}{4} {{ type Delegate = D{1}_{5}; }}\n", ip, k, g, me, wh, d % 2);
                }
                Choice::Own => {
                    let own = if *common { "OwnCommon".to_string() } else { format!("Own{}", me) };
                    s += &format!("impl X{0}Marker for {1} {{ type Marker = {2}; }}\n", k, me, own);
                    let mut body = t.methods(k, &format!("own{}", n), 2 + n);
                    // in terms of this protocol and, unless generic, of the concrete types
                    body = replace_types(&body, &me, *generic);
                    s += &format!("impl{0} X{1}Impl<{2}, {3}> for {4}{5} {{\n{6}}}\n", ip, k, g, own, me, wh, body);
                }
            }
        }
    }
    s += "fn main() {\n";
    for c in calls(p) {
        let t = &p.traits[c.k];
        let ks = t.kinds(c.m);
        let a = args(&ks, c.proto, c.seed);
        let val = |x: &str| if x == "P" { format!("Proto{}", c.proto) } else { format!("{}v", x) };
        let g = t.generics("'_", val).join(", ");
        let call = format!(
            "<Proto{} as X{}<{}>>::{}({})",
            c.proto, c.k, g, t.method_name(c.k, c.m), a.iter().map(|a| a.expr.clone()).collect::<Vec<_>>().join(", ")
        );
        let call = if matches!(t.ret(c.m), Ret::Future | Ret::SendFuture) { format!("drive({})", call) } else { call };
        let mut after = vec![];
        for (i, k) in ks.iter().enumerate() {
            match k {
                Party => after.push(format!("format!(\"{{}} {{}}\", b{0}.show(), b{0}.seen.join(\"|\"))", i)),
                Counter => after.push(format!("b{}.show()", i)),
                Action => after.push(format!("count{}.to_string()", i)),
                _ => (),
            }
        }
        s += &format!(
            "    {{ {} let r = {}.show(); let after: Vec<String> = vec![{}]; println!(\"{{}} # {{}} # {{}}\", r, take_log(), after.join(\" # \")); }}\n",
            a.iter().map(|a| a.before.clone()).collect::<Vec<_>>().join(" "),
            call,
            after.join(", ")
        );
    }
    s += "}\n";
    s
}

/// Replace type parameters as whole words.
fn replace_types(s: &str, proto: &str, generic: bool) -> String {
    let mut out = String::new();
    let mut word = String::new();
    for ch in s.chars().chain(Some('\0')) {
        if ch.is_alphanumeric() || ch == '_' {
            word.push(ch);
            continue;
        }
        out += match word.as_str() {
            "P" => proto,
            "T" if !generic => "Tv",
            "S" if !generic => "Sv",
            "U" if !generic => "Uv",
            w => w,
        };
        word.clear();
        if ch != '\0' {
            out.push(ch);
        }
    }
    out
}

fn control() -> Program {
    let m = Method { params: vec![Num, Party, ShareRef], ret: Ret::Text, default: false, patterns: vec![], inline_bounds: false, common_name: false };
    let t = TraitDef { order: 0, extra: false, lifetime: false, vis: 0, comma_generics: false, comma_where: true, bounds: 7, bound_order: 0, split: false, methods: vec![m], overrides: 0 };
    Program { traits: vec![t], protos: vec![(vec![Choice::Delegate(0)], false, false)], calls: 1, seed: 1 }
}

fn check_programs(ps: &[Program]) -> Res {
    const DEPS: &str = "jester_sharing_proc = { path = \"/repo/jester_sharing/jester_sharing_proc\" }";
    static CONTROL: std::sync::Once = std::sync::Once::new();
    static LOCK: std::sync::Mutex<Option<jv::gen::Package>> = std::sync::Mutex::new(None);
    let mut guard = LOCK.lock().unwrap_or_else(|e| e.into_inner());
    let pkg = guard.get_or_insert_with(|| jv::gen::Package::new("jvgendelegates", DEPS));
    CONTROL.call_once(|| pkg.control(&format!("{}\nfn main() {{}}\n", PRELUDE)));
    let srcs: Vec<String> = ps.iter().map(|p| source(p, false)).collect();
    if let Err(e) = pkg.build(&srcs) {
        // the same programs with the macro's output written by hand
        let by_hand: Vec<String> = ps.iter().map(|p| source(p, true)).collect();
        for s in &by_hand {
            pkg.control(s);
        }
        return Err(format!("valid protocol declarations do not compile:\n{}", e.lines().take(40).collect::<Vec<_>>().join("\n")));
    }
    let (mut evals, mut distinct) = (0, vec![]);
    for (i, p) in ps.iter().enumerate() {
        let cs = calls(p);
        let out = pkg.run(i, "")?;
        let lines: Vec<&str> = out.lines().collect();
        ensure_eq!(lines.len(), cs.len(), "lines printed by the generated program");
        for (c, line) in cs.iter().zip(lines) {
            let want = expected(p, c);
            let t = &p.traits[c.k];
            ensure!(
                line == want,
                "struct with {:?} called `{}` of trait {} of {} (return value # calls that reached an implementation # effects on arguments):\n {}\nexpected\n {}",
                p.choice(c.proto, c.k), t.signature(c.k, c.m, false), c.k, p.traits.len(), line, want
            );
            evals += 1;
            if !t.methods[c.m].params.is_empty() {
                distinct.push(fnv(format!("{} {}", t.signature(c.k, c.m, true), want).as_bytes()));
            }
        }
    }
    let mixed = ps.iter().any(|p| p.protos.iter().any(|q| q.0.contains(&Choice::Own) && q.0.iter().any(|c| *c != Choice::Own)) && p.traits.len() > 1);
    let defaults = ps.iter().any(|p| p.traits.iter().any(|t| t.has_default()));
    Ok(Info::new(true).sub(evals, distinct).label(true, "generated programs").label(mixed, "delegated and own in one type").label(defaults, "default bodies"))
}

// ------------------------------------------------------------------------------------ the library's traits

type Sh = (usize, F);
thread_local! { static SEEN: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(vec![]); }

fn record(s: String) -> Sh {
    let h = fnv(s.as_bytes());
    SEEN.with(|l| l.borrow_mut().push(s));
    ((h % 97) as usize, num(h))
}

fn num(v: u64) -> F {
    F::from(num_bigint::BigUint::from(v))
}

struct Rng(u64);
impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 += 1;
        self.0
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        dest.iter_mut().for_each(|b| *b = self.next_u64() as u8)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Rng {}

/// A delegate for everything.
struct Rec;
/// The marker of own implementations.
struct Mine;

macro_rules! b_mul {
    ($tag:expr, $P:ty) => {
        fn multiply<'a>(protocol: &'a mut $P, lhs: &Sh, rhs: &Sh) -> Pin<Box<dyn Future<Output = Sh> + Send + 'a>> {
            let s = format!("{} multiply {:?} {:?}", $tag, lhs, rhs);
            Box::pin(async move { record(format!("{} {}", s, protocol.touch())) })
        }
    };
}
macro_rules! b_umul {
    ($tag:expr, $P:ty) => {
        fn unbounded_multiply<'a>(protocol: &'a mut $P, pairs: &[(Sh, Sh)]) -> Pin<Box<dyn Future<Output = Vec<Sh>> + Send + 'a>> {
            let s = format!("{} unbounded_multiply {:?}", $tag, pairs);
            Box::pin(async move { vec![record(format!("{} {}", s, protocol.touch())), (1, num(5))] })
        }
    };
}
macro_rules! b_inv {
    ($tag:expr, $P:ty) => {
        fn inverse<'a, R>(rng: &'a mut R, protocol: &'a mut $P, share: &Sh) -> Pin<Box<dyn Future<Output = Sh> + 'a>>
        where
            R: RngCore + CryptoRng,
        {
            let s = format!("{} inverse {:?}", $tag, share);
            Box::pin(async move { record(format!("{} {} {}", s, protocol.touch(), rng.next_u64())) })
        }
    };
}
macro_rules! b_uinv {
    ($tag:expr, $P:ty) => {
        fn unbounded_inverse<'a, R>(rng: &'a mut R, protocol: &'a mut $P, shares: &[Sh]) -> Pin<Box<dyn Future<Output = Vec<Sh>> + 'a>>
        where
            R: RngCore + CryptoRng,
        {
            let s = format!("{} unbounded_inverse {:?}", $tag, shares);
            Box::pin(async move { vec![record(format!("{} {} {}", s, protocol.touch(), rng.next_u64())), (2, num(6))] })
        }
    };
}
macro_rules! b_rand {
    ($tag:expr, $P:ty) => {
        fn generate_random_number_sharing<R>(rng: &mut R, protocol: &mut $P) -> Pin<Box<dyn Future<Output = Sh> + Send>>
        where
            R: RngCore + CryptoRng,
        {
            let s = format!("{} generate_random_number_sharing {} {}", $tag, protocol.touch(), rng.next_u64());
            Box::pin(async move { record(s) })
        }
    };
}
macro_rules! b_bit {
    ($tag:expr, $P:ty) => {
        fn generate_random_bit<'a, R>(rng: &mut R, protocol: &'a mut $P) -> Pin<Box<dyn Future<Output = Sh> + Send + 'a>>
        where
            R: RngCore + CryptoRng,
        {
            let s = format!("{} generate_random_bit {}", $tag, rng.next_u64());
            Box::pin(async move { record(format!("{} {}", s, protocol.touch())) })
        }
    };
}
macro_rules! b_sel {
    ($tag:expr, $P:ty) => {
        fn joint_conditional_selection<'a>(protocol: &'a mut $P, condition: &Sh, lhs: &Sh, rhs: &Sh) -> Pin<Box<dyn Future<Output = Sh> + 'a>> {
            let s = format!("{} joint_conditional_selection {:?} {:?} {:?}", $tag, condition, lhs, rhs);
            Box::pin(async move { record(format!("{} {}", s, protocol.touch())) })
        }
    };
}
macro_rules! b_or {
    ($tag:expr, $P:ty) => {
        fn shared_or<'a, R>(rng: &'a mut R, protocol: &'a mut $P, bits: &Sh) -> Pin<Box<dyn Future<Output = Sh> + 'a>>
        where
            R: RngCore + CryptoRng,
        {
            let s = format!("{} shared_or {:?}", $tag, bits);
            Box::pin(async move { record(format!("{} {} {}", s, protocol.touch(), rng.next_u64())) })
        }
    };
}
macro_rules! b_uor {
    ($tag:expr, $P:ty) => {
        fn unbounded_shared_or<'a, R>(rng: &'a mut R, protocol: &'a mut $P, bits: &[Sh]) -> Pin<Box<dyn Future<Output = Sh> + 'a>>
        where
            R: RngCore + CryptoRng,
        {
            let s = format!("{} unbounded_shared_or {:?}", $tag, bits);
            Box::pin(async move { record(format!("{} {} {}", s, protocol.touch(), rng.next_u64())) })
        }
    };
}

/// One trait of one protocol: delegated or own.
macro_rules! how {
    (d, $P:ident, $b:ident, $T:ident, $M:ident, $D:ident, $I:ident) => {
        impl $M for $P {
            type Marker = Delegate;
        }
        impl $D<F, Sh, $P> for $P {
            type Delegate = Rec;
        }
        impl $T<F, Sh, $P> for Rec {
            $b!("delegate", $P);
        }
    };
    (o, $P:ident, $b:ident, $T:ident, $M:ident, $D:ident, $I:ident) => {
        impl $M for $P {
            type Marker = Mine;
        }
        impl $I<F, Sh, $P, Mine> for $P {
            $b!("own", $P);
        }
    };
}

macro_rules! library_protocol {
    ($P:ident, $mul:ident $umul:ident $inv:ident $uinv:ident $rand:ident $bit:ident $sel:ident $or:ident $uor:ident) => {
        struct $P {
            id: u64,
        }
        impl $P {
            /// the change is visible to the caller
            fn touch(&mut self) -> u64 {
                self.id += 1;
                self.id
            }
        }
        impl ThresholdSecretSharingScheme<F, Sh> for $P {
            fn generate_shares<R>(_: &mut R, _: &F, _: usize, _: usize) -> Vec<Sh>
            where
                R: RngCore + CryptoRng,
            {
                unimplemented!()
            }
            fn reconstruct_secret(_: &[Sh], _: usize) -> F {
                unimplemented!()
            }
        }
        impl LinearSharingScheme<F, Sh> for $P {
            fn add_shares(_: &Sh, _: &Sh) -> Sh {
                unimplemented!()
            }
            fn sub_shares(_: &Sh, _: &Sh) -> Sh {
                unimplemented!()
            }
            fn add_scalar(_: &Sh, _: &F) -> Sh {
                unimplemented!()
            }
            fn sub_scalar(_: &Sh, _: &F) -> Sh {
                unimplemented!()
            }
            fn multiply_scalar(_: &Sh, _: &F) -> Sh {
                unimplemented!()
            }
            fn sum_shares(_: &[Sh]) -> Option<Sh> {
                unimplemented!()
            }
        }
        impl CliqueCommunicationScheme<F, Sh> for $P {
            fn reveal_shares(&mut self, _: Sh) -> Pin<Box<dyn Future<Output = F> + Send>> {
                unimplemented!()
            }
            fn distribute_secret(&mut self, _: F) -> Pin<Box<dyn Future<Output = Vec<Sh>> + Send>> {
                unimplemented!()
            }
        }
        how!($mul, $P, b_mul, MultiplicationScheme, MultiplicationSchemeMarker, MultiplicationSchemeDelegate, MultiplicationSchemeImpl);
        how!($umul, $P, b_umul, UnboundedMultiplicationScheme, UnboundedMultiplicationSchemeMarker, UnboundedMultiplicationSchemeDelegate, UnboundedMultiplicationSchemeImpl);
        how!($inv, $P, b_inv, InversionScheme, InversionSchemeMarker, InversionSchemeDelegate, InversionSchemeImpl);
        how!($uinv, $P, b_uinv, UnboundedInversionScheme, UnboundedInversionSchemeMarker, UnboundedInversionSchemeDelegate, UnboundedInversionSchemeImpl);
        how!($rand, $P, b_rand, RandomNumberGenerationScheme, RandomNumberGenerationSchemeMarker, RandomNumberGenerationSchemeDelegate, RandomNumberGenerationSchemeImpl);
        how!($bit, $P, b_bit, RandomBitGenerationScheme, RandomBitGenerationSchemeMarker, RandomBitGenerationSchemeDelegate, RandomBitGenerationSchemeImpl);
        how!($sel, $P, b_sel, ConditionalSelectionScheme, ConditionalSelectionSchemeMarker, ConditionalSelectionSchemeDelegate, ConditionalSelectionSchemeImpl);
        how!($or, $P, b_or, OrFunctionScheme, OrFunctionSchemeMarker, OrFunctionSchemeDelegate, OrFunctionSchemeImpl);
        how!($uor, $P, b_uor, UnboundedOrFunctionScheme, UnboundedOrFunctionSchemeMarker, UnboundedOrFunctionSchemeDelegate, UnboundedOrFunctionSchemeImpl);
        impl Library for $P {
            const NAME: &'static str = stringify!($P);
            const HOW: &'static str = concat!(stringify!($mul), stringify!($umul), stringify!($inv), stringify!($uinv), stringify!($rand), stringify!($bit), stringify!($sel), stringify!($or), stringify!($uor));
            fn make(id: u64) -> Self {
                $P { id }
            }
            fn id(&self) -> u64 {
                self.id
            }
        }
    };
}

trait Library: Sized + Send + Sync {
    const NAME: &'static str;
    const HOW: &'static str;
    fn make(id: u64) -> Self;
    fn id(&self) -> u64;
}

library_protocol!(Delegated, d d d d d d d d d);
library_protocol!(Own, o o o o o o o o o);
library_protocol!(Odd, d o d o d o d o d);
library_protocol!(Even, o d o d o d o d o);
library_protocol!(Third, d d o d d o o o d);

/// Call trait `which`, return what came back and what was recorded.
fn call_library<P>(which: u8, id: u64, s: &[Sh], rng: &mut Rng) -> (Vec<Sh>, Vec<String>, u64)
where
    P: Library
        + MultiplicationScheme<F, Sh, P>
        + UnboundedMultiplicationScheme<F, Sh, P>
        + InversionScheme<F, Sh, P>
        + UnboundedInversionScheme<F, Sh, P>
        + RandomNumberGenerationScheme<F, Sh, P>
        + RandomBitGenerationScheme<F, Sh, P>
        + ConditionalSelectionScheme<F, Sh, P>
        + OrFunctionScheme<F, Sh, P>
        + UnboundedOrFunctionScheme<F, Sh, P>
        + ThresholdSecretSharingScheme<F, Sh>
        + LinearSharingScheme<F, Sh>
        + CliqueCommunicationScheme<F, Sh>,
{
    SEEN.with(|l| l.borrow_mut().clear());
    let mut p = P::make(id);
    let pairs: Vec<(Sh, Sh)> = s.iter().cloned().zip(s.iter().rev().cloned()).collect();
    let out = match which {
        0 => vec![block_on(P::multiply(&mut p, &s[0], &s[1]))],
        1 => block_on(P::unbounded_multiply(&mut p, &pairs)),
        2 => vec![block_on(P::inverse(rng, &mut p, &s[0]))],
        3 => block_on(P::unbounded_inverse(rng, &mut p, s)),
        4 => vec![block_on(P::generate_random_number_sharing(rng, &mut p))],
        5 => vec![block_on(P::generate_random_bit(rng, &mut p))],
        6 => vec![block_on(P::joint_conditional_selection(&mut p, &s[0], &s[1], &s[2]))],
        7 => vec![block_on(P::shared_or(rng, &mut p, &s[0]))],
        _ => vec![block_on(P::unbounded_shared_or(rng, &mut p, s))],
    };
    (out, SEEN.with(|l| l.borrow().clone()), p.id())
}

fn expect_library(how: &str, which: u8, id: u64, s: &[Sh], rng: u64) -> (Vec<Sh>, Vec<String>, u64) {
    let tag = if how.as_bytes()[which as usize] == b'd' { "delegate" } else { "own" };
    let pairs: Vec<(Sh, Sh)> = s.iter().cloned().zip(s.iter().rev().cloned()).collect();
    let (i, r) = (id + 1, rng + 1);
    let line = match which {
        0 => format!("{} multiply {:?} {:?} {}", tag, s[0], s[1], i),
        1 => format!("{} unbounded_multiply {:?} {}", tag, pairs, i),
        2 => format!("{} inverse {:?} {} {}", tag, s[0], i, r),
        3 => format!("{} unbounded_inverse {:?} {} {}", tag, s, i, r),
        4 => format!("{} generate_random_number_sharing {} {}", tag, i, r),
        5 => format!("{} generate_random_bit {} {}", tag, r, i),
        6 => format!("{} joint_conditional_selection {:?} {:?} {:?} {}", tag, s[0], s[1], s[2], i),
        7 => format!("{} shared_or {:?} {} {}", tag, s[0], i, r),
        _ => format!("{} unbounded_shared_or {:?} {} {}", tag, s, i, r),
    };
    let h = fnv(line.as_bytes());
    let mut out = vec![((h % 97) as usize, num(h))];
    match which {
        1 => out.push((1, num(5))),
        3 => out.push((2, num(6))),
        _ => (),
    }
    (out, vec![line], id + 1)
}

// --------------------------------------------------------------------------------------------------- S11

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case {
    Programs(Vec<Program>),
    /// protocol, trait, number of shares, seed
    Library(u8, u8, u8, u64),
}

fn check_library(proto: u8, which: u8, len: u8, seed: u64) -> Res {
    let mut sm = Sm(seed);
    let s: Vec<Sh> = (0..len.max(3)).map(|i| (i as usize * 7 + sm.below(5) as usize, num(sm.next()))).collect();
    // batches may be empty
    let s = if matches!(which, 1 | 3 | 8) { &s[..len as usize] } else { &s[..] };
    let (id, r) = (sm.below(1 << 40), sm.below(1 << 40));
    let mut rng = Rng(r);
    let (got, how, name) = match proto % 5 {
        0 => (call_library::<Delegated>(which, id, s, &mut rng), Delegated::HOW, Delegated::NAME),
        1 => (call_library::<Own>(which, id, s, &mut rng), Own::HOW, Own::NAME),
        2 => (call_library::<Odd>(which, id, s, &mut rng), Odd::HOW, Odd::NAME),
        3 => (call_library::<Even>(which, id, s, &mut rng), Even::HOW, Even::NAME),
        _ => (call_library::<Third>(which, id, s, &mut rng), Third::HOW, Third::NAME),
    };
    let want = expect_library(how, which, id, s, r);
    ensure_eq!(got.1, want.1, "calls that reached an implementation from protocol {} ({})", name, how);
    ensure_eq!(got.0, want.0, "value returned through protocol {} ({})", name, how);
    ensure_eq!(got.2, want.2, "state left in protocol {} ({})", name, how);
    let drawn = if matches!(which, 0 | 1 | 6) { 0 } else { 1 };
    ensure_eq!(rng.0, r + drawn, "state left in the generator");
    Ok(Info::new(true).label(how.as_bytes()[which as usize] == b'd', "library trait, delegated").label(how.as_bytes()[which as usize] == b'o', "library trait, own"))
}

fn program() -> BoxedStrategy<Program> {
    let kind = prop::sample::select(vec![
        Num, Num, Num, Text, Bytes, Bytes, Data, Data, Share, ShareRef, ShareRef, Party, Party, Gen, Gen2, Pairs, Pairs, Maybe, Counter, Counter, Kept, Kept, Long, Extra, Extra, Tuple, Action,
    ]);
    // runs of equal types make exchanged arguments compile
    let params = prop::collection::vec((kind, 1usize..4), 0..6).prop_map(|v| {
        let mut ks: Vec<Kind> = v.into_iter().flat_map(|(k, n)| vec![k; n]).collect();
        ks.truncate(9);
        ks
    });
    let ret = prop_oneof![
        3 => Just(Ret::Text), 2 => Just(Ret::Num), 1 => Just(Ret::Unit), 1 => Just(Ret::Maybe), 1 => Just(Ret::Tuple), 2 => any::<u8>().prop_map(Ret::Borrow),
        2 => any::<u8>().prop_map(Ret::Move), 3 => Just(Ret::Future), 1 => Just(Ret::SendFuture), 1 => Just(Ret::Error),
    ];
    let method = (params, ret, prop::bool::weighted(0.2), prop::collection::vec(prop_oneof![3 => Just(0u8), 1 => Just(1), 1 => Just(2)], 9), any::<bool>(), any::<bool>())
        .prop_map(|(params, ret, default, patterns, inline_bounds, common_name)| Method { params, ret, default, patterns, inline_bounds, common_name });
    let t = (
        (any::<u64>(), any::<bool>(), prop::bool::weighted(0.3), 0u8..3, any::<bool>(), any::<bool>()),
        (0u8..16, any::<u64>(), any::<bool>(), any::<u64>()),
        prop::collection::vec(method, 1..5),
    )
        .prop_map(|((order, extra, lifetime, vis, comma_generics, comma_where), (bounds, bound_order, split, overrides), methods)| TraitDef {
            order, extra, lifetime, vis, comma_generics, comma_where, bounds, bound_order, split, methods, overrides,
        });
    let choice = prop_oneof![2 => (0u8..2).prop_map(Choice::Delegate), 1 => Just(Choice::Own)];
    let proto = (prop::collection::vec(choice, 1..5), any::<bool>(), any::<bool>());
    (prop::collection::vec(t, 1..5), prop::collection::vec(proto, 1..4), 0u8..3, any::<u64>())
        .prop_map(|(traits, protos, calls, seed)| Program { traits, protos, calls, seed })
        .boxed()
}

struct S11;
impl Prop for S11 {
    type Case = Case;
    const ID: &'static str = "S11";
    const RULE: &'static str = "Cases: generated Rust programs, compiled and run, that declare protocol traits with #[delegatable_protocol] (any order of type parameters, further type and lifetime parameters, bounds, visibilities, functions with 0..9 parameters of often equal types, generic and lifetime parameters, default bodies with patterns, borrowed, moved and future results), several structs that delegate some traits (to either of two delegates) and implement others under their own marker, generically or concretely; and the library's nine protocol traits on five structs mixing delegation and own implementations. One evaluation is one call; every call reports its implementation, all arguments, effects on arguments and the result, against the specification. Non-trivial: calls with at least one parameter.";
    const ASSUMPTIONS: &'static [&'static str] = &["Declarations of the generated kind are those users may write; the where clause is always present, as in all traits of the library."];
    const SHARDS: usize = 1;
    fn fixed(tier: Tier, seed: u64) -> Vec<Case> {
        let mut v = vec![];
        for p in 0..5 {
            for w in 0..9 {
                for l in 0..5 {
                    v.push(Case::Library(p, w, l, seed + l as u64));
                }
            }
        }
        let mut base = control();
        base.protos = vec![(vec![Choice::Delegate(0)], false, false), (vec![Choice::Delegate(1)], true, false), (vec![Choice::Own], false, false), (vec![Choice::Own], true, true)];
        let m = &mut base.traits[0].methods;
        let f = m[0].clone();
        m[0].params = vec![Num, Num, Num];
        m.push(Method { params: vec![], ret: Ret::Num, ..f.clone() });
        m.push(Method { params: vec![ShareRef, ShareRef, Party, Party], ret: Ret::Future, ..f.clone() });
        m.push(Method { params: vec![Gen2, Gen, Kept, Kept, Kept], ret: Ret::Borrow(1), ..f.clone() });
        m.push(Method { params: vec![Data, Data, Bytes, Bytes], ret: Ret::Move(0), default: true, patterns: vec![0, 1, 2, 0], ..f });
        // delegate 1 and the first own implementation override the default
        base.traits[0].overrides = 1 << (5 + 4) | 1 << (10 + 10 + 4);
        v.push(Case::Programs(vec![base.clone(), control()]));
        if tier == Tier::Thorough {
            for o in 1..40 {
                base.traits[0].order = o;
                base.traits[0].bounds = o as u8 % 16;
                base.traits[0].lifetime = o % 2 == 0;
                base.traits[0].extra = o % 3 == 0;
                base.traits[0].comma_generics = o % 5 == 0;
                base.traits[0].comma_where = o % 4 < 2;
                v.push(Case::Programs(vec![base.clone()]));
            }
        }
        v
    }
    fn cases(tier: Tier) -> u32 {
        tier.pick(100, 4000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        prop_oneof![
            1 => prop::collection::vec(program(), 1..9).prop_map(Case::Programs),
            8 => (0u8..5, 0u8..9, 0u8..12, any::<u64>()).prop_map(|(a, b, c, d)| Case::Library(a, b, c, d)),
        ]
        .boxed()
    }
    fn check(c: &Case) -> Res {
        match c {
            Case::Programs(ps) => check_programs(ps),
            Case::Library(p, w, l, s) => check_library(*p, *w % 9, *l, *s),
        }
    }
}

fn main() {
    jv::main(&[jv::reg::<S11>()])
}
