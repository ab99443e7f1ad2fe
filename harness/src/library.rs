//! What's looked up in libraries.
use libloading::Library;
use stabby::libloading::StabbyLibrary;
use std::io::Write;
use vharness::{obj, Out, Rng, J};

fn peer() -> std::path::PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("examples/libpeer.so")
}
struct Names(Vec<&'static str>);
struct Look {
    name: &'static str,
    report: String,
    get: Box<dyn Fn(&Library, &str) -> Result<Box<dyn Fn(i64, i64) -> i64>, String>>,
}
macro_rules! looks {
    ($($n: ident: ($($a: ident: $t: ty),*) -> $r: ty, |$($b: ident),*| $e: expr, |$f: ident, $x: ident, $y: ident| $call: expr;)*) => {
        fn looks() -> (Names, Vec<Look>) {
            (Names(vec![$(stringify!($n)),*]), vec![$(Look {
                name: stringify!($n),
                report: <extern "C" fn($($t),*) -> $r as stabby::IStable>::REPORT.to_string(),
                get: Box::new(|lib, sym| {
                    // SAFETY: it's one of the peer's
                    let s = unsafe { lib.get_stabbied::<extern "C" fn($($t),*) -> $r>(sym.as_bytes()) }.map_err(|e| e.to_string())?;
                    let $f = *s;
                    Ok(Box::new(move |$x, $y| $call))
                }),
            }),*])
        }
    };
}
vharness::peer_signatures!(looks);
/// A library of the C language with a function and others that do nothing.
fn compiled(dir: &std::path::Path, no: usize, names: &[String]) -> std::path::PathBuf {
    let (src, so) = (dir.join(format!("c{no}.c")), dir.join(format!("c{no}.so")));
    let mut f = std::fs::File::create(&src).unwrap();
    for n in names {
        if n == "canon" {
            writeln!(f, "unsigned canon(unsigned char a, unsigned short b) {{ return a * 3 + b; }}").unwrap();
        } else {
            writeln!(f, "void {n}(void) {{}}").unwrap();
        }
    }
    drop(f);
    let ok = std::process::Command::new("cc").args(["-shared", "-fPIC", "-o"]).arg(&so).arg(&src).status().map_or(false, |s| s.success());
    if !ok {
        eprintln!("no C compiler");
        std::process::exit(3);
    }
    so
}
pub fn run(out: &mut Out, rng: &mut Rng, thorough: bool) {
    let (Names(names), looks) = looks();
    // SAFETY: it's ours
    let lib = match unsafe { Library::new(peer()) } {
        Ok(l) => l,
        Err(e) => {
            eprintln!("the peer doesn't load: {e}");
            std::process::exit(3);
        }
    };
    let exports = || J::O(names.iter().map(|n| (*n, J::from(*n))).collect());
    for sym in names.iter().copied().chain(["nothing_like_it", "canon"]) {
        let mut ev = Vec::new();
        for l in &looks {
            out.begin(&format!("{sym} as {}", l.name));
            let got = (l.get)(&lib, sym);
            // refusals name both signatures, where there are two
            let told = match &got {
                Err(e) => looks.iter().find(|o| o.name == sym).map_or(true, |o| e.contains(&l.report) && e.contains(&o.report)),
                Ok(_) => true,
            };
            ev.push(obj! {k: "get", sym: sym, sig: l.name, r: got.is_ok(), told: told});
            if let (Ok(f), true) = (got, l.name == sym) {
                for _ in 0..if thorough { 20 } else { 4 } {
                    let (a, b) = (1 + rng.below(40) as i64, rng.below(200) as i64);
                    ev.push(obj! {k: "call", a: vec![a, b], r: f(a, b)});
                }
            }
        }
        out.trace_meta(obj! {exports: exports()}, ev, J::from(sym));
    }
    // SAFETY: it is exported with that signature
    let canaried = |lib: &Library| -> Option<Box<dyn Fn(i64, i64) -> i64>> {
        let f = *unsafe { lib.get_canaried::<extern "C" fn(u8, u16) -> u32>(b"canon") }.ok()?;
        Some(Box::new(move |a, b| f(a as u8, b as u16) as i64))
    };
    let file = std::fs::read(peer()).unwrap();
    let mut all: Vec<String> = file.split(|b| *b == 0).filter_map(|s| std::str::from_utf8(s).ok()).filter(|s| s.starts_with("canon_canary")).map(|s| s.to_string()).collect();
    all.sort();
    all.dedup();
    let kinds = ["rustc", "optlevel", "debug", "target", "numjobs"].iter().filter(|k| all.iter().any(|c| c[12..].starts_with(&format!("_{k}")))).count();
    out.begin("canaries");
    out.trace_meta(obj! {exports: exports()}, vec![obj! {k: "kinds", r: kinds}], J::from("canaries"));
    let dir = std::env::temp_dir().join(format!("vharness-link-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut no = 0;
    let mut one = |out: &mut Out, rng: &mut Rng, what: &str, need: i64, lib: &Library| {
        out.begin(&format!("canaries: {what}"));
        let got = canaried(lib);
        let mut ev = vec![obj! {k: "canaried", need: need, r: got.is_some()}];
        if let Some(f) = got {
            let (a, b) = (1 + rng.below(40) as i64, rng.below(200) as i64);
            ev.push(obj! {k: "call", a: vec![a, b], r: f(a, b)});
        }
        out.trace_meta(obj! {exports: exports()}, ev, J::from(what));
    };
    one(out, rng, "the peer", 1, &lib);
    let mut with = |out: &mut Out, rng: &mut Rng, what: &str, need: i64, names: &[String]| {
        no += 1;
        let so = compiled(&dir, no, names);
        // SAFETY: it does nothing by itself
        let lib = unsafe { Library::new(so) }.unwrap();
        one(out, rng, what, need, &lib);
    };
    let canon = "canon".to_string();
    let list = |f: &dyn Fn(&String) -> Option<String>| -> Vec<String> { std::iter::once(canon.clone()).chain(all.iter().filter_map(f)).collect() };
    with(out, rng, "a stand-in with all of them", 1, &list(&|s| Some(s.clone())));
    with(out, rng, "a stand-in without any", 0, &[canon.clone()]);
    with(out, rng, "canaries without the function", 0, &all.clone());
    for c in &all {
        // what the host was isn't asked for
        let need = if c.contains("host") { 2 } else { 0 };
        with(out, rng, &format!("without {c}"), need, &list(&|s| (s != c).then(|| s.clone())));
        with(out, rng, &format!("with more than {c}"), need, &list(&|s| Some(if s == c { format!("{s}0") } else { s.clone() })));
        if let Some(i) = c.rfind(|x: char| x.is_ascii_digit()) {
            let d = if &c[i..=i] == "1" { "0" } else { "1" };
            with(out, rng, &format!("with another digit in {c}"), need, &list(&|s| Some(if s == c { format!("{}{d}{}", &s[..i], &s[i + 1..]) } else { s.clone() })));
        }
    }
    for _ in 0..if thorough { 20 } else { 0 } {
        let keep: Vec<bool> = all.iter().map(|_| rng.chance(1, 2)).collect();
        let all_needed = all.iter().zip(&keep).all(|(c, k)| *k || c.contains("host"));
        let need = if keep.iter().all(|k| *k) { 1 } else if all_needed { 2 } else { 0 };
        let names: Vec<String> = std::iter::once(canon.clone()).chain(all.iter().zip(&keep).filter(|(_, k)| **k).map(|(c, _)| c.clone())).collect();
        with(out, rng, "some of them", need, &names);
    }
    let _ = std::fs::remove_dir_all(&dir);
}
