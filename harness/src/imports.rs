//! Imports whose descriptions are checked.
use stabby_abi::checked_import::{CanariedImport, CheckedImport};
use stabby_abi::report::TypeReport;
use stabby_abi::IStable;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use vharness::sched::{self, access, log, Dfs, Policy};
use vharness::{catch, obj, tok, Out, Rng, Tok, J};

static MATCH: AtomicBool = AtomicBool::new(true);
static LOCAL: &TypeReport = <u128 as IStable>::REPORT;
static FOREIGN: &TypeReport = <u16 as IStable>::REPORT;
#[allow(improper_ctypes_definitions)]
unsafe extern "C" fn checker(report: &TypeReport) -> Option<Tok> {
    // (an importer that doesn't show its own description isn't checked)
    let right = core::ptr::eq(report, LOCAL) && MATCH.load(Ordering::SeqCst);
    vharness::galloc::untracked(|| {
        sched::point();
        let v = right.then(|| Tok::new(5));
        let id = v.as_ref().map_or(0, |v| v.id());
        if id != 0 {
            access("wr", id as i64);
        }
        log(obj! {k: "check", t: sched::me(), v: id});
        v
    })
}
unsafe extern "C" fn foreign() -> &'static TypeReport {
    FOREIGN
}
type Import = CheckedImport<Tok>;
/// Each thread's calls: 0 for `as_ref`, 1 for dereferencing.
fn go(p: &[Vec<usize>], matching: bool, policy: Policy, hb: bool) -> sched::Run {
    tok::reset();
    MATCH.store(matching, Ordering::SeqCst);
    // nothing is in the cell yet
    let mut space = Box::new(core::mem::MaybeUninit::<Import>::uninit());
    // SAFETY: it's for bytes
    unsafe { core::ptr::write_bytes(space.as_mut_ptr() as *mut u8, 0x5a, size_of::<Import>()) };
    space.write(Import::new(checker, foreign, LOCAL));
    // SAFETY: it was just written
    let import: Box<Import> = unsafe { Box::from_raw(Box::into_raw(space) as *mut Import) };
    sched::start(policy, hb);
    sched::after(true);
    let at = &*import as *const Import as usize;
    let bodies = p
        .iter()
        .cloned()
        .map(|ops| {
            Box::new(move || {
                // SAFETY: It outlives the threads.
                let import = unsafe { &*(at as *const Import) };
                for op in ops {
                    log(obj! {k: "inv", t: sched::me()});
                    sched::point();
                    let r = if op == 0 {
                        import.as_ref().map_err(|e| core::ptr::eq(e.local, LOCAL) && core::ptr::eq(e.loaded, FOREIGN))
                    } else {
                        // refusing is by panicking
                        catch(|| &**import).ok_or(true)
                    };
                    match r {
                        Ok(v) => {
                            let id = v.id();
                            access("rd", id as i64);
                            log(obj! {k: "ret", t: sched::me(), r: id, rep: 1});
                            sched::point();
                            access("rd", id as i64);
                            log(obj! {k: "use", t: sched::me(), v: v.id()});
                        }
                        Err(rep) => log(obj! {k: "ret", t: sched::me(), r: 0, rep: rep}),
                    }
                    sched::point();
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    sched::run(bodies);
    log(obj! {k: "over"});
    drop(import);
    log(obj! {k: "end"});
    sched::after(false);
    sched::stop()
}
pub fn concurrent(out: &mut Out, rng: &mut Rng, thorough: bool, hb: bool) {
    sched::init();
    for n in 0..if thorough { 120 } else { 24 } {
        let threads = 1 + (n / 2 + 1) % 3;
        let matching = n % 4 != 3;
        let p: Vec<Vec<usize>> = (0..threads).map(|_| (0..1 + rng.below(3)).map(|_| rng.below(2)).collect()).collect();
        let mut d = Dfs::new(if threads == 3 { 2 } else { 3 });
        let mut count = 0;
        loop {
            out.begin(&format!("{p:?} matching={matching} schedule {count}"));
            let r = go(&p, matching, Policy::Dfs(d), hb);
            let meta = J::from(format!("{p:?} {:?}", r.choices));
            if hb {
                out.trace_meta(J::O(vec![]), r.hb, meta);
            } else {
                out.trace_meta(obj! {match: matching}, r.log, meta);
            }
            d = match r.policy {
                Policy::Dfs(d) => d,
                _ => unreachable!(),
            };
            count += 1;
            if count > 700 || !d.advance() {
                break;
            }
        }
    }
}

// The functions of this program, imported by the same program: linking finds them here.
mod exports {
    use vharness::peer::{other, Dot};
    #[stabby::export]
    pub extern "C" fn imp_same(a: u8, b: u16) -> u32 {
        a as u32 * 3 + b as u32 + 1
    }
    #[stabby::export]
    pub extern "C" fn imp_argument(a: u8, b: u16) -> u32 {
        a as u32 * 3 + b as u32 + 2
    }
    #[stabby::export]
    pub extern "C" fn imp_result(a: u8, b: u16) -> u32 {
        a as u32 * 3 + b as u32 + 3
    }
    #[stabby::export]
    pub extern "C" fn imp_more(a: u8, b: u16) -> u32 {
        a as u32 * 3 + b as u32 + 4
    }
    #[stabby::export]
    pub extern "C" fn imp_struct(a: Dot) -> u32 {
        a.x * 3 + a.y as u32 + 5
    }
    #[stabby::export]
    pub extern "C" fn imp_module(a: other::Dot) -> u32 {
        a.x * 3 + a.y as u32 + 6
    }
    #[stabby::export]
    pub unsafe extern "C" fn imp_unsafe(a: u8, b: u16) -> u32 {
        a as u32 * 3 + b as u32 + 7
    }
    #[stabby::export(canaries)]
    pub extern "C" fn imp_canaries(a: u8, b: u16) -> u32 {
        a as u32 * 3 + b as u32 + 8
    }
    #[stabby::export(canaries)]
    pub extern "C" fn imp_some_canaries(a: u8, b: u16) -> u32 {
        a as u32 * 3 + b as u32 + 9
    }
    #[stabby::export(canaries)]
    pub extern "C" fn imp_no_canaries(a: u8, b: u16) -> u32 {
        a as u32 * 3 + b as u32 + 10
    }
}
use vharness::peer::Dot;
#[stabby::import(name = "c")]
#[allow(improper_ctypes, clashing_extern_declarations)]
extern "C" {
    pub fn imp_same(a: u8, b: u16) -> u32;
    pub fn imp_argument(a: u8, b: u32) -> u32;
    pub fn imp_result(a: u8, b: u16) -> i32;
    pub fn imp_more(a: u8, b: u16, c: u8) -> u32;
    pub fn imp_struct(a: super::Dot) -> u32;
    pub fn imp_module(a: super::Dot) -> u32;
    pub unsafe fn imp_unsafe(a: u8, b: u16) -> u32;
}
#[stabby::import(canaries = "", name = "c")]
extern "C" {
    pub fn imp_canaries(a: u8, b: u16) -> u32;
}
#[stabby::import(canaries = "rustc, opt_level, debug, target, num_jobs, host", name = "c")]
extern "C" {
    pub fn imp_some_canaries(a: u8, b: u16) -> u32;
}
#[stabby::import(canaries = "none", name = "c")]
extern "C" {
    pub fn imp_no_canaries(a: u8, b: u16) -> u32;
}
static CALLED: AtomicUsize = AtomicUsize::new(0);
extern "C" fn canary() {
    CALLED.fetch_add(1, Ordering::SeqCst);
}
pub fn run(out: &mut Out, rng: &mut Rng, thorough: bool) {
    macro_rules! import {
        ($name: ident, $match: expr, $s: expr, |$f: ident, $a: ident, $b: ident| $call: expr) => {
            for round in 0..3 {
                out.begin(&format!("import {}", stringify!($name)));
                let mut ev = Vec::new();
                let got = $name.as_ref();
                ev.push(obj! {k: "import", match: $match, r: got.is_ok()});
                let by_deref = if round > 0 || rng.chance(1, 2) { catch(|| *$name).is_some() } else { $match };
                ev.push(obj! {k: "import", match: $match, r: by_deref});
                if let (Ok($f), true) = (got, $match) {
                    let ($a, $b) = (rng.below(40) as i64, rng.below(200) as i64);
                    ev.push(obj! {k: "call", a: vec![$a, $b], s: $s, r: $call as i64});
                }
                if let Err(e) = got {
                    // what it tells names the types that differ
                    let told = core::ptr::eq(e.loaded, e.local) || *e.loaded == *e.local;
                    ev.push(obj! {k: "import", match: false, r: told});
                }
                out.trace_meta(obj! {match: $match}, ev, J::from(stringify!($name)));
            }
        };
    }
    import!(imp_same, true, 1, |f, a, b| f(a as u8, b as u16));
    import!(imp_argument, false, 2, |f, a, b| f(a as u8, b as u32));
    import!(imp_result, false, 3, |f, a, b| f(a as u8, b as u16));
    import!(imp_more, false, 4, |f, a, b| f(a as u8, b as u16, 0));
    import!(imp_struct, true, 5, |f, a, b| f(Dot { x: a as u32, y: b as u8 }));
    import!(imp_module, false, 6, |f, a, b| f(Dot { x: a as u32, y: b as u8 }));
    import!(imp_unsafe, true, 7, |f, a, b| unsafe { f(a as u8, b as u16) });
    out.begin("canaried imports");
    let mut ev = Vec::new();
    for _ in 0..3 {
        let (a, b) = (rng.below(40) as i64, rng.below(200) as i64);
        let (x, y) = (a as u8, b as u16);
        for (s, r) in [(8, unsafe { imp_canaries(x, y) }), (9, unsafe { imp_some_canaries(x, y) }), (10, unsafe { imp_no_canaries(x, y) })] {
            ev.push(obj! {k: "call", a: vec![a, b], s: s, r: r});
        }
    }
    out.trace_meta(obj! {match: true}, ev, J::from("canaried imports"));
    for n in 0..if thorough { 50 } else { 10 } {
        out.begin("calling the canaries");
        let mut ev = Vec::new();
        let import = CanariedImport::new(n as u64 * 77, canary);
        for _ in 0..1 + rng.below(4) {
            CALLED.store(0, Ordering::SeqCst);
            let r = *import;
            (0..CALLED.load(Ordering::SeqCst)).for_each(|_| ev.push(obj! {k: "canary"}));
            ev.push(obj! {k: "access", r: r == n as u64 * 77});
        }
        ev.push(obj! {k: "end"});
        out.trace_meta(obj! {match: true}, ev, J::from("calling the canaries"));
    }
}
