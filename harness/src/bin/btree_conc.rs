//! Atomically edited trees under a scheduler that preempts at every atomic operation (spec/BTreeLin.tla).
use stabby_abi::alloc::collections::arc_btree::{ArcBTreeSet, AtomicArcBTreeSet};
use std::cell::RefCell;
use std::sync::atomic::Ordering;
use vharness::galloc::{self, tracking, untracked, Galloc};
use vharness::sched::{self, log, Dfs, Policy};
use vharness::{fx, obj, talloc, tok, Out, Rng, Tok, J};
#[global_allocator]
static GLOBAL: Galloc = Galloc;
#[stabby::stabby]
#[derive(Clone)]
pub struct El {
    key: i64,
    tok: Tok,
}
impl PartialEq for El {
    fn eq(&self, o: &Self) -> bool {
        self.key == o.key
    }
}
impl Eq for El {}
impl PartialOrd for El {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for El {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.tok.id();
        self.key.cmp(&o.key)
    }
}
impl PartialEq<i64> for El {
    fn eq(&self, o: &i64) -> bool {
        self.key == *o
    }
}
impl PartialOrd<i64> for El {
    fn partial_cmp(&self, o: &i64) -> Option<std::cmp::Ordering> {
        self.tok.id();
        Some(self.key.cmp(o))
    }
}
thread_local! { static SEEN: RefCell<Vec<Vec<i64>>> = const { RefCell::new(Vec::new()) }; }
impl std::fmt::Debug for El {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        sched::access("rd", self.tok.id() as i64);
        SEEN.with(|s| s.borrow_mut().push(vec![self.key, self.tok.val, self.tok.id() as i64]));
        Ok(())
    }
}
fn content<const R: bool, const L: usize>(s: &ArcBTreeSet<El, stabby_abi::alloc::DefaultAllocator, R, L>) -> J {
    untracked(|| {
        SEEN.with(|s| s.borrow_mut().clear());
        let _ = format!("{s:?}");
        let l: Vec<Vec<i64>> = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
        J::L(l.into_iter().map(J::from).collect())
    })
}
fn new_tok(val: i64) -> Tok {
    let t = Tok::new(val);
    sched::access("wr", t.id() as i64);
    t
}
#[derive(Clone, Debug)]
enum Op {
    Edit(Vec<i64>),
    Clear,
    Look,
    Get(i64),
}
fn ev(k: &'static str, c: J) {
    untracked(|| log(obj! {k: k, t: sched::me(), c: c}))
}
fn exec<const R: bool, const L: usize>(set: &AtomicArcBTreeSet<El, R, L>, op: &Op, val: &mut i64) {
    let mut a = vec![];
    let name = match op {
        Op::Edit(l) => {
            a.push(R as i64);
            for k in l {
                *val += 1;
                a.extend([*k, *val]);
            }
            "edit"
        }
        Op::Clear => "clear",
        Op::Look => "look",
        Op::Get(k) => {
            a.push(*k);
            "get"
        }
    };
    log(obj! {k: "inv", t: sched::me(), op: name, a: a.clone()});
    sched::window(sched::W_CELL);
    sched::point();
    tracking(|| match op {
        Op::Get(k) => set.get(k, |r| {
            let c = untracked(|| J::L(r.iter().map(|e| J::from(vec![e.key, e.tok.val, e.tok.id() as i64])).collect()));
            ev("found", c);
            sched::point();
            if let Some(e) = r {
                sched::access("rd", e.tok.id() as i64);
            }
            ev("released", J::L(vec![]));
        }),
        _ => set.edit(|mut s| {
            ev("call", content(&s));
            sched::point();
            match op {
                Op::Edit(_) => {
                    for x in a[1..].chunks(2) {
                        let e = untracked(|| El { key: x[0], tok: new_tok(x[1]) });
                        drop(s.insert(e));
                    }
                }
                Op::Clear => s = stabby_abi::alloc::collections::arc_btree::ArcBTreeSet::from_alloc(Default::default()),
                _ => {}
            }
            ev("computed", content(&s));
            s
        }),
    });
    sched::window(sched::W_NONE);
    log(obj! {k: "ret", t: sched::me()});
    sched::point();
}
#[derive(Clone, Debug)]
struct Prog {
    setup: Vec<Op>,
    threads: Vec<Vec<Op>>,
}
fn quiet() {
    log(obj! {k: "quiet", t: 0, a: tok::live()});
}
fn run<const R: bool, const L: usize>(p: &Prog, policy: Policy, hb: bool) -> sched::Run {
    talloc::reset();
    tok::reset();
    let _ = fx::take();
    let before = (galloc::LIVE.load(Ordering::SeqCst), galloc::BAD.load(Ordering::SeqCst));
    sched::start(policy, hb);
    let mut val = 0;
    let set = AtomicArcBTreeSet::<El, R, L>::new();
    sched::cells(vec![&set as *const _ as usize]);
    for o in &p.setup {
        exec(&set, o, &mut val);
    }
    quiet();
    struct P<T>(*const T);
    unsafe impl<T> Send for P<T> {}
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (i, ops) in p.threads.iter().enumerate() {
        let ops = ops.clone();
        let p = P(&set);
        bodies.push(Box::new(move || {
            let p = p;
            let mut val = 100 * (i as i64 + 1);
            for o in ops {
                exec(unsafe { &*p.0 }, &o, &mut val);
            }
        }));
    }
    sched::run(bodies);
    quiet();
    exec(&set, &Op::Look, &mut val);
    // whatever the content is, dropping the set releases it: an edit to nothing first would hide it
    log(obj! {k: "inv", t: 0, op: "clear", a: Vec::<i64>::new()});
    log(obj! {k: "call", t: 0, c: tracking(|| { let mut c = J::L(vec![]); set.edit(|s| { c = content(&s); s }); c })});
    log(obj! {k: "computed", t: 0, c: J::L(vec![])});
    tracking(|| drop(set));
    log(obj! {k: "ret", t: 0});
    let after = (galloc::LIVE.load(Ordering::SeqCst), galloc::BAD.load(Ordering::SeqCst));
    log(obj! {k: "end", t: 0, a: tok::live(), blocks: after.0 - before.0, misuse: (after.1 - before.1) as i64});
    galloc::LIVE.store(before.0, Ordering::SeqCst);
    sched::stop()
}
fn go(cfg: usize, p: &Prog, policy: Policy, hb: bool) -> sched::Run {
    match cfg % 4 {
        0 => run::<false, 3>(p, policy, hb),
        1 => run::<true, 3>(p, policy, hb),
        2 => run::<false, 5>(p, policy, hb),
        _ => run::<true, 5>(p, policy, hb),
    }
}
fn random_op(r: &mut Rng, keys: usize) -> Op {
    match r.below(16) {
        0..=8 => Op::Edit(vec![r.below(keys) as i64]),
        9 => Op::Edit((0..2 + r.below(2)).map(|_| r.below(keys) as i64).collect()),
        10 | 11 => Op::Clear,
        12 => Op::Look,
        _ => Op::Get(r.below(keys) as i64),
    }
}
/// Suite V01: the registry of vtables (spec/Registry.tla).
mod registry {
    use super::*;
    use stabby_abi::vtable::{VTableRegistry, VtBtree, VtVec};
    #[derive(Clone, Debug)]
    pub struct Prog {
        pub setup: Vec<usize>,
        pub threads: Vec<Vec<usize>>,
    }
    /// Contents by number: different lengths, common prefixes.
    fn words(n: usize) -> Vec<usize> {
        match n {
            0 => vec![],
            1..=4 => vec![n],
            5..=8 => vec![1, n],
            9 => vec![1, 5, 7],
            10 => vec![1, 5, 7, 9],
            n => vec![n % 3, n % 5, n],
        }
    }
    fn number(w: &[usize]) -> Vec<i64> {
        w.iter().map(|x| if *x < 1 << 20 { *x as i64 } else { -1 }).collect()
    }
    fn at(p: *const usize, len: usize) -> Vec<i64> {
        number(unsafe { std::slice::from_raw_parts(p, len) })
    }
    fn ask(r: &dyn Reg, n: usize, seen: &mut Vec<(usize, usize)>) {
        let w = words(n);
        log(obj! {k: "ask", t: sched::me(), c: number(&w)});
        sched::window(sched::W_CELL);
        sched::point();
        let p = tracking(|| r.ask(&w, n % 2 == 1));
        sched::window(sched::W_NONE);
        log(obj! {k: "got", t: sched::me(), a: name(p as usize), c: at(p, w.len())});
        sched::point();
        if !w.is_empty() {
            seen.push((p as usize, w.len()));
        }
    }
    static NAMES: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(Vec::new());
    fn name(p: usize) -> i64 {
        let mut l = NAMES.lock().unwrap();
        let i = l.iter().position(|x| *x == p).unwrap_or_else(|| {
            l.push(p);
            l.len() - 1
        });
        i as i64 + 1
    }
    trait Reg {
        fn ask(&self, w: &[usize], typed: bool) -> *const usize;
    }
    fn typed<R: VTableRegistry, const N: usize>(r: &R, w: &[usize]) -> *const usize {
        let a: [usize; N] = w.try_into().unwrap();
        let p: &'static [usize; N] = r.insert_typed(&a);
        p.as_ptr()
    }
    impl<R: VTableRegistry> Reg for R {
        fn ask(&self, w: &[usize], t: bool) -> *const usize {
            match w.len() {
                1 if t => typed::<R, 1>(self, w),
                2 if t => typed::<R, 2>(self, w),
                3 if t => typed::<R, 3>(self, w),
                4 if t => typed::<R, 4>(self, w),
                _ => self.insert(unsafe { std::slice::from_raw_parts(w.as_ptr().cast(), w.len()) }).as_ptr() as *const usize,
            }
        }
    }
    pub fn run(cfg: usize, p: &Prog, policy: Policy) -> sched::Run {
        NAMES.lock().unwrap().clear();
        let r: &'static dyn Reg = match cfg % 3 {
            0 => Box::leak(Box::new(VtBtree::<5>::new())),
            1 => Box::leak(Box::new(VtBtree::<3>::new())),
            _ => Box::leak(Box::new(VtVec::new(None))),
        };
        let bad = galloc::BAD.load(Ordering::SeqCst);
        sched::start(policy, false);
        sched::cells(vec![r as *const dyn Reg as *const u8 as usize]);
        let mut seen = vec![];
        for n in &p.setup {
            ask(r, *n, &mut seen);
        }
        let all = std::sync::Arc::new(std::sync::Mutex::new(seen));
        struct P(&'static dyn Reg);
        unsafe impl Send for P {}
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for l in p.threads.iter() {
            let (l, all, r) = (l.clone(), all.clone(), P(r));
            bodies.push(Box::new(move || {
                let r = r;
                let mut seen = vec![];
                for n in l {
                    ask(r.0, n, &mut seen);
                    for (p, len) in &seen {
                        log(obj! {k: "look", t: sched::me(), a: name(*p), c: at(*p as _, *len)});
                    }
                }
                all.lock().unwrap().extend(seen);
            }));
        }
        if !bodies.is_empty() {
            sched::run(bodies);
        }
        let mut l = std::mem::take(&mut *all.lock().unwrap());
        let again: Vec<usize> = p.setup.iter().chain(p.threads.iter().flatten()).copied().collect();
        for n in again {
            ask(r, n, &mut l);
        }
        l.sort();
        l.dedup();
        for (p, len) in &l {
            log(obj! {k: "look", t: 0, a: name(*p), c: at(*p as _, *len)});
        }
        log(obj! {k: "end", t: 0, n: l.len() as i64, misuse: (galloc::BAD.load(Ordering::SeqCst) - bad) as i64});
        sched::stop()
    }
}
fn registries(out: &mut Out, rng: &mut Rng, thorough: bool) {
    use registry::{run, Prog};
    let emit = |out: &mut Out, r: &sched::Run, cfg: usize, p: &Prog| {
        out.trace_meta(J::O(vec![]), r.log.clone(), J::S(format!("registry {} {p:?} schedule={:?}", cfg % 3, r.choices)));
    };
    let scale = if thorough { 12 } else { 1 };
    for i in 0..(40 * scale) {
        let m = 4 + rng.below(60);
        let p = Prog { setup: (0..rng.below(60)).map(|_| rng.below(m)).collect(), threads: vec![] };
        out.begin(&format!("{i} {p:?}"));
        let r = run(i, &p, Policy::Fixed(vec![], 0));
        emit(out, &r, i, &p);
    }
    for i in 0..(if thorough { 500 } else { 75 }) {
        let nt = if i % 3 == 2 { 3 } else { 2 };
        let m = 1 + rng.below(5);
        let setup = (0..rng.below(4)).map(|_| rng.below(12)).collect();
        let threads = (0..nt).map(|_| (0..1 + rng.below(if nt == 3 { 2 } else { 3 })).map(|_| 1 + rng.below(m)).collect()).collect();
        let p = Prog { setup, threads };
        let mut d = Dfs::new(2);
        let mut n = 0;
        loop {
            out.begin(&format!("{i} {p:?}"));
            let r = run(i, &p, Policy::Dfs(d.clone()));
            emit(out, &r, i, &p);
            let Policy::Dfs(mut nd) = r.policy else { unreachable!() };
            n += 1;
            if n >= if thorough { 3000 } else { 250 } || !nd.advance() {
                break;
            }
            d = nd;
        }
    }
    for i in 0..(900 * scale) {
        let nt = 2 + rng.below(2);
        let m = 2 + rng.below(16);
        let setup = (0..rng.below(6)).map(|_| rng.below(m)).collect();
        let threads = (0..nt).map(|_| (0..1 + rng.below(5)).map(|_| rng.below(m)).collect()).collect();
        let p = Prog { setup, threads };
        out.begin(&format!("{i} {p:?}"));
        let r = run(i, &p, Policy::Random(Rng::new(rng.next()), 1, 1 + rng.below(6)));
        emit(out, &r, i, &p);
    }
}
fn main() {
    let a = vharness::args();
    if std::env::var("LOUD").is_err() { vharness::quiet_panics(); }
    sched::init();
    let mut out = Out::new(&a.out, &a.suite);
    let mut rng = Rng::new(a.seed);
    if a.suite == "V01" {
        registries(&mut out, &mut rng, a.thorough);
        return out.finish();
    }
    let hb = a.suite == "B03hb";
    let scale = if a.thorough { 12 } else { 1 };
    let emit = |out: &mut Out, r: &sched::Run, cfg: usize, p: &Prog| {
        let meta = J::S(format!("tree {} {p:?} schedule={:?}", cfg % 4, r.choices));
        out.trace_meta(J::O(vec![]), if hb { r.hb.clone() } else { r.log.clone() }, meta);
    };
    for i in 0..(if a.thorough { 900 } else { if hb { 30 } else { 110 } }) {
        let nt = if i % 3 == 2 { 3 } else { 2 };
        let keys = 2 + rng.below(5);
        let setup = (0..[0, 0, 1, 1, 2, 4][rng.below(6)]).map(|_| Op::Edit(vec![rng.below(keys) as i64])).collect();
        let threads = (0..nt).map(|_| (0..1 + rng.below(if nt == 3 { 2 } else { 3 })).map(|_| random_op(&mut rng, keys)).collect()).collect();
        let p = Prog { setup, threads };
        let mut d = Dfs::new(2);
        let mut n = 0;
        let cap = if a.thorough { 3000 } else { 200 };
        loop {
            out.begin(&format!("{i} {p:?}"));
            let r = go(i, &p, Policy::Dfs(d.clone()), hb);
            emit(&mut out, &r, i, &p);
            let Policy::Dfs(mut nd) = r.policy else { unreachable!() };
            n += 1;
            if n >= cap || !nd.advance() {
                break;
            }
            d = nd;
        }
    }
    for i in 0..(if hb { 300 } else { 1500 } * scale) {
        let nt = 2 + rng.below(2);
        let keys = 2 + rng.below(12);
        let setup = (0..rng.below(3)).map(|_| Op::Edit((0..rng.below(6)).map(|_| rng.below(keys) as i64).collect())).collect();
        let threads = (0..nt).map(|_| (0..1 + rng.below(4)).map(|_| random_op(&mut rng, keys)).collect()).collect();
        let p = Prog { setup, threads };
        out.begin(&format!("{i} {p:?}"));
        let r = go(i, &p, Policy::Random(Rng::new(rng.next()), 1, 1 + rng.below(6)), hb);
        emit(&mut out, &r, i, &p);
    }
    out.finish();
}
