//! Suites A01..A05: shared handles (Arc, Weak, ArcSlice, WeakSlice, trait objects over them, AtomicArc).
use stabby_abi::alloc::sync::{Arc, ArcSlice, AtomicArc, Weak, WeakSlice};
use stabby_abi::alloc::vec::Vec as SVec;
use stabby_abi::alloc::{AllocPtr, AllocSlice};
use stabby_abi::{Dyn, IntoDyn};
use std::sync::atomic::Ordering;
use vharness::sched::{self, log, Dfs, Policy};
use vharness::{fx, obj, talloc, tok, Out, Rng, Tok, TrackAlloc, J};

#[stabby::stabby]
pub trait Get {
    extern "C" fn get(&self) -> i64;
}
impl Get for Tok {
    extern "C" fn get(&self) -> i64 {
        let i = self.id();
        sched::access("rd", i as i64);
        self.val
    }
}
type DA = Dyn<'static, Arc<(), TrackAlloc>, stabby::vtable!(Get + Send + Sync)>;
type DW = Dyn<'static, Weak<(), TrackAlloc>, stabby::vtable!(Get + Send + Sync)>;
type A = Arc<Tok, TrackAlloc>;
type W = Weak<Tok, TrackAlloc>;
type S = ArcSlice<Tok, TrackAlloc>;
type V = WeakSlice<Tok, TrackAlloc>;
type Cell = AtomicArc<Tok, TrackAlloc>;

enum K {
    A(A),
    W(W),
    S(S),
    V(V),
    D(DA),
    E(DW),
    T(Tok),
}
struct H {
    k: K,
    /// The object (block number) the handle refers to, or the token.
    o: u32,
}
unsafe impl Send for H {}
fn wptr(w: &W) -> usize {
    let p: AllocPtr<Tok, TrackAlloc> = Weak::into_raw(unsafe { std::ptr::read(w) });
    p.ptr.as_ptr() as usize
}
fn aptr(a: &A) -> usize {
    let p: AllocPtr<Tok, TrackAlloc> = Arc::into_raw(unsafe { std::ptr::read(a) });
    p.ptr.as_ptr() as usize
}
fn sptr(a: &S) -> usize {
    let p: AllocSlice<Tok, TrackAlloc> = ArcSlice::into_raw(unsafe { std::ptr::read(a) });
    p.start.ptr.as_ptr() as usize
}
fn blk(p: usize) -> u32 {
    talloc::block_of(p).map_or(0, |b| b.0)
}
fn strong(h: &H) -> bool {
    matches!(h.k, K::A(_) | K::S(_) | K::D(_))
}
fn weak(h: &H) -> bool {
    matches!(h.k, K::W(_) | K::V(_) | K::E(_))
}
const OPS: &[&str] = &[
    "clone", "downgrade", "drop", "upgrade", "read", "counts", "get_mut", "is_unique", "make_mut", "into_inner", "tovec", "new", "load", "store", "storenull", "cas", "casnull", "is", "todyn", "toslice",
];
/// An operation: name, which handle it applies to, parameters.
#[derive(Clone, Copy, Debug)]
struct Op {
    op: &'static str,
    h: usize,
    g: usize,
    c: usize,
}
fn inv(op: &str, a: Vec<i64>) {
    log(obj! {k: "inv", t: sched::me(), op: op, a: a});
    sched::point();
}
fn ret(r: Vec<i64>, x: Vec<i64>) {
    sched::window(sched::W_NONE);
    log(obj! {k: "ret", t: sched::me(), r: r, x: x});
    sched::point();
}
fn new_tok(val: i64) -> Tok {
    let t = Tok::new(val);
    sched::access("wr", t.id() as i64);
    t
}
struct Ctx<'a> {
    hs: Vec<H>,
    cells: &'a [Cell],
    nval: i64,
    ord: usize,
}
fn pick(hs: &[H], n: usize, f: impl Fn(&H) -> bool) -> Option<usize> {
    let l: Vec<usize> = (0..hs.len()).filter(|i| f(&hs[*i])).collect();
    if l.is_empty() {
        None
    } else {
        Some(l[n % l.len()])
    }
}
fn opt(o: Option<A>, cx: &mut Ctx) -> i64 {
    match o {
        None => 0,
        Some(a) => {
            let b = blk(aptr(&a));
            cx.hs.push(H { k: K::A(a), o: b });
            b as i64
        }
    }
}
impl Ctx<'_> {
    fn val(&mut self) -> i64 {
        self.nval += 1;
        self.nval
    }
    fn lord(&self) -> Ordering {
        [Ordering::Acquire, Ordering::SeqCst][self.ord % 2]
    }
    fn sord(&self) -> Ordering {
        [Ordering::Release, Ordering::SeqCst][self.ord % 2]
    }
    fn rord(&self) -> Ordering {
        [Ordering::AcqRel, Ordering::SeqCst][self.ord % 2]
    }
    fn drop_at(&mut self, i: usize) {
        let H { k, o } = self.hs.remove(i);
        let o = o as i64;
        match k {
            K::A(a) => {
                inv("drops", vec![o]);
                drop(a)
            }
            K::S(a) => {
                inv("drops", vec![o]);
                drop(a)
            }
            K::D(a) => {
                inv("drops", vec![o]);
                drop(a)
            }
            K::W(a) => {
                inv("dropw", vec![o]);
                drop(a)
            }
            K::V(a) => {
                inv("dropw", vec![o]);
                drop(a)
            }
            K::E(a) => {
                inv("dropw", vec![o]);
                drop(a)
            }
            K::T(t) => {
                inv("dropt", vec![o]);
                drop(t)
            }
        }
        ret(vec![], vec![]);
    }
    fn new_obj(&mut self, n: usize, inst: u32) {
        let v0 = self.val();
        let al = TrackAlloc::new(inst);
        inv("new", vec![v0]);
        let mut ids = vec![];
        let h = if n == 1 {
            let t = new_tok(v0);
            ids.push(t.id() as i64);
            let a = Arc::new_in(t, al);
            let o = blk(aptr(&a));
            H { k: K::A(a), o }
        } else {
            let mut v = SVec::new_in(al);
            for i in 0..n - 2 {
                let t = new_tok(if i == 0 { v0 } else { 0 });
                ids.push(t.id() as i64);
                v.push(t);
            }
            let s = S::from(v);
            let o = blk(sptr(&s));
            H { k: K::S(s), o }
        };
        let o = h.o as i64;
        self.hs.push(h);
        ret(vec![1, o], ids);
    }
    fn exec(&mut self, op: Op) {
        let Op { op, h, g, c } = op;
        match op {
            "new" => self.new_obj(1, 1),
            "drop" => {
                if !self.hs.is_empty() {
                    self.drop_at(h % self.hs.len())
                }
            }
            "dropw" => {
                if let Some(i) = pick(&self.hs, h, weak) {
                    self.drop_at(i)
                }
            }
            "drops" => {
                if let Some(i) = pick(&self.hs, h, strong) {
                    self.drop_at(i)
                }
            }
            "clone" => {
                let Some(i) = pick(&self.hs, h, |x| !matches!(x.k, K::T(_) | K::E(_))) else { return };
                let o = self.hs[i].o;
                inv(if weak(&self.hs[i]) { "wclone" } else { "clone" }, vec![o as i64]);
                let (k, p) = match &self.hs[i].k {
                    K::A(a) => {
                        let a = if g % 2 == 0 { a.clone() } else { A::from(a) };
                        let p = aptr(&a);
                        (K::A(a), p)
                    }
                    K::W(a) => {
                        let a = if g % 2 == 0 { a.clone() } else { W::from(a) };
                        let p = wptr(&a);
                        (K::W(a), p)
                    }
                    K::S(a) => {
                        let a = if g % 2 == 0 { a.clone() } else { S::from(a) };
                        let p = sptr(&a);
                        (K::S(a), p)
                    }
                    K::V(a) => {
                        let a = if g % 2 == 0 { a.clone() } else { V::from(a) };
                        (K::V(a), 0)
                    }
                    K::D(a) => (K::D(a.clone()), 0),
                    _ => unreachable!(),
                };
                let b = if p == 0 { o } else { blk(p) };
                self.hs.push(H { k, o: b });
                ret(vec![1, b as i64], vec![]);
            }
            "downgrade" => {
                let Some(i) = pick(&self.hs, h, strong) else { return };
                let o = self.hs[i].o;
                inv("downgrade", vec![o as i64]);
                let k = match &self.hs[i].k {
                    K::A(a) => K::W(if g % 2 == 0 { Arc::downgrade(a) } else { W::from(a) }),
                    K::S(a) => K::V(V::from(a)),
                    // `From<&Dyn<Arc>>` keeps the borrow's lifetime although the result owns what it needs.
                    K::D(a) => K::E(unsafe { std::mem::transmute::<&DA, &'static DA>(a) }.into()),
                    _ => unreachable!(),
                };
                self.hs.push(H { k, o });
                ret(vec![1, o as i64], vec![]);
            }
            "upgrade" => {
                let Some(i) = pick(&self.hs, h, weak) else { return };
                let o = self.hs[i].o;
                if matches!(self.hs[i].k, K::E(_)) {
                    let H { k: K::E(e), .. } = self.hs.remove(i) else { unreachable!() };
                    inv("dynupgrade", vec![o as i64]);
                    let r: Option<DA> = e.upgrade().into();
                    let r = match r {
                        Some(d) => {
                            self.hs.push(H { k: K::D(d), o });
                            vec![1, o as i64]
                        }
                        None => vec![0],
                    };
                    return ret(r, vec![]);
                }
                inv("upgrade", vec![o as i64]);
                let n = match &self.hs[i].k {
                    K::W(w) => w.upgrade().map(|a| {
                        let o = blk(aptr(&a));
                        H { k: K::A(a), o }
                    }),
                    K::V(w) => w.upgrade().map(|a| {
                        let o = blk(sptr(&a));
                        H { k: K::S(a), o }
                    }),
                    _ => unreachable!(),
                };
                let r = match n {
                    Some(n) => {
                        let o = n.o as i64;
                        self.hs.push(n);
                        vec![1, o]
                    }
                    None => vec![0],
                };
                ret(r, vec![]);
            }
            "read" => {
                let Some(i) = pick(&self.hs, h, strong) else { return };
                let o = self.hs[i].o;
                inv("read", vec![o as i64]);
                let r = match &self.hs[i].k {
                    K::A(a) => {
                        let t: &Tok = a;
                        vec![t.get(), t.id() as i64]
                    }
                    K::S(a) => match a.as_slice().first() {
                        Some(t) => vec![t.get(), t.id() as i64],
                        None => vec![],
                    },
                    K::D(a) => vec![a.get()],
                    _ => unreachable!(),
                };
                ret(r, vec![]);
            }
            "counts" => {
                let Some(i) = pick(&self.hs, h, |x| matches!(x.k, K::A(_) | K::S(_))) else { return };
                let o = self.hs[i].o as i64;
                inv("strong_count", vec![o]);
                let n = match &self.hs[i].k {
                    K::A(a) => Arc::strong_count(a),
                    K::S(a) => ArcSlice::strong_count(a),
                    _ => 0,
                };
                ret(vec![n as i64], vec![]);
                inv("weak_count", vec![o]);
                let n = match &self.hs[i].k {
                    K::A(a) => Arc::weak_count(a),
                    K::S(a) => ArcSlice::weak_count(a),
                    _ => 0,
                };
                ret(vec![n as i64], vec![]);
            }
            "is_unique" => {
                let Some(i) = pick(&self.hs, h, |x| matches!(x.k, K::A(_) | K::S(_))) else { return };
                let o = self.hs[i].o as i64;
                inv("is_unique", vec![o]);
                sched::window(sched::W_LOAD);
                let r = match &self.hs[i].k {
                    K::A(a) => Arc::is_unique(a),
                    K::S(a) => ArcSlice::is_unique(a),
                    _ => false,
                };
                ret(vec![r as i64], vec![]);
            }
            "get_mut" => {
                let Some(i) = pick(&self.hs, h, |x| matches!(x.k, K::A(_) | K::S(_))) else { return };
                let o = self.hs[i].o as i64;
                let v = self.val();
                inv("get_mut", vec![o, v]);
                sched::window(sched::W_LOAD);
                let r = match &mut self.hs[i].k {
                    K::A(a) => Arc::get_mut(a).map(|t| set(t, v)),
                    K::S(a) => a.as_slice_mut().map(|s| {
                        if let Some(t) = s.first_mut() {
                            set(t, v)
                        }
                    }),
                    _ => None,
                };
                ret(vec![r.is_some() as i64], vec![]);
            }
            "make_mut" => {
                let Some(i) = pick(&self.hs, h, |x| matches!(x.k, K::A(_))) else { return };
                let o = self.hs[i].o as i64;
                let v = self.val();
                inv("make_mut", vec![o, v]);
                sched::window(sched::W_LOAD);
                let K::A(a) = &mut self.hs[i].k else { unreachable!() };
                let t = a.make_mut();
                set(t, v);
                let id = t.id() as i64;
                let b = blk(aptr(a));
                self.hs[i].o = b;
                ret(vec![if b as i64 == o { 1 } else { 2 }, b as i64], vec![id]);
            }
            "into_inner" => {
                let Some(i) = pick(&self.hs, h, |x| matches!(x.k, K::A(_))) else { return };
                let H { k: K::A(a), o } = self.hs.remove(i) else { unreachable!() };
                inv("into_inner", vec![o as i64]);
                sched::window(sched::W_LOAD);
                match Arc::try_into_inner(a) {
                    Ok(t) => {
                        let id = t.id();
                        sched::access("wr", id as i64);
                        self.hs.push(H { k: K::T(t), o: id });
                        ret(vec![1, id as i64], vec![]);
                    }
                    Err(a) => {
                        let b = blk(aptr(&a));
                        self.hs.push(H { k: K::A(a), o: b });
                        ret(vec![0, b as i64], vec![]);
                    }
                }
            }
            "tovec" => {
                let Some(i) = pick(&self.hs, h, |x| matches!(x.k, K::S(_))) else { return };
                let H { k: K::S(a), o } = self.hs.remove(i) else { unreachable!() };
                let v = self.val();
                inv("tovec", vec![o as i64, v]);
                sched::window(sched::W_LOAD);
                match SVec::try_from(a) {
                    Ok(mut x) => {
                        let n = x.len() as i64;
                        if let Some(t) = x.first_mut() {
                            set(t, v)
                        }
                        let ids = x.iter().map(|t| t.id() as i64).collect();
                        let s = S::from(x);
                        let b = blk(sptr(&s));
                        self.hs.push(H { k: K::S(s), o: b });
                        ret(vec![1, b as i64, n], ids);
                    }
                    Err(a) => {
                        let b = blk(sptr(&a));
                        self.hs.push(H { k: K::S(a), o: b });
                        ret(vec![0, b as i64], vec![]);
                    }
                }
            }
            "toslice" => {
                let Some(i) = pick(&self.hs, h, |x| matches!(x.k, K::A(_))) else { return };
                let H { k: K::A(a), o } = self.hs.remove(i) else { unreachable!() };
                inv("same", vec![o as i64]);
                let s = S::from(a);
                let b = blk(sptr(&s));
                self.hs.push(H { k: K::S(s), o: b });
                ret(vec![b as i64], vec![]);
            }
            "todyn" => {
                let Some(i) = pick(&self.hs, h, |x| matches!(x.k, K::A(_) | K::W(_))) else { return };
                if sched::me() != 0 || matches!(self.hs[i].k, K::W(_)) {
                    return; // vtable registration has atomics of its own
                }
                let H { k: K::A(a), o } = self.hs.remove(i) else { unreachable!() };
                inv("same", vec![o as i64]);
                let d: DA = a.into();
                self.hs.push(H { k: K::D(d), o });
                ret(vec![o as i64], vec![]);
            }
            "load" => {
                let c = c % self.cells.len();
                inv("load", vec![c as i64 + 1]);
                sched::window(sched::W_CELL);
                let r = self.cells[c].load(self.lord());
                let b = opt(r, self);
                ret(vec![b], vec![]);
            }
            "store" | "storenull" => {
                let c = c % self.cells.len();
                let i = if op == "store" { pick(&self.hs, h, |x| matches!(x.k, K::A(_))) } else { None };
                let (v, o) = match i.map(|i| self.hs.remove(i)) {
                    Some(H { k: K::A(a), o }) => (Some(a), o),
                    _ => (None, 0),
                };
                inv("store", vec![c as i64 + 1, o as i64]);
                self.cells[c].store(v, self.sord());
                ret(vec![], vec![]);
            }
            "cas" | "casnull" | "is" => {
                let c = c % self.cells.len();
                let cur = if op == "casnull" { None } else { pick(&self.hs, g, |x| matches!(x.k, K::A(_))) };
                let co = cur.map_or(0, |i| self.hs[i].o) as i64;
                if op == "is" {
                    inv("is", vec![c as i64 + 1, co]);
                    sched::window(sched::W_CELL);
                    let r = self.cells[c].is(cur.map(|i| if let K::A(a) = &self.hs[i].k { a } else { unreachable!() }), self.lord());
                    let r = match r {
                        Ok(()) => vec![1],
                        Err(x) => vec![0, opt(x, self)],
                    };
                    return ret(r, vec![]);
                }
                let new = pick(&self.hs, h, |x| matches!(x.k, K::A(_))).filter(|i| Some(*i) != cur);
                let new = new.map(|i| {
                    let l = self.hs.len() - 1;
                    self.hs.swap(i, l);
                    (i, self.hs.pop().unwrap())
                });
                let l = self.hs.len();
                let cur = match (&new, cur) {
                    (Some((i, _)), Some(x)) if x == l => Some(*i),
                    (_, x) => x,
                };
                let (v, o) = match new {
                    Some((_, H { k: K::A(a), o })) => (Some(a), o),
                    _ => (None, 0),
                };
                inv("cas", vec![c as i64 + 1, co, o as i64]);
                sched::window(sched::W_CELL);
                let r = self.cells[c].compare_exchange(
                    cur.map(|i| if let K::A(a) = &self.hs[i].k { a } else { unreachable!() }),
                    v,
                    self.rord(),
                    self.lord(),
                );
                let r = match r {
                    Ok(x) => vec![1, opt(x, self)],
                    Err(x) => vec![0, opt(x, self)],
                };
                ret(r, vec![]);
            }
            _ => unreachable!("{op}"),
        }
    }
}
fn set(t: &mut Tok, v: i64) {
    sched::access("wr", t.id() as i64);
    t.val = v;
}
#[derive(Clone, Debug)]
struct Prog {
    /// Objects: 1 for an Arc, n+2 for a slice of n; allocator instance.
    objs: Vec<(usize, u32)>,
    setup: Vec<Op>,
    /// Which cells start with a handle (to object 0) in them.
    cells: Vec<bool>,
    /// How the handles of the set-up are dealt to threads, then thread programs.
    deal: usize,
    threads: Vec<Vec<Op>>,
    ord: usize,
}
fn run(p: &Prog, policy: Policy, hb: bool, drain: bool) -> (sched::Run, Vec<String>) {
    talloc::reset();
    tok::reset();
    let _ = fx::take();
    sched::start(policy, hb);
    let mut cx = Ctx { hs: vec![], cells: &[], nval: 100, ord: p.ord };
    for (n, inst) in &p.objs {
        cx.new_obj(*n, *inst);
    }
    for op in &p.setup {
        cx.exec(*op);
    }
    let mut cells: Vec<Cell> = vec![];
    for (i, full) in p.cells.iter().enumerate() {
        let mut a = None;
        let mut o = 0;
        if *full {
            if let Some(j) = pick(&cx.hs, i, |x| matches!(x.k, K::A(_))) {
                if let K::A(x) = &cx.hs[j].k {
                    o = cx.hs[j].o as i64;
                    inv("clone", vec![o]);
                    let y = x.clone();
                    ret(vec![1, o], vec![]);
                    a = Some(y);
                }
            }
        }
        inv("cellnew", vec![i as i64 + 1, o]);
        cells.push(Cell::new(a));
        ret(vec![], vec![]);
    }
    sched::cells(cells.iter().map(|c| c as *const Cell as usize).collect());
    let hs = std::mem::take(&mut cx.hs);
    let n = p.threads.len();
    let mut dealt: Vec<Vec<H>> = (0..n).map(|_| vec![]).collect();
    for (i, h) in hs.into_iter().enumerate() {
        if n > 0 {
            dealt[(i + p.deal) % n].push(h);
        } else {
            cx.hs.push(h);
        }
    }
    let back: std::sync::Arc<std::sync::Mutex<Vec<(usize, H)>>> = Default::default();
    if n > 0 {
        struct P(*const [Cell]);
        unsafe impl Send for P {}
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for (i, hs) in dealt.into_iter().enumerate() {
            let ops = p.threads[i].clone();
            let cells = P(&cells[..] as *const [Cell]);
            let back = back.clone();
            let ord = p.ord;
            bodies.push(Box::new(move || {
                let cells = cells;
                let mut cx = Ctx { hs, cells: unsafe { &*cells.0 }, nval: 1000 * (i as i64 + 1), ord };
                for op in ops {
                    cx.exec(op);
                }
                if drain {
                    while !cx.hs.is_empty() {
                        cx.drop_at(0);
                    }
                }
                let mut b = back.lock().unwrap();
                for h in std::mem::take(&mut cx.hs) {
                    b.push((i, h));
                }
            }));
        }
        sched::run(bodies);
    } else {
        let cells: &[Cell] = unsafe { &*(&cells[..] as *const [Cell]) };
        cx.cells = cells;
        for op in p.setup.iter().skip(usize::MAX) {
            cx.exec(*op);
        }
    }
    log(obj! {k: "quiet", t: 0});
    let mut l = std::mem::take(&mut *back.lock().unwrap());
    l.sort_by_key(|x| x.0);
    cx.hs.extend(l.into_iter().map(|x| x.1));
    cx.cells = unsafe { &*(&cells[..] as *const [Cell]) };
    // the quiescent counts of everything still held
    for i in 0..cx.hs.len() {
        if matches!(cx.hs[i].k, K::A(_) | K::S(_)) {
            let h = (0..i).filter(|j| matches!(cx.hs[*j].k, K::A(_) | K::S(_))).count();
            cx.exec(Op { op: "counts", h, g: 0, c: 0 });
        }
        if strong(&cx.hs[i]) {
            let h = (0..i).filter(|j| strong(&cx.hs[*j])).count();
            cx.exec(Op { op: "read", h, g: 0, c: 0 });
        }
    }
    while !cx.hs.is_empty() {
        cx.drop_at(0);
        log(obj! {k: "quiet", t: 0});
    }
    for (i, c) in cells.into_iter().enumerate() {
        inv("celldrop", vec![i as i64 + 1]);
        drop(c);
        ret(vec![], vec![]);
    }
    talloc::audit();
    log(obj! {k: "end", t: 0, a: tok::live(), x: talloc::live()});
    let r = sched::stop();
    (r, vec![])
}
fn o(op: &'static str, h: usize) -> Op {
    Op { op, h, g: 0, c: 0 }
}
fn random_op(r: &mut Rng, ops: &[&'static str]) -> Op {
    Op { op: *r.pick(ops), h: r.below(6), g: r.below(6), c: r.below(2) }
}
fn describe(p: &Prog) -> String {
    format!("{p:?}")
}
struct Plan {
    ops: Vec<&'static str>,
    setup: Vec<&'static str>,
    slices: bool,
    dyns: bool,
    cells: usize,
    hb: bool,
}
fn main() {
    let args = vharness::args();
    sched::init();
    // warm-up: registers the vtable outside of any run
    {
        let a: A = Arc::new_in(Tok::new(0), TrackAlloc::new(1));
        let d: DA = a.into();
        drop(d);
    }
    let plan = match args.suite.as_str() {
        "A01" => Plan { ops: vec!["clone", "downgrade", "drop", "drops", "dropw", "upgrade", "read"], setup: vec!["clone", "downgrade", "todyn", "toslice", "drop"], slices: true, dyns: true, cells: 0, hb: false },
        "A02" => Plan { ops: vec!["upgrade", "drops", "dropw", "clone", "downgrade", "counts"], setup: vec!["clone", "downgrade", "todyn", "toslice"], slices: true, dyns: true, cells: 0, hb: false },
        "A03" => Plan { ops: vec!["get_mut", "make_mut", "into_inner", "tovec", "is_unique", "clone", "downgrade", "upgrade", "drop", "drops", "dropw", "read"], setup: vec!["clone", "downgrade", "toslice"], slices: true, dyns: false, cells: 0, hb: false },
        "A04" => Plan { ops: vec!["get_mut", "make_mut", "into_inner", "tovec", "clone", "downgrade", "upgrade", "drop", "drops", "dropw", "read", "load", "store", "cas"], setup: vec!["clone", "downgrade", "toslice", "todyn"], slices: true, dyns: true, cells: 1, hb: true },
        "A05" => Plan { ops: vec!["load", "store", "storenull", "cas", "casnull", "is", "read", "drop", "clone"], setup: vec!["clone", "new"], slices: false, dyns: false, cells: 2, hb: false },
        s => panic!("unknown suite {s}"),
    };
    let mut out = Out::new(&args.out, &args.suite);
    let mut rng = Rng::new(args.seed * 7919 + 17);
    let scale = if args.thorough { 12 } else { 1 };
    let emit = |out: &mut Out, r: &sched::Run, p: &Prog| {
        let meta = J::S(format!("{} schedule={:?}", describe(p), r.choices));
        if plan.hb {
            out.trace_meta(J::O(vec![]), r.hb.clone(), meta)
        } else {
            out.trace_meta(J::O(vec![]), r.log.clone(), meta)
        }
    };
    // 1. long single-threaded histories, all operations, also on empty slices and several objects
    for i in 0..(300 * scale) {
        let mut ops: Vec<&'static str> = plan.ops.clone();
        ops.extend(plan.setup.iter());
        ops.push("new");
        let mut threads = vec![];
        let len = 4 + rng.below(24);
        let objs = (0..1 + rng.below(2)).map(|_| (if plan.slices && rng.chance(1, 2) { 2 + rng.below(4) } else { 1 }, 1 + rng.below(3) as u32)).collect();
        threads.push((0..len).map(|_| random_op(&mut rng, &ops)).filter(|x| !(x.op == "load" && plan.cells == 0)).collect::<Vec<_>>());
        let setup: Vec<Op> = if plan.cells == 0 {
            (0..len).map(|_| random_op(&mut rng, &ops)).collect()
        } else {
            (0..3).map(|_| random_op(&mut rng, &plan.setup)).collect()
        };
        let p = Prog { objs, setup, cells: (0..plan.cells).map(|_| rng.chance(1, 2)).collect(), deal: 0, threads, ord: i };
        out.begin(&describe(&p));
        let (r, _) = run(&p, Policy::Fixed(vec![], 0), plan.hb, false);
        emit(&mut out, &r, &p);
    }
    // 2. every schedule (up to a number of preemptions) of small programs
    let progs = if args.thorough { 1500 } else if args.suite == "A05" { 90 } else { 150 };
    let cap = if args.thorough { 4000 } else { 700 };
    for i in 0..progs {
        let nt = if i % 3 == 2 { 3 } else { 2 };
        let slice = plan.slices && rng.chance(1, 3);
        let mut objs = vec![(if slice { 2 + rng.below(3) } else { 1 }, 1)];
        if plan.cells > 0 {
            objs = vec![(1, 1), (1, 2)];
        }
        let ns = rng.below(4);
        let setup = (0..ns).map(|_| loop {
            let x = random_op(&mut rng, &plan.setup);
            if x.op != "drop" {
                break x;
            }
        });
        let setup: Vec<Op> = setup.collect();
        let threads: Vec<Vec<Op>> = (0..nt).map(|_| (0..1 + rng.below(if nt == 3 { 2 } else { 3 })).map(|_| random_op(&mut rng, &plan.ops)).collect()).collect();
        let p = Prog { objs, setup, cells: (0..plan.cells).map(|_| rng.chance(2, 3)).collect(), deal: rng.below(2), threads, ord: i };
        let mut d = Dfs::new(if nt == 3 { 2 } else { 3 });
        let mut n = 0;
        let drain = rng.chance(1, 2);
        loop {
            out.begin(&describe(&p));
            let (r, _) = run(&p, Policy::Dfs(d.clone()), plan.hb, drain);
            emit(&mut out, &r, &p);
            let Policy::Dfs(mut nd) = r.policy else { unreachable!() };
            n += 1;
            if n >= cap || !nd.advance() {
                break;
            }
            d = nd;
        }
    }
    // 3. random schedules of longer programs
    for i in 0..(1500 * scale) {
        let nt = 2 + rng.below(2);
        let slice = plan.slices && rng.chance(1, 3);
        let mut objs = vec![(if slice { 2 + rng.below(3) } else { 1 }, 1)];
        if plan.cells > 0 {
            objs = vec![(1, 1), (1, 2)];
        }
        let setup = (0..1 + rng.below(4)).map(|_| random_op(&mut rng, &plan.setup)).collect();
        let threads = (0..nt).map(|_| (0..2 + rng.below(3)).map(|_| random_op(&mut rng, &plan.ops)).collect()).collect();
        let p = Prog { objs, setup, cells: (0..plan.cells).map(|_| rng.chance(2, 3)).collect(), deal: rng.below(2), threads, ord: i };
        out.begin(&describe(&p));
        let (r, _) = run(&p, Policy::Random(Rng::new(rng.next()), 1, 3), plan.hb, rng.chance(1, 2));
        emit(&mut out, &r, &p);
    }
    let _ = (plan.dyns, OPS, o("", 0));
    out.finish();
}
