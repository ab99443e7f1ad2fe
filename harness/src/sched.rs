//! Deterministic scheduler: real threads, one running at a time, switching at atomic operations of the code
//! under test (reported by the `stabby_verif` hook) and at operation boundaries.
use crate::fx::{self, Effect};
use crate::{obj, Rng, J};
use stabby_abi::atomics::{self, Kind, Op, Ordering};
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::mpsc::{channel, Sender};
use std::sync::{Condvar, Mutex, OnceLock};

/// Systematic exploration with a bound on preemptions.
#[derive(Default, Clone)]
pub struct Dfs {
    path: Vec<(usize, usize)>,
    pos: usize,
    pub bound: usize,
}
impl Dfs {
    pub fn new(bound: usize) -> Self {
        Dfs { bound, ..Default::default() }
    }
    /// Moves on to the next schedule. False when all were explored.
    pub fn advance(&mut self) -> bool {
        self.pos = 0;
        while let Some((c, n)) = self.path.pop() {
            if c + 1 < n {
                self.path.push((c + 1, n));
                return true;
            }
        }
        false
    }
    fn choose(&mut self, n: usize) -> usize {
        if self.pos == self.path.len() {
            self.path.push((0, n));
        }
        let c = self.path[self.pos].0;
        self.pos += 1;
        c.min(n - 1)
    }
}
#[derive(Clone)]
pub enum Policy {
    Dfs(Dfs),
    /// Switches with probability num/den at each point.
    Random(Rng, usize, usize),
    /// A fixed list of thread choices (one per scheduling point), then no preemption.
    Fixed(Vec<usize>, usize),
}
struct State {
    cur: usize,
    n: usize,
    done: Vec<bool>,
    policy: Policy,
    preemptions: usize,
    steps: usize,
    spin: (usize, usize, usize),
    log: Vec<J>,
    hb: Option<Vec<J>>,
    addrs: HashMap<usize, i64>,
    choices: Vec<usize>,
}
static ST: Mutex<Option<State>> = Mutex::new(None);
static CV: [Condvar; 8] = [const { Condvar::new() }; 8];
const MAIN: usize = 7;
thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static NOPREEMPT: Cell<u8> = const { Cell::new(0) };
    static WINDOW: Cell<u8> = const { Cell::new(0) };
}
/// See [`window`].
pub const W_NONE: u8 = 0;
/// Between a plain load of a counter and the thread's next atomic operation, do not preempt.
pub const W_LOAD: u8 = 1;
/// Between a load or failed compare-exchange of a *pointer* cell and the increment that follows it, do not preempt.
pub const W_CELL: u8 = 2;
static CELLS: Mutex<Vec<usize>> = Mutex::new(Vec::new());
/// Declares the address ranges of pointer cells (for [`W_CELL`]).
pub fn cells(l: Vec<usize>) {
    *CELLS.lock().unwrap() = l;
}
/// Sets the calling thread's non-preemption rule (recorded known findings are excluded from exploration this way).
pub fn window(w: u8) {
    WINDOW.with(|x| x.set(w));
    NOPREEMPT.with(|x| x.set(0));
}
/// The 1-based number of the calling thread (0: not a scheduled thread).
pub fn me() -> usize {
    let m = ME.with(|m| m.get());
    if m == usize::MAX {
        0
    } else {
        m + 1
    }
}
pub fn ord_name(o: Ordering) -> &'static str {
    match o {
        Ordering::Relaxed => "rlx",
        Ordering::Release => "rel",
        Ordering::Acquire => "acq",
        Ordering::AcqRel => "ar",
        _ => "sc",
    }
}
fn hook(op: &Op) {
    crate::galloc::untracked(|| hook_(op))
}
fn hook_(op: &Op) {
    let me = ME.with(|m| m.get());
    if op.done {
        let mut g = ST.lock().unwrap();
        if let Some(st) = g.as_mut() {
            if me != usize::MAX {
                let key = (op.addr, op.kind as usize, op.old);
                if op.kind == Kind::Load && st.spin.0 == op.addr && st.spin.1 == op.old {
                    st.spin.2 += 1;
                } else {
                    st.spin = (key.0, key.2, 0);
                }
                if op.kind != Kind::Load {
                    st.spin.2 = 0;
                }
                match WINDOW.with(|w| w.get()) {
                    W_LOAD => NOPREEMPT.with(|n| n.set((op.kind == Kind::Load) as u8)),
                    W_CELL if matches!(op.kind, Kind::Load | Kind::CasFail) && op.old != 0 && CELLS.lock().unwrap().contains(&op.addr) => NOPREEMPT.with(|n| n.set(2)),
                    W_CELL if NOPREEMPT.with(|n| n.get()) == 2 => NOPREEMPT.with(|n| n.set(if op.kind == Kind::Rmw && op.new > op.old { 0 } else { 2 })),
                    _ => NOPREEMPT.with(|n| n.set(0)),
                }
            }
            if st.hb.is_some() {
                let k = match op.kind {
                    Kind::Load => "load",
                    Kind::Store => "store",
                    Kind::Rmw => "rmw",
                    Kind::CasFail => "casfail",
                    Kind::Fence => "fence",
                };
                let next = st.addrs.len() as i64 + 1;
                let a = *st.addrs.entry(op.addr).or_insert(next);
                let t = if me == usize::MAX { 0 } else { me + 1 };
                let b = crate::talloc::block_at(op.addr).map_or(0, |b| b.0);
                st.hb.as_mut().unwrap().push(obj! {t: t, k: k, a: a, o: ord_name(op.order), b: b});
            }
        }
        drop(g);
        if matches!(op.kind, Kind::Rmw | Kind::Store) && AFTER.load(std::sync::atomic::Ordering::Relaxed) {
            point_before(false);
        }
        return;
    }
    // back at the cell: what was read from it before wasn't about to be incremented
    if NOPREEMPT.with(|n| n.get()) == 2 && CELLS.lock().unwrap().contains(&op.addr) {
        NOPREEMPT.with(|n| n.set(0));
    }
    if let Some((b, true)) = crate::talloc::block_at(op.addr) {
        if OBSERVING.load(std::sync::atomic::Ordering::Relaxed) {
            fx::bad(format!("atomic access to freed block {b}"));
        }
    }
    point_before(op.kind == Kind::Load);
}
static AFTER: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Whether threads may also be preempted right after what they publish (what they do next may not be atomic).
pub fn after(on: bool) {
    AFTER.store(on, std::sync::atomic::Ordering::Relaxed);
}
static OBSERVING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// A scheduling point.
pub fn point() {
    NOPREEMPT.with(|n| n.set(0));
    point_before(false)
}
fn point_before(load: bool) {
    crate::galloc::untracked(|| point_before_(load))
}
fn point_before_(load: bool) {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    let mut g = ST.lock().unwrap();
    let Some(st) = g.as_mut() else { return };
    st.steps += 1;
    if st.steps > 20_000 {
        // (the code under test waits for ever)
        eprintln!("STUCK");
        std::process::exit(4);
    }
    match NOPREEMPT.with(|n| n.get()) {
        1 => {
            NOPREEMPT.with(|n| n.set(0));
            if load {
                return;
            }
        }
        2 => return,
        _ => {}
    }
    let others: Vec<usize> = (0..st.n).filter(|t| *t != me && !st.done[*t]).collect();
    if others.is_empty() {
        return;
    }
    let next = if st.spin.2 >= 2 {
        st.spin.2 = 0;
        // a spinning thread makes way
        others.iter().copied().find(|t| *t > me).unwrap_or(others[0])
    } else {
        match &mut st.policy {
            Policy::Dfs(d) => {
                if st.preemptions < d.bound {
                    let c = d.choose(1 + others.len());
                    if c == 0 {
                        me
                    } else {
                        st.preemptions += 1;
                        others[c - 1]
                    }
                } else {
                    me
                }
            }
            Policy::Random(r, num, den) => {
                if r.chance(*num, *den) {
                    *r.pick(&others)
                } else {
                    me
                }
            }
            Policy::Fixed(l, pos) => {
                let c = l.get(*pos).copied().unwrap_or(me);
                *pos += 1;
                if c == me || others.contains(&c) {
                    c
                } else {
                    me
                }
            }
        }
    };
    st.choices.push(next);
    if next != me {
        st.cur = next;
        CV[next].notify_one();
        while g.as_ref().map_or(false, |s| s.cur != me) {
            g = CV[me].wait(g).unwrap();
        }
    }
}
/// Appends to the log of the run.
pub fn log(e: J) {
    if let Some(st) = ST.lock().unwrap().as_mut() {
        st.log.push(e)
    }
}
/// Appends a memory access to the happens-before log: `k` is `rd`, `wr` or another non-atomic kind; `a` the location.
pub fn access(k: &'static str, loc: i64) {
    let t = me();
    if let Some(st) = ST.lock().unwrap().as_mut() {
        if let Some(hb) = st.hb.as_mut() {
            hb.push(obj! {t: t, k: k, a: loc, o: "na", b: 0});
        }
    }
}
fn on_effect(e: Effect) {
    crate::galloc::untracked(|| on_effect_(e))
}
fn on_effect_(e: Effect) {
    let t = me();
    match e {
        Effect::Destroy(i) => {
            log(obj! {k: "destroy", t: t, a: vec![i]});
            access("wr", i as i64);
        }
        Effect::Clone(a, b) => {
            access("rd", a as i64);
            log(obj! {k: "cloned", t: t, a: vec![a, b]});
            access("wr", b as i64);
        }
        Effect::Alloc(b, _, _, inst) => {
            log(obj! {k: "alloc", t: t, a: vec![b, inst]});
            access("wr", 100_000 + b as i64);
        }
        Effect::Free(b) => {
            log(obj! {k: "free", t: t, a: vec![b]});
            access("wr", 100_000 + b as i64);
        }
        Effect::Bad(s) => {
            access("bad", 0);
            log(obj! {k: "bad", t: t, a: Vec::<i64>::new(), s: s})
        }
    }
}
type Body = Box<dyn FnOnce() + Send>;
static POOL: OnceLock<Mutex<Vec<Sender<(usize, Body)>>>> = OnceLock::new();
fn pool() -> &'static Mutex<Vec<Sender<(usize, Body)>>> {
    POOL.get_or_init(|| {
        atomics::set_hook(hook);
        Mutex::new(
            (0..6)
                .map(|_| {
                    let (s, r) = channel::<(usize, Body)>();
                    std::thread::spawn(move || {
                        while let Ok((idx, body)) = r.recv() {
                            {
                                let mut g = ST.lock().unwrap();
                                while g.as_ref().map_or(true, |s| s.cur != idx) {
                                    g = CV[idx].wait(g).unwrap();
                                }
                            }
                            ME.with(|m| m.set(idx));
                            window(W_NONE);
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
                            if r.is_err() {
                                fx::bad("panic in a scheduled operation");
                            }
                            let mut g = ST.lock().unwrap();
                            ME.with(|m| m.set(usize::MAX));
                            let st = g.as_mut().unwrap();
                            st.done[idx] = true;
                            let rest: Vec<usize> = (0..st.n).filter(|t| !st.done[*t]).collect();
                            st.cur = if rest.is_empty() {
                                MAIN
                            } else {
                                let c = match &mut st.policy {
                                    Policy::Dfs(d) if rest.len() > 1 => d.choose(rest.len()),
                                    Policy::Random(r, ..) => r.below(rest.len()),
                                    Policy::Fixed(l, pos) => {
                                        let c = l.get(*pos).copied().unwrap_or(rest[0]);
                                        *pos += 1;
                                        rest.iter().position(|x| *x == c).unwrap_or(0)
                                    }
                                    _ => 0,
                                };
                                rest[c]
                            };
                            st.choices.push(st.cur);
                            CV[st.cur].notify_one();
                        }
                    });
                    s
                })
                .collect(),
        )
    })
}
pub struct Run {
    pub log: Vec<J>,
    pub hb: Vec<J>,
    pub choices: Vec<usize>,
    pub policy: Policy,
}
pub fn init() {
    pool();
}
/// Starts recording in the calling (unscheduled) thread: set-up events are part of the run.
pub fn start(mut policy: Policy, hb: bool) {
    pool();
    after(if let Policy::Random(r, ..) = &mut policy { r.chance(1, 2) } else { false });
    fx::observe(Some(on_effect));
    OBSERVING.store(true, std::sync::atomic::Ordering::Relaxed);
    *ST.lock().unwrap() = Some(State {
        cur: MAIN,
        n: 0,
        done: vec![],
        policy,
        preemptions: 0,
        steps: 0,
        spin: (0, 0, 0),
        log: vec![],
        hb: hb.then(Vec::new),
        addrs: HashMap::new(),
        choices: vec![],
    });
}
/// Runs the bodies to completion under the policy.
pub fn run(bodies: Vec<Body>) {
    let n = bodies.len();
    access("fork", 0);
    {
        let p = pool().lock().unwrap();
        for (i, b) in bodies.into_iter().enumerate() {
            p[i].send((i, b)).unwrap();
        }
    }
    let mut g = ST.lock().unwrap();
    {
        let st = g.as_mut().unwrap();
        st.n = n;
        st.done = vec![false; n];
        let c = match &mut st.policy {
            Policy::Dfs(d) if n > 1 => d.choose(n),
            Policy::Random(r, ..) => r.below(n),
            Policy::Fixed(l, pos) => {
                let c = l.get(*pos).copied().unwrap_or(0).min(n - 1);
                *pos += 1;
                c
            }
            _ => 0,
        };
        st.cur = c;
        st.choices.push(c);
        CV[c].notify_one();
    }
    while g.as_ref().unwrap().cur != MAIN {
        g = CV[MAIN].wait(g).unwrap();
    }
    drop(g);
    access("join", 0);
}
/// Ends the recording.
pub fn stop() -> Run {
    fx::observe(None);
    OBSERVING.store(false, std::sync::atomic::Ordering::Relaxed);
    let st = ST.lock().unwrap().take().unwrap();
    Run { log: st.log, hb: st.hb.unwrap_or_default(), choices: st.choices, policy: st.policy }
}
