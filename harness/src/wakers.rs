//! Wakers across the boundary.
use stabby::future::{DynFuture, DynFutureUnsend, StableWaker};
use stabby_abi::alloc::boxed::Box as SBox;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use vharness::galloc::{self, tracking, untracked};
use vharness::sched::{self, log, Dfs, Policy};
use vharness::talloc::TrackAlloc;
use vharness::{fx, obj, Out, Rng, J};
struct Task(AtomicU64);
impl Wake for Task {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
type Body<'a> = &'a mut (dyn FnMut(&Waker) + Send);
/// A future whose one poll does what it's told to.
struct Scripted<'a>(Body<'a>);
// SAFETY: only used by one thread at a time
unsafe impl Sync for Scripted<'_> {}
impl Future for Scripted<'_> {
    type Output = u8;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u8> {
        (self.0)(cx.waker());
        Poll::Pending
    }
}
/// What lies between the executor and the future.
#[derive(Clone, Copy, Debug)]
enum Through {
    Box,
    Unsend,
    Borrowed,
    Twice,
    Tracked,
    Bare,
}
fn poll<'b>(how: Through, w: &Waker, body: Body<'b>) {
    let mut cx = Context::from_waker(w);
    match how {
        Through::Box => {
            let mut f: DynFuture<'_, u8> = SBox::new(Scripted(body)).into();
            let _ = Pin::new(&mut f).poll(&mut cx);
        }
        Through::Unsend => {
            let mut f: DynFutureUnsend<'_, u8> = SBox::new(Scripted(body)).into();
            let _ = Pin::new(&mut f).poll(&mut cx);
        }
        Through::Borrowed => {
            let mut s = Scripted(body);
            fn lend<'a, 'b: 'a>(s: &'a mut Scripted<'b>) -> stabby::dynptr!(&'a mut dyn Future<Output = u8>) {
                s.into()
            }
            let mut f = lend(&mut s);
            let _ = Pin::new(&mut f).poll(&mut cx);
        }
        Through::Twice => {
            let f: DynFutureUnsend<'_, u8> = SBox::new(Scripted(body)).into();
            let mut f: DynFutureUnsend<'_, u8> = SBox::new(f).into();
            let _ = Pin::new(&mut f).poll(&mut cx);
        }
        Through::Tracked => StableWaker::<TrackAlloc>::from(w).with_waker(|w| body(w)),
        Through::Bare => StableWaker::<stabby_abi::alloc::DefaultAllocator>::from(w).with_waker(|w| body(w)),
    }
}
const HOW: [Through; 6] = [Through::Box, Through::Unsend, Through::Borrowed, Through::Twice, Through::Tracked, Through::Bare];
struct World {
    tasks: [Arc<Task>; 2],
    orig: [Option<Waker>; 2],
    slots: BTreeMap<i64, Waker>,
    next: i64,
    ev: Vec<J>,
}
impl World {
    fn see(&mut self, mut e: Vec<(&'static str, J)>, polling: bool) {
        let bad = galloc::BAD.swap(0, Ordering::SeqCst) + fx::take().bad.len();
        e.push(("w", J::from(self.tasks.iter().map(|t| t.0.load(Ordering::SeqCst) as i64).collect::<Vec<_>>())));
        let _ = polling;
        e.push(("alive", J::from(self.tasks.iter().map(|t| (Arc::strong_count(t) > 1) as i64).collect::<Vec<_>>())));
        e.push(("bad", bad.into()));
        self.ev.push(J::O(e));
    }
    /// One operation on the handles at hand, or on the waker given to the future being polled.
    fn op(&mut self, rng: &mut Rng, cur: Option<&Waker>) {
        let held: Vec<i64> = self.slots.keys().copied().collect();
        let any = |rng: &mut Rng| -> Option<i64> {
            match cur {
                Some(_) if held.is_empty() || rng.chance(1, 3) => Some(-1),
                None if held.is_empty() => None,
                _ => Some(*rng.pick(&held)),
            }
        };
        macro_rules! get {
            ($h: expr) => {
                if $h < 0 { cur.unwrap() } else { &self.slots[&$h] }
            };
        }
        match rng.below(12) {
            0..=3 if held.len() < 5 => {
                let Some(h) = any(rng) else { return };
                let w = get!(h).clone();
                let to = self.next;
                self.next += 1;
                // (cloned over another handle, sometimes)
                self.slots.insert(to, w);
                self.see(vec![("k", "clone".into()), ("h", h.into()), ("to", to.into())], cur.is_some());
            }
            4 | 5 => {
                let Some(h) = any(rng) else { return };
                get!(h).wake_by_ref();
                self.see(vec![("k", "wakeref".into()), ("h", h.into())], cur.is_some());
            }
            6 | 7 if !held.is_empty() => {
                let h = *rng.pick(&held);
                self.slots.remove(&h).unwrap().wake();
                self.see(vec![("k", "wake".into()), ("h", h.into())], cur.is_some());
            }
            8 if !held.is_empty() => {
                let h = *rng.pick(&held);
                drop(self.slots.remove(&h));
                self.see(vec![("k", "drop".into()), ("h", h.into())], cur.is_some());
            }
            9 | 10 => {
                let (Some(a), Some(b)) = (any(rng), any(rng)) else { return };
                let r = get!(a).will_wake(get!(b));
                self.see(vec![("k", "same".into()), ("a", a.into()), ("b", b.into()), ("r", r.into())], cur.is_some());
            }
            11 if held.len() > 1 => {
                // a handle assigned from another
                let (a, b) = (*rng.pick(&held), *rng.pick(&held));
                if a != b {
                    let mut w = self.slots.remove(&a).unwrap();
                    w.clone_from(&self.slots[&b]);
                    let to = self.next;
                    self.next += 1;
                    self.slots.insert(to, w);
                    self.ev.push(obj! {k: "drop", h: a});
                    self.see(vec![("k", "clone".into()), ("h", b.into()), ("to", to.into())], cur.is_some());
                }
            }
            _ => {}
        }
    }
}
fn e(k: &'static str, t: usize) -> Vec<(&'static str, J)> {
    vec![("k", k.into()), ("t", t.into())]
}
pub fn run(out: &mut Out, rng: &mut Rng, thorough: bool) {
    galloc::quarantine(true);
    for n in 0..if thorough { 6000 } else { 700 } {
        out.begin(&format!("wakers {n}"));
        let live = galloc::CLIVE.load(Ordering::SeqCst);
        let mut w = World { tasks: [Arc::new(Task(AtomicU64::new(0))), Arc::new(Task(AtomicU64::new(0)))], orig: [None, None], slots: BTreeMap::new(), next: 0, ev: Vec::new() };
        for _ in 0..8 {
            let t = rng.below(2);
            match rng.below(4) {
                0 if w.orig[t].is_some() => {
                    w.orig[t] = None;
                    w.see(e("unorig", t), false);
                }
                1 => (0..rng.below(3)).for_each(|_| tracking(|| w.op(rng, None))),
                _ => {
                    if w.orig[t].is_none() {
                        w.orig[t] = Some(w.tasks[t].clone().into());
                        w.see(e("orig", t), false);
                    }
                    let how = *rng.pick(&HOW);
                    let waker = w.orig[t].take().unwrap();
                    let (wr, rr) = (&mut w as *mut World as usize, rng as *mut Rng as usize);
                    w.see(e("poll", t), true);
                    tracking(|| {
                        poll(how, &waker, &mut |cur: &Waker| {
                            // SAFETY: nothing else uses these while the future is polled
                            let (w, rng) = unsafe { (&mut *(wr as *mut World), &mut *(rr as *mut Rng)) };
                            for _ in 0..1 + rng.below(4) {
                                w.op(rng, Some(cur));
                            }
                        })
                    });
                    w.orig[t] = Some(waker);
                    w.see(vec![("k", "polled".into())], false);
                }
            }
        }
        for t in 0..2 {
            if w.orig[t].take().is_some() {
                w.see(e("unorig", t), false);
            }
        }
        for h in w.slots.keys().copied().collect::<Vec<_>>() {
            let waker = w.slots.remove(&h);
            tracking(|| drop(waker));
            w.see(vec![("k", "drop".into()), ("h", h.into())], false);
        }
        let ev = std::mem::take(&mut w.ev);
        drop(w);
        let mut ev = ev;
        // nothing allocated for handles is left
        let left = vharness::talloc::live().len() + (galloc::CLIVE.load(Ordering::SeqCst) - live).unsigned_abs() as usize;
        vharness::talloc::reset();
        ev.push(obj! {k: "rest", bad: left});
        out.trace_meta(J::L(vec![]), ev, J::L(vec![]));
    }
}
fn go(p: &[Vec<usize>], how: Through, policy: Policy) -> sched::Run {
    let task = Arc::new(Task(AtomicU64::new(0)));
    let other = Arc::new(Task(AtomicU64::new(0)));
    let orig: Waker = task.clone().into();
    let live = galloc::CLIVE.load(Ordering::SeqCst);
    sched::start(policy, false);
    log(obj! {k: "orig", t: 0});
    let mut given: Vec<Waker> = Vec::new();
    log(obj! {k: "poll", t: 0});
    tracking(|| {
        poll(how, &orig, &mut |cur: &Waker| {
            // all threads' handles share one block
            let mut l = vec![cur.clone()];
            for _ in 1..p.len() {
                l.push(l[0].clone());
            }
            given = l;
        })
    });
    for (i, _) in p.iter().enumerate() {
        log(if i == 0 { obj! {k: "clone", h: -1, to: i} } else { obj! {k: "clone", h: 0, to: i} });
    }
    log(obj! {k: "polled"});
    drop(orig);
    log(obj! {k: "unorig", t: 0});
    let bodies = p
        .iter()
        .cloned()
        .zip(given)
        .enumerate()
        .map(|(i, (ops, w))| {
            Box::new(move || {
                tracking(|| {
                    let mut mine = vec![(i as i64, w)];
                    let mut next = 10 + 10 * i as i64;
                    for op in ops {
                        sched::point();
                        match op {
                            0 => {
                                if let Some((h, w)) = mine.last() {
                                    let (h, w) = (*h, w.clone());
                                    untracked(|| log(obj! {k: "clone", h: h, to: next}));
                                    mine.push((next, w));
                                    next += 1;
                                }
                            }
                            1 => {
                                if let Some((h, w)) = mine.last() {
                                    w.wake_by_ref();
                                    let h = *h;
                                    untracked(|| log(obj! {k: "wakeref", h: h}));
                                }
                            }
                            2 => {
                                if let Some((h, w)) = mine.pop() {
                                    w.wake();
                                    untracked(|| log(obj! {k: "wake", h: h}));
                                }
                            }
                            _ => {
                                if let Some((h, w)) = mine.pop() {
                                    drop(w);
                                    untracked(|| log(obj! {k: "drop", h: h}));
                                }
                            }
                        }
                    }
                    for (h, w) in mine.into_iter().rev() {
                        drop(w);
                        untracked(|| log(obj! {k: "drop", h: h}));
                    }
                })
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    sched::run(bodies);
    let bad = galloc::BAD.swap(0, Ordering::SeqCst) + fx::take().bad.len() + vharness::talloc::live().len() + (galloc::CLIVE.load(Ordering::SeqCst) - live).unsigned_abs() as usize;
    let l = |f: &dyn Fn(&Arc<Task>) -> i64| J::from(vec![f(&task), f(&other)]);
    log(obj! {k: "rest", w: l(&|t| t.0.load(Ordering::SeqCst) as i64), alive: l(&|t| (Arc::strong_count(t) > 1) as i64), bad: bad});
    vharness::talloc::reset();
    sched::stop()
}
pub fn concurrent(out: &mut Out, rng: &mut Rng, thorough: bool) {
    sched::init();
    galloc::quarantine(true);
    for n in 0..if thorough { 120 } else { 24 } {
        let p: Vec<Vec<usize>> = (0..2 + n % 2).map(|_| (0..1 + rng.below(2)).map(|_| rng.below(4)).collect()).collect();
        let how = HOW[n % 6];
        let mut d = Dfs::new(2);
        let mut count = 0;
        loop {
            out.begin(&format!("{p:?} {how:?} schedule {count}"));
            let r = go(&p, how, Policy::Dfs(d));
            out.trace_meta(J::L(vec![]), r.log, J::from(format!("{p:?} {how:?} {:?}", r.choices)));
            d = match r.policy {
                Policy::Dfs(d) => d,
                _ => unreachable!(),
            };
            count += 1;
            if count > 300 || !d.advance() {
                break;
            }
        }
    }
}
