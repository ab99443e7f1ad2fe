//! Closures and iterators across the boundary.
use crate::futures::{Val, OT};
use core::num::NonZeroU16;
use stabby::dynptr;
use stabby_abi::alloc::{boxed::Box as SBox, sync::Arc as SArc};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Mutex;
use vharness::{fx, galloc, obj, tok, Out, Rng, Tok, J};
pub use crate::futures::Pair;
static UNDER: Mutex<Vec<J>> = Mutex::new(Vec::new());
fn pair((x, t): (i64, i64)) -> J {
    vec![x, t].into()
}
impl Val for u64 {
    fn mk(x: i64) -> u64 {
        x as u64 * 3
    }
    fn see(&self) -> (i64, i64) {
        (*self as i64, 0)
    }
}
/// What a closure captures.
pub struct Cap {
    tok: Tok,
    n: AtomicI64,
}
impl Cap {
    pub fn new() -> Cap {
        Cap { tok: Tok::new(500), n: AtomicI64::new(0) }
    }
    pub fn own(&self) -> i64 {
        self.tok.id() as i64
    }
    pub fn next(&self) -> i64 {
        self.n.fetch_add(1, Ordering::SeqCst) + 1
    }
    pub fn next_mut(&mut self) -> i64 {
        *self.n.get_mut() += 1;
        *self.n.get_mut()
    }
    pub fn log(&self, n: i64, args: Vec<(i64, i64)>, r: (i64, i64)) {
        galloc::untracked(|| UNDER.lock().unwrap().push(obj! {own: self.own(), n: n, args: J::L(args.into_iter().map(pair).collect()), r: pair(r)}));
    }
}
pub type Kept = Option<(i64, Box<dyn std::any::Any>)>;
pub type Called = (J, J, Kept);
pub type After = Option<Box<dyn FnOnce()>>;
pub fn kept<V: Val>(v: V) -> (J, Kept) {
    let (x, t) = v.see();
    if t == 0 {
        drop(v);
        (galloc::untracked(|| pair((x, t))), None)
    } else {
        galloc::untracked(|| (pair((x, t)), Some((t, Box::new(v) as Box<dyn std::any::Any>))))
    }
}
pub fn called<V: Val>(args: J, r: V) -> Called {
    let (j, k) = kept(r);
    (args, j, k)
}
pub trait Callee {
    fn call(&mut self, x: i64, via: bool) -> Called;
    fn once(self: Box<Self>, _: i64) -> Called {
        unreachable!()
    }
    fn dup(&self) -> Option<Box<dyn Callee>> {
        None
    }
}
trait Items {
    fn next(&mut self) -> (J, Kept);
    fn nth(&mut self, n: usize) -> (J, Kept);
    fn rest(&mut self) -> Vec<(J, Kept)>;
    fn hint(&self) -> (usize, Option<usize>);
}
pub enum Thing {
    Callee(Box<dyn Callee>),
    Items(Box<dyn Items>),
}
pub struct Kind {
    name: &'static str,
    kind: &'static str,
    lent: i64,
    #[allow(clippy::type_complexity)]
    make: fn(&mut Rng) -> (i64, Vec<J>, Thing, After),
}
fn none() -> (J, Kept) {
    (J::L(vec![]), None)
}
// ---- iterators ------------------------------------------------------------------------
/// Gives its items, and records being asked.
struct Source<V> {
    items: std::collections::VecDeque<V>,
    hint: usize,
    tok: Tok,
}
impl<V: Val> Source<V> {
    fn make(rng: &mut Rng) -> (i64, Vec<J>, Self) {
        let items: std::collections::VecDeque<V> = (0..rng.below(5)).map(|i| V::mk(i as i64 + 1)).collect();
        let tok = Tok::new(600);
        (tok.id() as i64, galloc::untracked(|| items.iter().map(|v| pair(v.see())).collect()), Source { items, hint: rng.below(4), tok })
    }
}
impl<V: Val> Iterator for Source<V> {
    type Item = V;
    fn next(&mut self) -> Option<V> {
        self.tok.id();
        let v = self.items.pop_front();
        galloc::untracked(|| UNDER.lock().unwrap().push(v.as_ref().map_or(J::L(vec![]), |v| pair(v.see()))));
        v
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        let h = match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, Some(n * 2 + 1)),
            _ => (n, None),
        };
        galloc::untracked(|| UNDER.lock().unwrap().push(hint(h)));
        h
    }
}
fn hint((a, b): (usize, Option<usize>)) -> J {
    vec![a as i64, b.map_or(-1, |b| b as i64)].into()
}
macro_rules! items {
    ($n: ident, $t: ty) => {
        struct $n<V: Val + stabby_abi::IDeterminantProvider<()>>($t);
        impl<V: Val + stabby_abi::IDeterminantProvider<()>> Items for $n<V> {
            fn next(&mut self) -> (J, Kept) {
                Iterator::next(&mut self.0).map_or_else(none, kept)
            }
            fn nth(&mut self, n: usize) -> (J, Kept) {
                Iterator::nth(&mut self.0, n).map_or_else(none, kept)
            }
            fn rest(&mut self) -> Vec<(J, Kept)> {
                let mut l = Vec::new();
                for v in &mut self.0 {
                    let k = kept(v);
                    galloc::untracked(|| l.push(k));
                }
                l
            }
            fn hint(&self) -> (usize, Option<usize>) {
                self.0.size_hint()
            }
        }
    };
}
items!(BoxItems, dynptr!(SBox<dyn Iterator<Item = V> + 'static>));
items!(MutItems, dynptr!(&'static mut dyn Iterator<Item = V>));
fn box_items<V: Val + stabby_abi::IDeterminantProvider<()>>(rng: &mut Rng) -> (i64, Vec<J>, Thing, After) {
    let (own, l, s) = Source::<V>::make(rng);
    (own, l, Thing::Items(Box::new(BoxItems::<V>(SBox::new(s).into()))), None)
}
fn lent_items<V: Val + stabby_abi::IDeterminantProvider<()>>(rng: &mut Rng) -> (i64, Vec<J>, Thing, After) {
    let (own, l, s) = Source::<V>::make(rng);
    let p = Box::into_raw(Box::new(s));
    // SAFETY: freed after the object is dropped
    (own, l, Thing::Items(Box::new(MutItems::<V>(unsafe { &mut *p }.into()))), Some(Box::new(move || unsafe { drop(Box::from_raw(p)) })))
}
#[path = "calls_gen.rs"]
mod calls_gen;
fn kinds() -> Vec<Kind> {
    let mut l = calls_gen::kinds();
    macro_rules! iters {
        ($($v: ty),*) => { $(
            l.push(Kind { name: concat!("items ", stringify!($v)), kind: "iter", lent: 0, make: box_items::<$v> });
            l.push(Kind { name: concat!("lent items ", stringify!($v)), kind: "iter", lent: 1, make: lent_items::<$v> });
        )* };
    }
    iters!(u8, bool, NonZeroU16, (), Tok, SBox<Tok>, &'static u64, OT, Pair);
    l
}
struct Run {
    ev: Vec<J>,
    held: Vec<(i64, Box<dyn std::any::Any>)>,
}
impl Run {
    fn see(&mut self, mut e: Vec<(&'static str, J)>) {
        let f = fx::take();
        e.push(("d", f.dj()));
        e.push(("bad", (f.bad.len() + galloc::BAD.swap(0, Ordering::SeqCst)).into()));
        self.ev.push(J::O(e));
    }
}
fn under() -> J {
    J::L(std::mem::take(&mut *UNDER.lock().unwrap()))
}
fn e(k: &'static str, o: i64) -> Vec<(&'static str, J)> {
    vec![("k", k.into()), ("o", o.into())]
}
pub fn run(out: &mut Out, rng: &mut Rng, thorough: bool) {
    let kinds = kinds();
    galloc::quarantine(true);
    // vtables are made once and for all
    for k in &kinds {
        out.begin(k.name);
        let (_, _, t, after) = (k.make)(rng);
        drop(t);
        after.into_iter().for_each(|f| f());
    }
    let reps = if thorough { 60 } else { 6 };
    for n in 0..kinds.len() * reps + if thorough { 6000 } else { 500 } {
        tok::reset();
        fx::take();
        under();
        let live = galloc::LIVE.load(Ordering::SeqCst);
        let one = n < kinds.len() * reps;
        let mut run = Run { ev: Vec::new(), held: Vec::new() };
        let mut objs: Vec<(i64, Thing, &'static str)> = Vec::new();
        let mut afters: Vec<After> = Vec::new();
        let mut names = Vec::new();
        let mut next = 1;
        for i in 0..if one { 8 } else { 16 } {
            match if i == 0 { 0 } else if one { 3 + rng.below(7) } else { rng.below(10) } {
                0 if objs.len() < 3 => {
                    let k = if one { &kinds[n / reps] } else { rng.pick(&kinds) };
                    names.push(k.name);
                    out.begin(&format!("{names:?}"));
                    let (own, items, t, after) = galloc::tracking(|| (k.make)(rng));
                    run.see([e("make", next), vec![("kind", k.kind.into()), ("own", own.into()), ("lent", k.lent.into()), ("items", J::L(items))]].concat());
                    objs.push((next, t, k.kind));
                    afters.push(after);
                    next += 1;
                }
                1 if !objs.is_empty() => {
                    let (no, t, _) = objs.swap_remove(rng.below(objs.len()));
                    galloc::tracking(|| drop(t));
                    run.see(e("drop", no));
                }
                2 if !run.held.is_empty() => {
                    let (t, v) = run.held.remove(rng.below(run.held.len()));
                    galloc::tracking(|| drop(v));
                    run.see(vec![("k", "use".into()), ("t", t.into())]);
                }
                op if op >= 3 && !objs.is_empty() => {
                    let i = rng.below(objs.len());
                    let x = rng.below(40) as i64;
                    let kind = objs[i].2;
                    let no = objs[i].0;
                    if kind == "once" {
                        let (_, Thing::Callee(c), _) = objs.swap_remove(i) else { unreachable!() };
                        let (a, r, k) = galloc::tracking(|| c.once(x));
                        run.held.extend(k);
                        run.see([e("call", no), vec![("args", a), ("u", under()), ("r", r)]].concat());
                        continue;
                    }
                    let mut dup = None;
                    match &mut objs[i].1 {
                        Thing::Callee(c) => {
                            if op == 3 {
                                dup = galloc::tracking(|| c.dup());
                                if dup.is_some() {
                                    run.see([e("clone", no), vec![("to", next.into())]].concat());
                                }
                            } else {
                                let (a, r, k) = galloc::tracking(|| c.call(x, op % 2 == 0));
                                run.held.extend(k);
                                run.see([e("call", no), vec![("args", a), ("u", under()), ("r", r)]].concat());
                            }
                        }
                        Thing::Items(it) => match op {
                            3 => {
                                let l = galloc::tracking(|| it.rest());
                                under();
                                let (r, k): (Vec<J>, Vec<Kept>) = l.into_iter().unzip();
                                run.held.extend(k.into_iter().flatten());
                                run.see([e("rest", no), vec![("r", J::L(r))]].concat());
                            }
                            4 => {
                                let n = rng.below(3);
                                let (r, k) = galloc::tracking(|| it.nth(n));
                                run.held.extend(k);
                                run.see([e("nth", no), vec![("n", n.into()), ("u", under()), ("r", r)]].concat());
                            }
                            5 | 6 => {
                                let h = it.hint();
                                run.see([e("hint", no), vec![("r", hint(h)), ("u", under())]].concat());
                            }
                            _ => {
                                let (r, k) = galloc::tracking(|| it.next());
                                run.held.extend(k);
                                run.see([e("next", no), vec![("u", under()), ("r", r)]].concat());
                            }
                        },
                    }
                    if let Some(c) = dup {
                        objs.push((next, Thing::Callee(c), kind));
                        next += 1;
                    }
                }
                _ => {}
            }
        }
        for (t, v) in std::mem::take(&mut run.held) {
            galloc::tracking(|| drop(v));
            run.see(vec![("k", "use".into()), ("t", t.into())]);
        }
        for (no, t, _) in objs {
            galloc::tracking(|| drop(t));
            run.see(e("drop", no));
        }
        afters.into_iter().flatten().for_each(|f| f());
        fx::take();
        run.ev.push(obj! {k: "end", left: tok::live().len() + (galloc::LIVE.load(Ordering::SeqCst) - live).unsigned_abs() as usize, bad: 0});
        out.trace_meta(J::L(vec![]), run.ev, J::from(format!("{names:?}")));
    }
}
