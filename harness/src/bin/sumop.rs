//! Results, options and packed enums of payloads whose every move is watched (spec/Sums.tla).
#![allow(clippy::all)]
use stabby_abi::alloc::boxed::Box as SBox;
use stabby_abi::option::Option as SOption;
use stabby_abi::result::Result as SResult;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use vharness::json::il;
use vharness::{fx, obj, tok, Out, Rng, Tok, J};

trait Pay: Clone + Debug + Hash + PartialEq {
    fn make(val: i64) -> Self;
    fn ident(&self) -> i64;
}
impl Pay for Tok {
    fn make(val: i64) -> Self {
        Tok::new(val)
    }
    fn ident(&self) -> i64 {
        Tok::id(self) as i64
    }
}
/// A payload with a niche.
#[stabby_abi::stabby]
pub struct TBox(SBox<Tok>);
impl Clone for TBox {
    fn clone(&self) -> Self {
        TBox(self.0.clone())
    }
}
impl Debug for TBox {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Debug::fmt(&*self.0, f)
    }
}
impl Hash for TBox {
    fn hash<H: Hasher>(&self, h: &mut H) {
        Hash::hash(&*self.0, h)
    }
}
impl PartialEq for TBox {
    fn eq(&self, o: &Self) -> bool {
        *self.0 == *o.0
    }
}
impl Pay for TBox {
    fn make(val: i64) -> Self {
        TBox(SBox::new(Tok::new(val)))
    }
    fn ident(&self) -> i64 {
        Tok::id(&self.0) as i64
    }
}
/// A payload with padding.
#[stabby_abi::stabby]
#[derive(Clone, Debug, Hash, PartialEq)]
pub struct TPad {
    t: Tok,
    x: u8,
}
impl Pay for TPad {
    fn make(val: i64) -> Self {
        TPad { t: Tok::new(val), x: val as u8 }
    }
    fn ident(&self) -> i64 {
        self.t.id() as i64
    }
}
/// A small payload next to something with forbidden values.
#[stabby_abi::stabby(no_opt)]
#[derive(Clone, Debug, Hash, PartialEq)]
pub struct TNz {
    b: bool,
    t: TBox,
    n: std::num::NonZeroU16,
}
impl Pay for TNz {
    fn make(val: i64) -> Self {
        TNz { b: val % 2 == 0, t: TBox(SBox::new(Tok::new(val))), n: std::num::NonZeroU16::new(7).unwrap() }
    }
    fn ident(&self) -> i64 {
        if self.n.get() != 7 {
            fx::bad("corrupted payload");
        }
        self.t.ident()
    }
}
const NS: usize = 3;
#[derive(Clone, Debug)]
struct Op {
    o: &'static str,
    s: usize,
    t: usize,
    f: &'static str,
    k: &'static str,
    v: i64,
    val: i64,
}
/// What a slot holds, as far as the generator of programs is concerned.
type Kind = (&'static str, i64);
trait Machine {
    fn kind(&self, s: usize) -> Option<Kind>;
    /// Runs an operation: what it returned (`None`: it panicked).
    fn run(&mut self, op: &Op, calls: &RefCell<Vec<(i64, i64)>>) -> Option<Vec<i64>>;
    fn clear(&mut self);
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn eqh<T: Hash + PartialEq>(x: &T, y: &T) -> Vec<i64> {
    let e = x == y;
    vec![if e == (x != y) { 7 } else { e as i64 }, (hash(x) == hash(y)) as i64]
}
fn same_text(a: &dyn Debug, b: &dyn Debug) -> Vec<i64> {
    vec![(format!("{a:?}") == format!("{b:?}") && format!("{a:#?}") == format!("{b:#?}")) as i64]
}
fn inj(f: &str) {
    if f == "panic" {
        panic!("as planned");
    }
}
fn back<P: Pay>(x: P, f: &str, val: i64) -> P {
    match f {
        "same" => x,
        "panic" => panic!("as planned"),
        _ => {
            drop(x);
            P::make(val)
        }
    }
}
/// In-place access: how it goes about replacing the payload depends on `h`.
fn touch<P: Pay>(x: &mut P, f: &str, val: i64, h: usize) {
    if f == "same" {
        return;
    }
    match h % 3 {
        0 => *x = P::make(val),
        1 => drop(std::mem::replace(x, P::make(val))),
        _ => {
            let mut n = P::make(val);
            std::mem::swap(x, &mut n);
        }
    }
    inj(f);
}
macro_rules! machine {
    ($m: ident, $A: ty, $B: ty) => {
        mod $m {
            use super::*;
            type A = $A;
            type B = $B;
            #[stabby_abi::stabby]
            #[repr(stabby)]
            #[derive(Clone)]
            pub enum E {
                P($A),
                Q($B),
                U,
            }
            #[stabby_abi::stabby]
            #[repr(stabby)]
            #[derive(Clone)]
            pub enum F {
                P($A),
                Q($B),
                U,
                R($B),
                S($A),
            }
            enum Slot {
                R(SResult<A, B>),
                O(SOption<A>),
                CR(Result<A, B>),
                CO(Option<A>),
                E(E),
                F(F),
                A(A),
                B(B),
            }
            use Slot as S;
            #[derive(Default)]
            pub struct M {
                sl: [Option<Slot>; NS],
                h: usize,
            }
            impl Machine for M {
                fn kind(&self, s: usize) -> Option<Kind> {
                    Some(match self.sl[s].as_ref()? {
                        S::R(x) => ("R", x.is_err() as i64),
                        S::O(x) => ("O", x.is_none() as i64),
                        S::CR(x) => ("CR", x.is_err() as i64),
                        S::CO(x) => ("CO", x.is_none() as i64),
                        S::E(x) => ("E", x.match_ref(|_| 0, |_| 1, || 2)),
                        S::F(x) => ("F", x.match_ref(|_| 0, |_| 1, || 2, |_| 3, |_| 4)),
                        S::A(_) => ("A", 0),
                        S::B(_) => ("B", 0),
                    })
                }
                fn clear(&mut self) {
                    self.sl = Default::default();
                }
                fn run(&mut self, op: &Op, calls: &RefCell<Vec<(i64, i64)>>) -> Option<Vec<i64>> {
                    self.h += 1;
                    let h = self.h;
                    let (s, f, val) = (op.s, op.f, op.val);
                    let call = |v: i64, t: i64| calls.borrow_mut().push((v, t));
                    if op.o == "clone" {
                        tok::set_fuse(if f == "panic" { 0 } else { -1 });
                        let r = catch_unwind(AssertUnwindSafe(|| match self.sl[s].as_ref().unwrap() {
                            S::R(x) => S::R(x.clone()),
                            S::O(x) => S::O(x.clone()),
                            S::E(x) => S::E(x.clone()),
                            S::F(x) => S::F(x.clone()),
                            _ => unreachable!(),
                        }));
                        tok::set_fuse(-1);
                        return r.ok().map(|x| {
                            self.sl[op.t] = Some(x);
                            vec![0]
                        });
                    }
                    if op.o == "mut" {
                        let x = self.sl[s].as_mut().unwrap();
                        return catch_unwind(AssertUnwindSafe(|| {
                            let none = |v: i64| {
                                call(v, 0);
                                inj(f)
                            };
                            match x {
                                S::R(x) => match h % 4 {
                                    0 => x.match_mut(
                                        |mut g| {
                                            call(0, g.ident());
                                            touch(&mut *g, f, val, h / 4)
                                        },
                                        |mut g| {
                                            call(1, g.ident());
                                            touch(&mut *g, f, val, h / 4)
                                        },
                                    ),
                                    1 => x.match_mut_ctx(
                                        h / 4,
                                        |h, mut g| {
                                            call(0, g.ident());
                                            touch(&mut *g, f, val, h)
                                        },
                                        |h, mut g| {
                                            call(1, g.ident());
                                            touch(&mut *g, f, val, h)
                                        },
                                    ),
                                    _ => {
                                        if let Some(mut g) = x.ok_mut() {
                                            call(0, g.ident());
                                            touch(&mut *g, f, val, h / 4);
                                            return;
                                        }
                                        let mut g = x.err_mut().unwrap();
                                        call(1, g.ident());
                                        touch(&mut *g, f, val, h / 4)
                                    }
                                },
                                S::O(x) => match h % 3 {
                                    0 => x.match_mut(
                                        |mut g| {
                                            call(0, g.ident());
                                            touch(&mut *g, f, val, h / 3)
                                        },
                                        || none(1),
                                    ),
                                    1 => x.match_mut_ctx(
                                        h / 3,
                                        |h, mut g| {
                                            call(0, g.ident());
                                            touch(&mut *g, f, val, h)
                                        },
                                        |_| none(1),
                                    ),
                                    _ => match x.as_mut() {
                                        Some(mut g) => {
                                            call(0, g.ident());
                                            touch(&mut *g, f, val, h / 3)
                                        }
                                        None => none(1),
                                    },
                                },
                                S::E(x) => {
                                    if h % 2 == 0 {
                                        x.match_mut(
                                            |g| {
                                                call(0, g.ident());
                                                touch(g, f, val, h / 2)
                                            },
                                            |g| {
                                                call(1, g.ident());
                                                touch(g, f, val, h / 2)
                                            },
                                            || none(2),
                                        )
                                    } else {
                                        x.match_mut_ctx(
                                            h / 2,
                                            |h, g| {
                                                call(0, g.ident());
                                                touch(g, f, val, h)
                                            },
                                            |h, g| {
                                                call(1, g.ident());
                                                touch(g, f, val, h)
                                            },
                                            |_| none(2),
                                        )
                                    }
                                }
                                S::F(x) => {
                                    macro_rules! arm {
                                        ($k: literal) => {
                                            |g| {
                                                call($k, g.ident());
                                                touch(g, f, val, h / 2)
                                            }
                                        };
                                    }
                                    if h % 2 == 0 {
                                        x.match_mut(arm!(0), arm!(1), || none(2), arm!(3), arm!(4))
                                    } else {
                                        macro_rules! arm {
                                            ($k: literal) => {
                                                |h, g| {
                                                    call($k, g.ident());
                                                    touch(g, f, val, h)
                                                }
                                            };
                                        }
                                        x.match_mut_ctx(h / 2, arm!(0), arm!(1), |_| none(2), arm!(3), arm!(4))
                                    }
                                }
                                _ => unreachable!(),
                            }
                        }))
                        .ok()
                        .map(|_| vec![0]);
                    }
                    if op.o == "match_ref" {
                        let x = self.sl[s].as_ref().unwrap();
                        return catch_unwind(AssertUnwindSafe(|| {
                            let c = |v: i64, t: i64| {
                                call(v, t);
                                inj(f);
                                vec![v, t]
                            };
                            match (x, h % 2) {
                                (S::R(x), 0) => x.match_ref(|x| c(0, x.ident()), |x| c(1, x.ident())),
                                (S::R(x), _) => x.match_ref_ctx(c, |c, x| c(0, x.ident()), |c, x| c(1, x.ident())),
                                (S::O(x), 0) => x.match_ref(|x| c(0, x.ident()), || c(1, 0)),
                                (S::O(x), _) => x.match_ref_ctx(c, |c, x| c(0, x.ident()), |c| c(1, 0)),
                                (S::E(x), 0) => x.match_ref(|x| c(0, x.ident()), |x| c(1, x.ident()), || c(2, 0)),
                                (S::E(x), _) => x.match_ref_ctx(c, |c, x| c(0, x.ident()), |c, x| c(1, x.ident()), |c| c(2, 0)),
                                (S::F(x), 0) => x.match_ref(|x| c(0, x.ident()), |x| c(1, x.ident()), || c(2, 0), |x| c(3, x.ident()), |x| c(4, x.ident())),
                                (S::F(x), _) => x.match_ref_ctx(c, |c, x| c(0, x.ident()), |c, x| c(1, x.ident()), |c| c(2, 0), |c, x| c(3, x.ident()), |c, x| c(4, x.ident())),
                                _ => unreachable!(),
                            }
                        }))
                        .ok();
                    }
                    match op.o {
                        "new" => {
                            let v = op.v;
                            self.sl[s] = Some(match (op.k, v) {
                                ("R", 0) => S::R(SResult::Ok(A::make(val))),
                                ("R", _) => S::R(SResult::Err(B::make(val))),
                                ("O", 0) => S::O(SOption::Some(A::make(val))),
                                ("O", _) => S::O(if h % 2 == 0 { SOption::None() } else { Default::default() }),
                                ("E", 0) => S::E(E::P(A::make(val))),
                                ("E", 1) => S::E(E::Q(B::make(val))),
                                ("E", _) => S::E(E::U()),
                                ("F", 0) => S::F(F::P(A::make(val))),
                                ("F", 1) => S::F(F::Q(B::make(val))),
                                ("F", 3) => S::F(F::R(B::make(val))),
                                ("F", 4) => S::F(F::S(A::make(val))),
                                ("F", _) => S::F(F::U()),
                                _ => unreachable!(),
                            });
                            return Some(vec![0]);
                        }
                        "drop" => {
                            self.sl[s] = None;
                            return Some(vec![0]);
                        }
                        "move" => {
                            self.sl[op.t] = self.sl[s].take();
                            return Some(vec![0]);
                        }
                        "swap" => {
                            self.sl.swap(s, op.t);
                            return Some(vec![0]);
                        }
                        "ask" => {
                            let r = match self.sl[s].as_ref().unwrap() {
                                S::R(x) => {
                                    let r = x.as_ref();
                                    if r.ok().map(|x| x.ident()) != x.ok_ref().map(|x| x.ident()) || r.err().map(|x| x.ident()) != x.err_ref().map(|x| x.ident()) {
                                        fx::bad("as_ref disagrees with ok_ref or err_ref");
                                    }
                                    vec![x.is_ok() as i64, x.is_err() as i64, x.ok_ref().map_or(0, |x| x.ident()), x.err_ref().map_or(0, |x| x.ident())]
                                }
                                S::O(x) => vec![x.is_some() as i64, x.is_none() as i64, x.as_ref().map_or(0, |x| x.ident()), 0],
                                _ => unreachable!(),
                            };
                            return Some(r);
                        }
                        "debug" => {
                            return Some(match self.sl[s].as_ref().unwrap() {
                                S::R(x) => same_text(x, &x.as_ref()),
                                S::O(x) => same_text(x, &x.as_ref()),
                                _ => unreachable!(),
                            })
                        }
                        "eq" => {
                            return Some(match (self.sl[s].as_ref().unwrap(), self.sl[op.t].as_ref().unwrap()) {
                                (S::R(x), S::R(y)) => eqh(x, y),
                                (S::O(x), S::O(y)) => eqh(x, y),
                                _ => unreachable!(),
                            })
                        }
                        _ => {}
                    }
                    // The rest consumes what is in the slot.
                    let x = self.sl[s].take().unwrap();
                    let (n, r) = catch_unwind(AssertUnwindSafe(move || {
                        let c0 = |x: A| {
                            call(0, x.ident());
                            back(x, f, val)
                        };
                        match (op.o, x) {
                            ("convert", S::R(x)) => (Some(S::CR(x.into())), vec![0]),
                            ("convert", S::CR(x)) => (Some(S::R(x.into())), vec![0]),
                            ("convert", S::O(x)) => (Some(S::CO(x.into())), vec![0]),
                            ("convert", S::CO(x)) => (Some(S::O(x.into())), vec![0]),
                            ("match", x) => {
                                macro_rules! arm {
                                    ($k: literal, $s: ident) => {
                                        |x| {
                                            let id = x.ident();
                                            call($k, id);
                                            inj(f);
                                            (Some(S::$s(x)), vec![$k, id])
                                        }
                                    };
                                    (ctx $k: literal, $s: ident) => {
                                        |_, x| {
                                            let id = x.ident();
                                            call($k, id);
                                            inj(f);
                                            (Some(S::$s(x)), vec![$k, id])
                                        }
                                    };
                                }
                                let unit = |k: i64| {
                                    call(k, 0);
                                    inj(f);
                                    (None, vec![k, 0])
                                };
                                match (x, h % 2) {
                                    (S::R(x), 0) => x.match_owned(arm!(0, A), arm!(1, B)),
                                    (S::R(x), _) => x.match_owned_ctx((), arm!(ctx 0, A), arm!(ctx 1, B)),
                                    (S::O(x), 0) => x.match_owned(arm!(0, A), || unit(1)),
                                    (S::O(x), _) => x.match_owned_ctx((), arm!(ctx 0, A), |_| unit(1)),
                                    (S::E(x), 0) => x.match_owned(arm!(0, A), arm!(1, B), || unit(2)),
                                    (S::E(x), _) => x.match_owned_ctx((), arm!(ctx 0, A), arm!(ctx 1, B), |_| unit(2)),
                                    (S::F(x), 0) => x.match_owned(arm!(0, A), arm!(1, B), || unit(2), arm!(3, B), arm!(4, A)),
                                    (S::F(x), _) => x.match_owned_ctx((), arm!(ctx 0, A), arm!(ctx 1, B), |_| unit(2), arm!(ctx 3, B), arm!(ctx 4, A)),
                                    _ => unreachable!(),
                                }
                            }
                            ("map", S::R(x)) => (Some(S::R(x.map(c0))), vec![0]),
                            ("and_then", S::R(x)) => (
                                Some(S::R(x.and_then(|x| {
                                    call(0, x.ident());
                                    if f == "err" {
                                        drop(x);
                                        SResult::Err(B::make(val))
                                    } else {
                                        SResult::Ok(back(x, f, val))
                                    }
                                }))),
                                vec![0],
                            ),
                            ("ok", S::R(x)) => (Some(S::CO(x.ok())), vec![0]),
                            ("err", S::R(x)) => match x.err() {
                                Some(e) => (Some(S::B(e)), vec![1]),
                                None => (None, vec![0]),
                            },
                            ("unwrap", S::R(x)) => (Some(S::A(x.unwrap())), vec![0]),
                            ("unwrap", S::O(x)) => (Some(S::A(x.unwrap())), vec![0]),
                            ("unwrap_err", S::R(x)) => (Some(S::B(x.unwrap_err())), vec![0]),
                            ("unwrap_or_else", S::R(x)) => (
                                Some(S::A(x.unwrap_or_else(|e| {
                                    call(1, e.ident());
                                    inj(f);
                                    drop(e);
                                    A::make(val)
                                }))),
                                vec![0],
                            ),
                            ("unwrap_or_else", S::O(x)) => (
                                Some(S::A(x.unwrap_or_else(|| {
                                    call(1, 0);
                                    inj(f);
                                    A::make(val)
                                }))),
                                vec![0],
                            ),
                            ("unwrap_err_or_else", S::R(x)) => (
                                Some(S::B(x.unwrap_err_or_else(|e| {
                                    call(0, e.ident());
                                    inj(f);
                                    drop(e);
                                    B::make(val)
                                }))),
                                vec![0],
                            ),
                            _ => unreachable!(),
                        }
                    }))
                    .ok()?;
                    self.sl[s] = n;
                    Some(r)
                }
            }
        }
    };
}
machine!(tt, Tok, Tok);
machine!(bp, TBox, TPad);
machine!(pb, TPad, TBox);
machine!(bb, TBox, TBox);
machine!(zp, TNz, TPad);
machine!(pz, TPad, TNz);

fn machines() -> Vec<(&'static str, fn() -> Box<dyn Machine>)> {
    vec![
        ("Tok, Tok", || Box::<tt::M>::default()),
        ("Box, TPad", || Box::<bp::M>::default()),
        ("TPad, Box", || Box::<pb::M>::default()),
        ("Box, Box", || Box::<bb::M>::default()),
        ("TNz, TPad", || Box::<zp::M>::default()),
        ("TPad, TNz", || Box::<pz::M>::default()),
    ]
}
/// The operations that apply to what the slots hold.
fn applicable(m: &dyn Machine, enums: bool) -> Vec<Op> {
    let mut l = vec![];
    let op = |o, s, t, f, k, v| Op { o, s, t, f, k, v, val: 0 };
    for s in 0..NS {
        match m.kind(s) {
            None => {
                let vs: &[(&'static str, i64)] =
                    if enums { &[("E", 0), ("E", 1), ("E", 9), ("F", 0), ("F", 1), ("F", 3), ("F", 4), ("F", 9)] } else { &[("R", 0), ("R", 1), ("O", 0), ("O", 9)] };
                for (k, v) in vs {
                    l.push(op("new", s, s, "same", k, *v));
                }
            }
            Some((k, _)) => {
                let mut u = |o, f| l.push(op(o, s, s, f, "", 0));
                u("drop", "same");
                if matches!(k, "R" | "O" | "E" | "F") {
                    for f in ["same", "panic"] {
                        u("match", f);
                        u("match_ref", f);
                    }
                    for f in ["same", "new", "panic"] {
                        u("mut", f);
                    }
                }
                if matches!(k, "R" | "O") {
                    u("ask", "same");
                    u("debug", "same");
                    u("unwrap", "same");
                    u("unwrap_or_else", "new");
                    u("unwrap_or_else", "panic");
                }
                if matches!(k, "R" | "O" | "CR" | "CO") {
                    u("convert", "same");
                }
                if k == "R" {
                    for f in ["same", "new", "panic"] {
                        u("map", f);
                        u("and_then", f);
                    }
                    u("and_then", "err");
                    for o in ["ok", "err", "unwrap_err"] {
                        u(o, "same");
                    }
                    u("unwrap_err_or_else", "new");
                    u("unwrap_err_or_else", "panic");
                }
                for t in 0..NS {
                    if t == s {
                        continue;
                    }
                    let kt = m.kind(t);
                    l.push(op("move", s, t, "same", "", 0));
                    if kt.is_some() {
                        l.push(op("swap", s, t, "same", "", 0));
                    }
                    if kt.is_none() && matches!(k, "R" | "O" | "E" | "F") {
                        for f in ["same", "panic"] {
                            l.push(op("clone", s, t, f, "", 0));
                        }
                    }
                    if matches!(k, "R" | "O") && kt.map_or(false, |kt| kt.0 == k) {
                        l.push(op("eq", s, t, "same", "", 0));
                    }
                }
            }
        }
    }
    l
}
/// Runs one operation and describes it.
fn perform(m: &mut dyn Machine, op: &Op) -> J {
    let n = tok::count();
    fx::take();
    let calls = RefCell::new(vec![]);
    let r = m.run(op, &calls);
    let e = fx::take();
    let nv = tok::vals()[n..].to_vec();
    obj! {o: op.o, s: op.s + 1, t: op.t + 1, f: op.f, k: op.k, v: op.v, val: op.val, r: il(r.unwrap_or(vec![-1])),
        c: J::L(calls.into_inner().into_iter().map(|(a, b)| il([a, b])).collect()), d: e.dj(), bad: e.badj(), nv: il(nv), live: J::from(tok::live())}
}
fn program(o: &mut Out, name: &str, mk: fn() -> Box<dyn Machine>, enums: bool, mut choose: impl FnMut(usize, &[Op]) -> Option<usize>) {
    tok::reset();
    fx::take();
    let mut m = mk();
    let mut ev = vec![];
    let mut k = 0;
    loop {
        let l = applicable(&*m, enums);
        let Some(c) = choose(k, &l) else { break };
        let mut op = l[c].clone();
        op.val = (k % 2) as i64;
        o.begin(&format!("{name}: {op:?} after {} operations", ev.len()));
        let e = perform(&mut *m, &op);
        let stop = e.to_string().contains("\"bad\":[\"");
        ev.push(e);
        if stop {
            // What is in the slots can't be trusted any more.
            std::mem::forget(m);
            return drop(o.trace_meta(obj! {p: 0}, ev, J::S(name.into())));
        }
        k += 1;
    }
    for s in 0..NS {
        if m.kind(s).is_some() {
            ev.push(perform(&mut *m, &Op { o: "drop", s, t: s, f: "same", k: "", v: 0, val: 0 }));
        }
    }
    m.clear();
    o.trace_meta(obj! {p: 0}, ev, J::S(name.into()));
}
fn main() {
    let a = vharness::args();
    let enums = match a.suite.as_str() {
        "sumop" => false,
        "sumop_enum" => true,
        s => panic!("unknown suite {s}"),
    };
    let mut o = Out::new(&a.out, &a.suite);
    let mut r = Rng::new(a.seed);
    for (name, mk) in machines() {
        // Every pair of operations on one fresh value.
        let starts = if enums { 8 } else { 4 };
        for k in 0..starts {
            let mut n1 = 1;
            let mut i = 0;
            while i < n1 {
                let mut n2 = 1;
                let mut j = 0;
                while j < n2 {
                    program(&mut o, name, mk, enums, |step, l| match step {
                        0 => Some(k),
                        1 => {
                            n1 = l.iter().filter(|x| x.s == 0).count();
                            l.iter().enumerate().filter(|(_, x)| x.s == 0).nth(i).map(|x| x.0)
                        }
                        2 => {
                            // leave the other slots empty
                            let p: Vec<usize> = l.iter().enumerate().filter(|(_, x)| x.o != "new").map(|x| x.0).collect();
                            n2 = p.len();
                            p.get(j).copied()
                        }
                        _ => None,
                    });
                    j += 1;
                }
                i += 1;
            }
        }
        let n = if a.thorough { 4000 } else { 150 };
        for _ in 0..n {
            let len = 4 + r.below(20);
            program(&mut o, name, mk, enums, |step, l| if step < len { Some(r.below(l.len())) } else { None });
        }
    }
    o.finish();
}
