//! Owning containers: runs programs of container operations and records what is observable (spec/Cont.tla).
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use stabby_abi::alloc::boxed::{Box as SBox, BoxedSlice};
use stabby_abi::alloc::single_or_vec::SingleOrVec;
use stabby_abi::alloc::sync::{Arc, ArcSlice, Weak, WeakSlice};
use stabby_abi::alloc::vec::{DoubleEndedDrain, Drain, IntoIter, Vec as SVec};
use vharness::fx::{self, Effect};
use vharness::{obj, talloc, tok, Out, Rng, Tok, TrackAlloc as TA, J};
const NS: usize = 4;
// ---------------------------------------------------------------- elements
trait Elem: Sized + Clone + Ord + Debug + Hash + 'static {
    const Z: bool;
    fn make(val: i64) -> Self;
    fn id(&self) -> i64;
    fn sov_new(_a: TA) -> Option<Box<dyn Sov<Self>>> {
        None
    }
    fn sov_cap(_c: usize, _a: TA, _fallible: bool) -> Option<Result<Box<dyn Sov<Self>>, ()>> {
        None
    }
    fn sov_from(v: SVec<Self, TA>) -> Result<Box<dyn Sov<Self>>, SVec<Self, TA>> {
        Err(v)
    }
}
trait Sov<E> {
    fn push(&mut self, e: E);
    fn try_push(&mut self, e: E) -> Result<(), E>;
    fn truncate(&mut self, n: usize);
    fn reserve(&mut self, n: usize);
    fn try_reserve(&mut self, n: usize) -> Result<usize, ()>;
    fn extend(&mut self, i: It<E>);
    fn dup(&self) -> Box<dyn Sov<E>>;
    fn slice(&self) -> &[E];
    fn at(&self, i: usize) -> &E;
    fn range(&self, style: i64, lo: usize, hi: usize) -> &[E];
    fn set(&mut self, i: usize, e: E, how: bool);
    fn cap(&self) -> (usize, usize, usize, bool);
    fn walk(&mut self) -> Vec<i64>;
    fn into_vec(self: Box<Self>) -> SVec<E, TA>;
    fn any(&self) -> &dyn std::any::Any;
    fn compare(&self, o: &dyn Sov<E>) -> (bool, std::cmp::Ordering, std::cmp::Ordering);
}
macro_rules! index_range {
    ($v: expr, $style: expr, $lo: expr, $hi: expr) => {
        match $style {
            1 => &$v[$lo..=$hi - 1],
            2 => &$v[..$hi],
            3 => &$v[$lo..],
            4 => &$v[..],
            6 => &$v[..=$hi - 1],
            _ => &$v[$lo..$hi],
        }
    };
}
macro_rules! sov {
    ($t: ty) => {
        impl Sov<$t> for SingleOrVec<$t, TA> {
            fn push(&mut self, e: $t) {
                SingleOrVec::push(self, e)
            }
            fn try_push(&mut self, e: $t) -> Result<(), $t> {
                SingleOrVec::try_push(self, e)
            }
            fn truncate(&mut self, n: usize) {
                SingleOrVec::truncate(self, n)
            }
            fn reserve(&mut self, n: usize) {
                SingleOrVec::reserve(self, n)
            }
            fn try_reserve(&mut self, n: usize) -> Result<usize, ()> {
                SingleOrVec::try_reserve(self, n).map(|x| x.into()).map_err(|_| ())
            }
            fn extend(&mut self, i: It<$t>) {
                Extend::extend(self, i)
            }
            fn dup(&self) -> Box<dyn Sov<$t>> {
                Box::new(self.clone())
            }
            fn slice(&self) -> &[$t] {
                self.as_slice()
            }
            fn at(&self, i: usize) -> &$t {
                &self[i]
            }
            fn range(&self, style: i64, lo: usize, hi: usize) -> &[$t] {
                index_range!(self, style, lo, hi)
            }
            fn set(&mut self, i: usize, e: $t, how: bool) {
                if how && i < self.len() {
                    // through the mutable iterator, from whichever end is closer
                    let n = self.len();
                    let mut it = self.into_iter();
                    let r = if i * 2 < n { it.nth(i) } else { it.nth_back(n - 1 - i) };
                    *r.unwrap() = e;
                } else {
                    self.as_slice_mut()[i] = e
                }
            }
            fn cap(&self) -> (usize, usize, usize, bool) {
                (self.capacity(), self.remaining_capacity(), self.len(), self.is_empty())
            }
            fn walk(&mut self) -> Vec<i64> {
                let mut it = self.into_iter();
                let mut f = vec![];
                let mut b = vec![];
                loop {
                    let n = it.len();
                    match it.next() {
                        Some(x) => f.push(Elem::id(x)),
                        None => break,
                    }
                    if it.len() + 1 != n {
                        fx::bad("iterator length");
                    }
                    match it.next_back() {
                        Some(x) => b.push(Elem::id(x)),
                        None => break,
                    }
                }
                b.reverse();
                f.extend(b);
                f
            }
            fn into_vec(self: Box<Self>) -> SVec<$t, TA> {
                (*self).into()
            }
            fn any(&self) -> &dyn std::any::Any {
                self
            }
            fn compare(&self, o: &dyn Sov<$t>) -> (bool, std::cmp::Ordering, std::cmp::Ordering) {
                let o = o.any().downcast_ref::<Self>().unwrap();
                (self == o, self.cmp(o), self.partial_cmp(o).unwrap())
            }
        }
    };
}
macro_rules! elem_sov {
    () => {
        fn sov_new(a: TA) -> Option<Box<dyn Sov<Self>>> {
            Some(Box::new(SingleOrVec::<Self, TA>::new_in(a)))
        }
        fn sov_cap(c: usize, a: TA, fallible: bool) -> Option<Result<Box<dyn Sov<Self>>, ()>> {
            Some(if fallible {
                match SingleOrVec::<Self, TA>::try_with_capacity_in(c, a) {
                    Ok(s) => Ok(Box::new(s)),
                    Err(_) => Err(()),
                }
            } else {
                Ok(Box::new(SingleOrVec::<Self, TA>::with_capacity_in(c, a)))
            })
        }
        fn sov_from(v: SVec<Self, TA>) -> Result<Box<dyn Sov<Self>>, SVec<Self, TA>> {
            Ok(Box::new(SingleOrVec::<Self, TA>::from(v)))
        }
    };
}
impl Elem for Tok {
    const Z: bool = false;
    fn make(val: i64) -> Self {
        Tok::new(val)
    }
    fn id(&self) -> i64 {
        Tok::id(self) as i64
    }
    elem_sov!();
}
sov!(Tok);
macro_rules! wide {
    ($n: ident, $al: literal, $pad: literal $(, $sov: ident)?) => {
        #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
        #[repr(C, align($al))]
        struct $n {
            tok: Tok,
            pad: [u8; $pad],
        }
        impl $n {
            fn chk(&self) {
                if self as *const _ as usize % $al != 0 {
                    fx::bad("misaligned element");
                }
                if self.pad.iter().any(|x| *x != 0x5C) {
                    fx::bad("corrupted element");
                }
            }
        }
        impl Elem for $n {
            const Z: bool = false;
            fn make(val: i64) -> Self {
                $n { tok: Tok::new(val), pad: [0x5C; $pad] }
            }
            fn id(&self) -> i64 {
                self.chk();
                self.tok.id() as i64
            }
            $(elem_sov!(); const _: fn() = || { let _ = stringify!($sov); };)?
        }
    };
}
wide!(Wide, 64, 48);
wide!(Huge, 8, 1104);
wide!(Mid, 8, 200);
/// A token with spare bit patterns around it.
#[stabby_abi::stabby]
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
struct Padded {
    tok: Tok,
    ptr: core::num::NonZeroU16,
    flag: bool,
}
impl Elem for Padded {
    const Z: bool = false;
    fn make(val: i64) -> Self {
        Padded { flag: val % 2 == 0, tok: Tok::new(val), ptr: core::num::NonZeroU16::new(7).unwrap() }
    }
    fn id(&self) -> i64 {
        let i = self.tok.id() as i64;
        let raw = unsafe { *(&self.flag as *const bool as *const u8) };
        if raw != (self.tok.val % 2 == 0) as u8 || self.ptr.get() != 7 {
            fx::bad("corrupted element");
        }
        i
    }
    elem_sov!();
}
sov!(Padded);
static ZLIVE: AtomicI64 = AtomicI64::new(0);
macro_rules! zst {
    ($n: ident $(, $r: meta)?) => {
        #[derive(PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
        $(#[$r])?
        struct $n;
        impl Clone for $n {
            fn clone(&self) -> Self {
                fx::emit(Effect::Clone(0, 0));
                ZLIVE.fetch_add(1, SeqCst);
                $n
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                if ZLIVE.fetch_sub(1, SeqCst) <= 0 {
                    fx::bad("an element was destroyed twice");
                }
                fx::emit(Effect::Destroy(0));
            }
        }
        impl Elem for $n {
            const Z: bool = true;
            fn make(_: i64) -> Self {
                ZLIVE.fetch_add(1, SeqCst);
                $n
            }
            fn id(&self) -> i64 {
                if self as *const _ as usize % std::mem::align_of::<Self>() != 0 {
                    fx::bad("misaligned element");
                }
                0
            }
        }
    };
}
zst!(Zst);
zst!(ZstA, repr(align(8)));
/// An iterator that may lie about its length and may panic.
struct It<E> {
    items: std::vec::IntoIter<E>,
    left: i64,
    hint: usize,
}
impl<E> Iterator for It<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        if self.left == 0 {
            self.left = -1;
            panic!("injected iterator panic");
        }
        self.left -= 1;
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.hint, None)
    }
}
// ---------------------------------------------------------------- programs
#[derive(Clone, Copy, Debug, PartialEq)]
enum Inj {
    No,
    Fail(i64),
    Clone(i64),
    Iter(i64),
    Drop(i64),
}
#[derive(Clone, Debug)]
struct Op {
    k: &'static str,
    s: usize,
    t: usize,
    n: [i64; 3],
    inj: Inj,
}
fn op(k: &'static str, s: usize, t: usize, n: [i64; 3]) -> Op {
    Op { k, s, t, n, inj: Inj::No }
}
fn kind(k: i64) -> &'static str {
    if k % 2 == 0 {
        "vec"
    } else {
        "sov"
    }
}
enum S<E: Elem> {
    None,
    Vec(Box<SVec<E, TA>>),
    Sov(Box<dyn Sov<E>>),
    Bs(BoxedSlice<E, TA>),
    Arc(ArcSlice<E, TA>),
    Weak(WeakSlice<E, TA>),
    Bx(SBox<E, TA>),
    A1(Arc<E, TA>),
    W1(Weak<E, TA>),
    Into(IntoIter<E, TA>),
    Drain(*mut SVec<E, TA>, Drain<'static, E, TA>),
    Dd(*mut SVec<E, TA>, DoubleEndedDrain<'static, E, TA>),
}
struct World<E: Elem> {
    sl: Vec<S<E>>,
    held: Vec<E>,
    ev: Vec<J>,
    nvals: usize,
    vals: i64,
}
fn agree(a: bool, what: &str) {
    if !a {
        fx::bad(format!("observers disagree: {what}"))
    }
}
fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn capj(c: usize) -> i64 {
    if c == usize::MAX {
        -1
    } else {
        c as i64
    }
}
fn proj<E: Elem>(s: &mut S<E>) -> Vec<i64> {
    let ids = |s: &[E]| s.iter().map(|e| e.id()).collect::<Vec<i64>>();
    let with = |k: i64, c: i64, l: Vec<i64>| {
        let mut v = vec![k, c];
        v.extend(l);
        v
    };
    match s {
        S::None => vec![0, 0],
        S::Vec(v) => {
            let l = ids(v.as_slice());
            agree(v.len() == l.len() && v.is_empty() == l.is_empty(), "len");
            agree(v.iter().map(|e| e.id()).collect::<Vec<_>>() == l && ids(&v[..]) == l && ids(AsRef::<[E]>::as_ref(&**v)) == l, "iter");
            agree(v.iter_mut().map(|e| e.id()).collect::<Vec<_>>() == l && v.as_slice_mut().len() == l.len() && v.as_mut().len() == l.len(), "iter_mut");
            let c = v.capacity();
            agree(c >= l.len() && v.remaining_capacity() == c - l.len(), "capacity");
            agree(format!("{:?}", v) == format!("{:?}", v.as_slice()), "debug");
            if l.len() > 0 && !E::Z {
                let p = v.as_slice().as_ptr() as usize;
                match talloc::block_of(p) {
                    Some((_, user, size, _)) => agree(p >= user && p + c * std::mem::size_of::<E>() <= user + size, "the block is smaller than the capacity"),
                    None => agree(false, "elements outside of any block"),
                }
            }
            with(1, capj(c), l)
        }
        S::Sov(v) => {
            let l = ids(v.slice());
            let (c, r, n, e) = v.cap();
            agree(n == l.len() && e == l.is_empty(), "len");
            agree(v.walk() == l, "iter_mut");
            agree(ids(v.slice()) == l, "content after iter_mut");
            agree(c >= l.len() && r == c - l.len(), "capacity");
            with(2, capj(c), l)
        }
        S::Bs(b) => {
            let l = ids(b.as_slice());
            agree(b.len() == l.len() && b.is_empty() == l.is_empty() && ids(&b[..]) == l && ids(b.as_slice_mut()) == l, "slice");
            agree(format!("{:?}", b) == format!("{:?}", b.as_slice()) && hash(b) == hash(b.as_slice()), "debug/hash");
            with(3, 0, l)
        }
        S::Arc(a) => {
            let l = ids(a.as_slice());
            agree(a.len() == l.len() && a.is_empty() == l.is_empty() && ids(&a[..]) == l, "slice");
            agree((&*a).into_iter().map(|e| e.id()).collect::<Vec<_>>() == l, "iter");
            agree(format!("{:?}", a) == format!("{:?}", a.as_slice()) && hash(a) == hash(a.as_slice()), "debug/hash");
            with(4, 0, l)
        }
        S::Bx(b) => with(5, 0, vec![b.id()]),
        S::A1(a) => with(6, 0, vec![a.id()]),
        S::Weak(_) => vec![7, 0],
        S::W1(_) => vec![8, 0],
        S::Into(_) => vec![9, 0],
        S::Drain(..) => vec![10, 0],
        S::Dd(..) => vec![11, 0],
    }
}
impl<E: Elem> World<E> {
    fn new() -> Self {
        tok::reset();
        talloc::reset();
        ZLIVE.store(0, SeqCst);
        fx::take();
        World { sl: (0..NS).map(|_| S::None).collect(), held: vec![], ev: vec![], nvals: 0, vals: 0 }
    }
    fn fresh(&mut self, n: i64) -> E {
        self.vals = (self.vals * 5 + n + 3) % 7;
        E::make(self.vals % 3)
    }
    fn dest(&self, t: usize) -> bool {
        matches!(self.sl[t], S::None)
    }
    /// Runs one operation; `false` if it doesn't apply to what the slot holds.
    fn exec(&mut self, o: &Op) -> bool {
        let (s, t, n) = (o.s, o.t, o.n);
        use S::*;
        let alloc = || TA::new(s as u32 + 1);
        // what the operation needs
        let slot = &self.sl[s];
        let app = match o.k {
            "new" | "withcap" => matches!(slot, None) && (kind(n[0]) == "vec" || (!E::Z && E::sov_new(TA::new(1)).is_some())),
            "newbox" | "newarc" | "makefail" | "collect" => matches!(slot, None),
            "push" | "reserve" | "try_reserve" | "extend" | "truncate" => matches!(slot, Vec(_) | Sov(_)),
            "try_push" => matches!(slot, Vec(_) | Sov(_) | Bs(_)),
            "pop" | "remove" | "swap_remove" | "swap" | "into" | "drain" | "try_drain" | "tobs" => matches!(slot, Vec(_)),
            "get" | "range" => matches!(slot, Vec(_) | Sov(_) | Bs(_) | Arc(_)),
            "set" => matches!(slot, Vec(_) | Sov(_) | Bs(_) | Bx(_) | Arc(_) | A1(_)) && !(matches!(slot, Bx(_) | A1(_)) && n[0] != 0),
            "clone" => matches!(slot, Vec(_) | Sov(_) | Bx(_)) && self.dest(t),
            "make_mut" => matches!(slot, A1(_)),
            "cmp" => matches!((slot, &self.sl[t]), (Vec(_), Vec(_)) | (Sov(_), Sov(_)) | (Bs(_), Bs(_)) | (Arc(_), Arc(_)) | (Vec(_), Sov(_))),
            "next" => matches!(slot, Into(_) | Drain(..) | Dd(..)),
            "back" => matches!(slot, Dd(..)),
            "len" => matches!(slot, Drain(..) | Dd(..)),
            "dd" | "stop" => matches!(slot, Drain(..)),
            "forget" => matches!(slot, Drain(..) | Dd(..)),
            "tosov" => matches!(slot, Vec(_)) && !E::Z && E::sov_new(TA::new(1)).is_some(),
            "tovec" => matches!(slot, Bs(_) | Sov(_) | Arc(_)),
            "toarc" => matches!(slot, Vec(_) | A1(_)),
            "inner" => matches!(slot, Bx(_) | A1(_)),
            "raw" => matches!(slot, Bx(_) | A1(_) | Arc(_) | W1(_)),
            "share" | "downgrade" => matches!(slot, Arc(_) | A1(_)) && self.dest(t),
            "wshare" | "upgrade" => matches!(slot, Weak(_) | W1(_)) && self.dest(t),
            "counts" => matches!(slot, Arc(_) | A1(_)),
            "drop" => !matches!(slot, None),
            _ => panic!("unknown op {}", o.k),
        };
        if !app {
            return false;
        }
        // arguments
        let len = proj(&mut self.sl[s]).len() as i64 - 2;
        let mut a: std::vec::Vec<J> = vec![];
        let mut toks: std::vec::Vec<E> = vec![];
        let mut upto = 0i64;
        match o.k {
            "new" => a.push(kind(n[0]).into()),
            "withcap" => a = vec![kind(n[0]).into(), n[1].into(), n[2].into()],
            "newbox" | "newarc" => {
                let e = self.fresh(n[0]);
                a = vec![n[0].into(), e.id().into()];
                toks.push(e);
            }
            "push" | "try_push" | "make_mut" => {
                let e = self.fresh(n[0]);
                a.push(e.id().into());
                toks.push(e);
            }
            "set" => {
                let e = self.fresh(n[0]);
                a = vec![n[0].into(), e.id().into()];
                toks.push(e);
            }
            "extend" | "collect" => {
                for _ in 0..n[0] {
                    let e = self.fresh(n[0]);
                    a.push(e.id().into());
                    toks.push(e);
                }
                upto = if let Inj::Iter(k) = o.inj { k.min(n[0]) } else { n[0] };
            }
            "get" | "remove" | "swap_remove" | "truncate" | "reserve" | "try_reserve" => a.push(n[0].min(1_000_000).into()),
            "swap" => a = vec![n[0].into(), n[1].into()],
            _ => {}
        }
        let (mut lo, mut hi, mut style) = (n[0], n[1], n[2]);
        if matches!(o.k, "drain" | "try_drain" | "range") {
            match style {
                1 | 6 if hi == 0 => style = 0,
                5 if lo == 0 || o.k == "range" => style = 0,
                _ => {}
            }
            match style {
                2 | 6 => lo = 0,
                3 => hi = len,
                4 => (lo, hi) = (0, len),
                // up to the last index there is, or from behind it
                7 if o.k != "range" => (lo, hi) = (0, BEHIND),
                8 if o.k != "range" => hi = BEHIND,
                9 if o.k != "range" => (lo, hi) = (BEHIND, len),
                _ => {}
            }
            a = vec![lo.into(), hi.into()];
        }
        let (lo, hi) = (lo as usize, hi as usize);
        let u = |i: usize| n[i] as usize;
        talloc::audit();
        let pre = fx::take(); // problems seen by the projections above
        let q0 = talloc::requests();
        match o.inj {
            Inj::Fail(k) => talloc::fail_at(k),
            Inj::Clone(k) => tok::set_fuse(k),
            Inj::Drop(k) => tok::set_drop_fuse(k),
            _ => {}
        }
        let sl = &mut self.sl;
        let held = &mut self.held;
        let mut give = |e: E| -> i64 {
            let i = e.id();
            held.push(e);
            i
        };
        let take = |sl: &mut std::vec::Vec<S<E>>| std::mem::replace(&mut sl[s], None);
        let res = catch_unwind(AssertUnwindSafe(|| -> std::vec::Vec<i64> {
            match o.k {
                "new" => {
                    sl[s] = if kind(n[0]) == "vec" { Vec(Box::new(SVec::new_in(alloc()))) } else { Sov(E::sov_new(alloc()).unwrap()) };
                    vec![0]
                }
                "withcap" => {
                    let c = u(1);
                    if kind(n[0]) == "vec" {
                        sl[s] = if n[2] == 1 {
                            match SVec::try_with_capacity_in(c, alloc()) {
                                Ok(v) => Vec(Box::new(v)),
                                Err(_) => return vec![2],
                            }
                        } else {
                            Vec(Box::new(SVec::with_capacity_in(c, alloc())))
                        };
                    } else {
                        match E::sov_cap(c, alloc(), n[2] == 1).unwrap() {
                            Ok(v) => sl[s] = Sov(v),
                            Err(()) => return vec![2],
                        }
                    }
                    vec![0]
                }
                "newbox" => {
                    let e = toks.pop().unwrap();
                    if n[0] == 1 {
                        match SBox::try_new_in(e, alloc()) {
                            Ok(b) => sl[s] = Bx(b),
                            Err((e, al)) => {
                                agree(al == alloc(), "another allocator was handed back");
                                return vec![2, give(e)];
                            }
                        }
                    } else {
                        sl[s] = Bx(SBox::new_in(e, alloc()));
                    }
                    vec![0]
                }
                "newarc" => {
                    let e = toks.pop().unwrap();
                    if n[0] == 1 {
                        match stabby_abi::alloc::sync::Arc::try_new_in(e, alloc()) {
                            Ok(b) => sl[s] = A1(b),
                            Err((e, al)) => {
                                agree(al == alloc(), "another allocator was handed back");
                                return vec![2, give(e)];
                            }
                        }
                    } else {
                        sl[s] = A1(stabby_abi::alloc::sync::Arc::new_in(e, alloc()));
                    }
                    vec![0]
                }
                "makefail" => unsafe {
                    // the constructor declares a failure
                    let failed = if n[0] == 0 { SBox::<E, TA>::try_make_in(|_| Err(()), alloc()).is_err() } else { stabby_abi::alloc::sync::Arc::<E, TA>::try_make_in(|_| Err(()), alloc()).is_err() };
                    vec![if failed { 2 } else { 0 }]
                },
                "collect" => {
                    let it = It { items: std::mem::take(&mut toks).into_iter(), left: -1, hint: u(1) };
                    sl[s] = Vec(Box::new(it.collect::<SVec<E, TA>>()));
                    vec![0]
                }
                "push" => {
                    let e = toks.pop().unwrap();
                    match &mut sl[s] {
                        Vec(v) => v.push(e),
                        Sov(v) => v.push(e),
                        _ => unreachable!(),
                    }
                    vec![0]
                }
                "try_push" => {
                    let e = toks.pop().unwrap();
                    match match &mut sl[s] {
                        Vec(v) => v.try_push(e),
                        Sov(v) => v.try_push(e),
                        Bs(v) => v.try_push(e),
                        _ => unreachable!(),
                    } {
                        Ok(()) => vec![0],
                        Err(e) => vec![2, give(e)],
                    }
                }
                "pop" | "remove" | "swap_remove" => {
                    let Vec(v) = &mut sl[s] else { unreachable!() };
                    match match o.k {
                        "pop" => v.pop(),
                        "remove" => v.remove(u(0)),
                        _ => v.swap_remove(u(0)),
                    } {
                        Some(e) => vec![1, give(e)],
                        Option::None => vec![0],
                    }
                }
                "swap" => {
                    let Vec(v) = &mut sl[s] else { unreachable!() };
                    SVec::swap(v, u(0), u(1));
                    vec![0]
                }
                "get" => vec![
                    1,
                    match &mut sl[s] {
                        Vec(v) => {
                            let i = v[u(0)].id();
                            agree((&mut v[u(0)]).id() == i, "index_mut");
                            i
                        }
                        Sov(v) => v.at(u(0)).id(),
                        Bs(v) => v[u(0)].id(),
                        Arc(v) => v[u(0)].id(),
                        _ => unreachable!(),
                    },
                ],
                "range" => {
                    let l: &[E] = match &mut sl[s] {
                        Vec(v) => index_range!(v, style, lo, hi),
                        Sov(v) => v.range(style, lo, hi),
                        Bs(v) => index_range!(v, style, lo, hi),
                        Arc(v) => index_range!(v, style, lo, hi),
                        _ => unreachable!(),
                    };
                    std::iter::once(1).chain(l.iter().map(|e| e.id())).collect()
                }
                "set" => {
                    let e = toks.pop().unwrap();
                    let i = u(0);
                    match &mut sl[s] {
                        Vec(v) if n[2] == 0 => v[i] = e,
                        Vec(v) => v.as_slice_mut()[i] = e,
                        Sov(v) => v.set(i, e, n[2] == 1),
                        Bs(v) => v[i] = e,
                        Bx(v) => **v = e,
                        Arc(v) => match v.as_slice_mut() {
                            Some(v) => v[i] = e,
                            Option::None => return vec![2, give(e)],
                        },
                        A1(v) => match stabby_abi::alloc::sync::Arc::get_mut(v) {
                            Some(v) => *v = e,
                            Option::None => return vec![2, give(e)],
                        },
                        _ => unreachable!(),
                    }
                    vec![0]
                }
                "truncate" => {
                    match &mut sl[s] {
                        Vec(v) => v.truncate(u(0)),
                        Sov(v) => v.truncate(u(0)),
                        _ => unreachable!(),
                    }
                    vec![0]
                }
                "reserve" => {
                    match &mut sl[s] {
                        Vec(v) => v.reserve(u(0)),
                        Sov(v) => v.reserve(u(0)),
                        _ => unreachable!(),
                    }
                    vec![0]
                }
                "try_reserve" => {
                    let (r, cap) = match &mut sl[s] {
                        Vec(v) => (v.try_reserve(u(0)).map(|x| x.into()).map_err(|_| ()), v.capacity()),
                        Sov(v) => {
                            let r = v.try_reserve(u(0));
                            (r, v.cap().0)
                        }
                        _ => unreachable!(),
                    };
                    match r {
                        Ok(c) => {
                            let c: usize = c;
                            agree(c == cap || (cap == usize::MAX && c == cap - 1), "try_reserve returned another capacity");
                            vec![0]
                        }
                        Err(()) => vec![2],
                    }
                }
                "extend" => {
                    let it = It { items: std::mem::take(&mut toks).into_iter(), left: if let Inj::Iter(_) = o.inj { upto } else { -1 }, hint: u(1) };
                    match &mut sl[s] {
                        Vec(v) => v.extend(it),
                        Sov(v) => v.extend(it),
                        _ => unreachable!(),
                    }
                    vec![0]
                }
                "clone" => {
                    let c = match &sl[s] {
                        Vec(v) => Vec(v.clone()),
                        Sov(v) => Sov(v.dup()),
                        Bx(v) => Bx(v.clone()),
                        _ => unreachable!(),
                    };
                    sl[t] = c;
                    vec![0]
                }
                "make_mut" => {
                    let e = toks.pop().unwrap();
                    let A1(v) = &mut sl[s] else { unreachable!() };
                    *stabby_abi::alloc::sync::Arc::make_mut(v) = e;
                    vec![0]
                }
                "cmp" => {
                    let (eq, c, p) = match (&sl[s], &sl[t]) {
                        (Vec(a), Vec(b)) => (**a == **b, a.cmp(b), a.partial_cmp(b).unwrap()),
                        (Bs(a), Bs(b)) => (a == b, a.cmp(b), a.partial_cmp(b).unwrap()),
                        (Arc(a), Arc(b)) => (a == b, a.cmp(b), a.partial_cmp(b).unwrap()),
                        (Sov(a), Sov(b)) => a.compare(&**b),
                        (Vec(a), Sov(b)) => {
                            let p = (**a).partial_cmp(&b.slice()).unwrap();
                            (**a == b.slice(), p, p)
                        }
                        _ => unreachable!(),
                    };
                    agree(c == p, "cmp/partial_cmp");
                    vec![eq as i64, c as i64 + 1]
                }
                "into" => {
                    let Vec(v) = take(sl) else { unreachable!() };
                    sl[s] = Into((*v).into_iter());
                    vec![0]
                }
                "drain" | "try_drain" => {
                    let Vec(v) = take(sl) else { unreachable!() };
                    let p = Box::into_raw(v);
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        use std::ops::Bound::*;
                        let v: &'static mut SVec<E, TA> = unsafe { &mut *p };
                        macro_rules! go {
                            ($r: expr) => {
                                if o.k == "drain" {
                                    Some(v.drain($r))
                                } else {
                                    v.try_drain($r)
                                }
                            };
                        }
                        match style {
                            1 => go!(lo..=hi - 1),
                            2 => go!(..hi),
                            3 => go!(lo..),
                            4 => go!(..),
                            5 => go!((Excluded(lo - 1), Excluded(hi))),
                            6 => go!(..=hi - 1),
                            7 => go!(..=usize::MAX),
                            8 => go!(lo..=usize::MAX),
                            9 => go!((Excluded(usize::MAX), Unbounded)),
                            _ => go!(lo..hi),
                        }
                    }));
                    match r {
                        Ok(Some(d)) => {
                            sl[s] = Drain(p, d);
                            vec![0]
                        }
                        Ok(Option::None) => {
                            sl[s] = Vec(unsafe { Box::from_raw(p) });
                            vec![2]
                        }
                        Err(e) => {
                            sl[s] = Vec(unsafe { Box::from_raw(p) });
                            std::panic::resume_unwind(e)
                        }
                    }
                }
                "next" | "back" => match match &mut sl[s] {
                    Into(i) => i.next(),
                    Drain(_, d) => d.next(),
                    Dd(_, d) if o.k == "next" => d.next(),
                    Dd(_, d) => d.next_back(),
                    _ => unreachable!(),
                } {
                    Some(e) => vec![1, give(e)],
                    Option::None => vec![0],
                },
                "len" => {
                    let (l, h) = match &sl[s] {
                        Drain(_, d) => (d.len(), d.size_hint()),
                        Dd(_, d) => (d.len(), d.size_hint()),
                        _ => unreachable!(),
                    };
                    agree(h == (l, Some(l)), "size_hint");
                    vec![l as i64]
                }
                "dd" => {
                    let Drain(p, d) = take(sl) else { unreachable!() };
                    sl[s] = Dd(p, d.double_ended());
                    vec![0]
                }
                "stop" => {
                    let Drain(p, d) = take(sl) else { unreachable!() };
                    d.stop();
                    sl[s] = Vec(unsafe { Box::from_raw(p) });
                    vec![0]
                }
                "forget" => {
                    match take(sl) {
                        Drain(p, d) => {
                            std::mem::forget(d);
                            sl[s] = Vec(unsafe { Box::from_raw(p) });
                        }
                        Dd(p, d) => {
                            std::mem::forget(d);
                            sl[s] = Vec(unsafe { Box::from_raw(p) });
                        }
                        _ => unreachable!(),
                    }
                    vec![0]
                }
                "tobs" => {
                    let Vec(v) = take(sl) else { unreachable!() };
                    sl[s] = Bs((*v).into());
                    vec![0]
                }
                "tosov" => {
                    let Vec(v) = take(sl) else { unreachable!() };
                    let Ok(x) = E::sov_from(*v) else { unreachable!() };
                    sl[s] = Sov(x);
                    vec![0]
                }
                "toarc" => {
                    match take(sl) {
                        Vec(v) => sl[s] = Arc((*v).into()),
                        A1(v) => sl[s] = Arc(v.into()),
                        _ => unreachable!(),
                    }
                    vec![0]
                }
                "tovec" => {
                    match take(sl) {
                        Bs(b) => sl[s] = Vec(Box::new(b.into())),
                        Sov(v) => sl[s] = Vec(Box::new(v.into_vec())),
                        Arc(x) => match SVec::try_from(x) {
                            Ok(v) => sl[s] = Vec(Box::new(v)),
                            Err(x) => {
                                sl[s] = Arc(x);
                                return vec![2];
                            }
                        },
                        _ => unreachable!(),
                    }
                    vec![0]
                }
                "inner" => match take(sl) {
                    Bx(b) => vec![1, give(SBox::into_inner(b))],
                    A1(x) => match stabby_abi::alloc::sync::Arc::try_into_inner(x) {
                        Ok(e) => vec![1, give(e)],
                        Err(x) => {
                            sl[s] = A1(x);
                            vec![2]
                        }
                    },
                    _ => unreachable!(),
                },
                "raw" => unsafe {
                    sl[s] = match take(sl) {
                        Bx(b) => Bx(SBox::from_raw(SBox::into_raw(b))),
                        A1(b) => A1(stabby_abi::alloc::sync::Arc::from_raw(stabby_abi::alloc::sync::Arc::into_raw(b))),
                        Arc(b) => Arc(ArcSlice::from_raw(ArcSlice::into_raw(b))),
                        W1(b) => W1(stabby_abi::alloc::sync::Weak::from_raw(stabby_abi::alloc::sync::Weak::into_raw(b))),
                        _ => unreachable!(),
                    };
                    vec![0]
                },
                "share" => {
                    let c = match &sl[s] {
                        Arc(x) => Arc(if n[0] == 0 { x.clone() } else { x.into() }),
                        A1(x) => A1(if n[0] == 0 { x.clone() } else { x.into() }),
                        _ => unreachable!(),
                    };
                    sl[t] = c;
                    vec![0]
                }
                "downgrade" => {
                    let c = match &sl[s] {
                        Arc(x) => Weak(x.into()),
                        A1(x) => W1(stabby_abi::alloc::sync::Arc::downgrade(x)),
                        _ => unreachable!(),
                    };
                    sl[t] = c;
                    vec![0]
                }
                "wshare" => {
                    let c = match &sl[s] {
                        Weak(x) => Weak(if n[0] == 0 { x.clone() } else { x.into() }),
                        W1(x) => W1(if n[0] == 0 { x.clone() } else { x.into() }),
                        _ => unreachable!(),
                    };
                    sl[t] = c;
                    vec![0]
                }
                "upgrade" => {
                    let c = match &sl[s] {
                        Weak(x) => x.upgrade().map(Arc),
                        W1(x) => x.upgrade().map(A1),
                        _ => unreachable!(),
                    };
                    match c {
                        Some(c) => {
                            sl[t] = c;
                            vec![1]
                        }
                        Option::None => vec![0],
                    }
                }
                "counts" => match &sl[s] {
                    Arc(x) => vec![ArcSlice::strong_count(x) as i64, ArcSlice::weak_count(x) as i64],
                    A1(x) => vec![stabby_abi::alloc::sync::Arc::strong_count(x) as i64, stabby_abi::alloc::sync::Arc::weak_count(x) as i64],
                    _ => unreachable!(),
                },
                "drop" => {
                    match take(sl) {
                        Drain(p, d) => {
                            let r = catch_unwind(AssertUnwindSafe(|| drop(d)));
                            sl[s] = Vec(unsafe { Box::from_raw(p) });
                            if let Err(e) = r {
                                std::panic::resume_unwind(e);
                            }
                        }
                        Dd(p, d) => {
                            let r = catch_unwind(AssertUnwindSafe(|| drop(d)));
                            sl[s] = Vec(unsafe { Box::from_raw(p) });
                            if let Err(e) = r {
                                std::panic::resume_unwind(e);
                            }
                        }
                        x => drop(x),
                    }
                    vec![0]
                }
                _ => unreachable!(),
            }
        }));
        let q = talloc::requests() - q0;
        let (mut f, mut p) = (0, 0);
        match o.inj {
            Inj::Fail(_) => f = !talloc::failure_pending() as i64,
            Inj::Clone(_) => p = (tok::fuse() < 0) as i64,
            Inj::Drop(_) => p = (tok::drop_fuse() < 0) as i64,
            Inj::Iter(_) => p = (o.k == "extend" && res.is_err()) as i64,
            Inj::No => {}
        }
        if p == 0 || !matches!(o.inj, Inj::Iter(_)) {
            upto = if o.k == "extend" { n[0] } else { 0 };
        }
        talloc::fail_at(-1);
        tok::set_fuse(-1);
        tok::set_drop_fuse(-1);
        drop(toks);
        let r = res.unwrap_or(vec![-1]);
        talloc::audit();
        let mut x = fx::take();
        let w: std::vec::Vec<J> = self.sl.iter_mut().map(|s| J::from(proj(s))).collect();
        let more = fx::take();
        x.bad.extend(pre.bad);
        x.bad.extend(more.bad);
        let v = tok::vals();
        let nv = if E::Z { vec![] } else { v[self.nvals..].to_vec() };
        self.nvals = v.len();
        self.ev.push(obj! {k: o.k, s: s + 1, t: t + 1, a: J::L(a), n: upto, r: r, d: x.dj(), c: x.cj(), f: f, p: p, q: q as i64, nb: talloc::live().len(), nv: nv, w: J::L(w), bad: x.badj()});
        true
    }
    fn finish(mut self) -> std::vec::Vec<J> {
        for _ in 0..2 {
            for s in 0..NS {
                self.exec(&op("drop", s, 0, [0; 3]));
            }
        }
        self.held.clear();
        talloc::audit();
        let x = fx::take();
        let live: std::vec::Vec<i64> = if E::Z { (0..ZLIVE.load(SeqCst)).map(|_| 0).collect() } else { tok::live().into_iter().map(|i| i as i64).collect() };
        self.ev.push(obj! {k: "end", s: 0, t: 0, a: live, nb: talloc::live().len(), bad: x.badj()});
        std::mem::take(&mut self.ev)
    }
}
fn run<E: Elem>(out: &mut Out, prog: &[Op], what: &str) {
    let d = format!("{what}<{}> {prog:?}", std::any::type_name::<E>());
    out.begin(&d);
    let mut w = World::<E>::new();
    for o in prog {
        w.exec(o);
    }
    let ev = w.finish();
    out.trace_meta(obj! {z: E::Z}, ev, d.into());
}
/// Runs `prog` on every element type that `i` selects.
fn run_all(out: &mut Out, prog: &[Op], what: &str, i: usize) {
    match i % 7 {
        0 | 1 => run::<Tok>(out, prog, what),
        2 => run::<Wide>(out, prog, what),
        3 => run::<Zst>(out, prog, what),
        4 => run::<Huge>(out, prog, what),
        5 => run::<Padded>(out, prog, what),
        _ => run::<Mid>(out, prog, what),
    }
    if i % 14 == 3 {
        run::<ZstA>(out, prog, what);
    }
}
/// The ways to have `n` elements in a vector in slot 0 with `spare` room, as a prefix of operations.
fn setup(n: i64, spare: i64) -> std::vec::Vec<Op> {
    let mut v = vec![op("withcap", 0, 0, [0, n + spare, 0])];
    v.extend((0..n).map(|i| op("push", 0, 0, [i, 0, 0])));
    v
}
fn alphabet(len: i64) -> std::vec::Vec<Op> {
    let mut v = vec![];
    for k in ["push", "try_push", "pop", "into"] {
        v.push(op(k, 0, 1, [1, 0, 0]));
    }
    for i in 0..=len {
        for k in ["remove", "swap_remove", "truncate", "get"] {
            v.push(op(k, 0, 1, [i, 0, 0]));
        }
        v.push(op("set", 0, 1, [i, 0, i % 2]));
    }
    for (i, j) in [(0, 0), (0, len - 1), (1, 0), (len, 0), (0, len)] {
        v.push(op("swap", 0, 1, [i.max(0), j.max(0), 0]));
    }
    for (lo, hi) in [(0, 0), (0, 1), (0, len), (1, len), (1, 2), (len, len), (len, len + 1), (2, 1), (0, len + 1)] {
        for k in ["drain", "try_drain", "range"] {
            v.push(op(k, 0, 1, [lo, hi, (lo + hi + len) % 7]));
        }
    }
    for k in ["drain", "try_drain"] {
        for style in 7..10 {
            v.push(op(k, 0, 1, [1, 1, style]));
        }
    }
    for a in [0, 1, 3, 9] {
        v.push(op("reserve", 0, 1, [a, 0, 0]));
        v.push(op("try_reserve", 0, 1, [a, 0, 0]));
    }
    v.push(op("try_reserve", 0, 1, [1 << 60, 0, 0]));
    v.push(op("try_reserve", 0, 1, [i64::MAX, 0, 0]));
    v.push(op("reserve", 0, 1, [1 << 60, 0, 0]));
    for (k, h) in [(0, 0), (1, 0), (2, 2), (2, 5), (9, 3)] {
        v.push(op("extend", 0, 1, [k, h, 0]));
    }
    v.push(op("clone", 0, 1, [0; 3]));
    v
}
const BEHIND: i64 = 1_000_000;
const DRAINING: &[&str] = &["next", "back", "len", "dd", "stop", "forget", "drop", "next", "back"];
fn random_prog(r: &mut Rng, ops: &[&'static str], len: usize, slots: usize, inj: usize) -> std::vec::Vec<Op> {
    (0..len)
        .map(|_| {
            let k = *r.pick(ops);
            let mut n = [r.below(6) as i64, r.below(6) as i64, r.below(7) as i64];
            match k {
                "withcap" => n = [r.below(2) as i64, r.below(5) as i64, r.below(2) as i64],
                "new" | "newbox" | "newarc" | "makefail" | "share" | "wshare" => n[0] = r.below(2) as i64,
                "set" => n[2] = r.below(2) as i64,
                "try_reserve" if r.chance(1, 10) => n[0] = *r.pick(&[1 << 40, 1 << 60, i64::MAX]),
                "extend" if r.chance(1, 5) => n[0] = 12,
                "drain" | "try_drain" | "range" => n[1] = n[0] + r.below(4) as i64 - r.chance(1, 6) as i64,
                _ => {}
            }
            if matches!(k, "drain" | "try_drain") && r.chance(1, 12) {
                n[2] = 7 + r.below(3) as i64;
            }
            if matches!(k, "drain" | "try_drain" | "range") && n[1] < 0 {
                n[1] = 0;
            }
            let s = r.below(slots);
            let inj = if !r.chance(inj, 100) {
                Inj::No
            } else {
                match k {
                    "extend" if r.chance(1, 2) => Inj::Iter(r.below(4) as i64),
                    "clone" | "make_mut" if r.chance(1, 2) => Inj::Clone(r.below(3) as i64),
                    "drop" | "truncate" => Inj::Drop(r.below(3) as i64),
                    _ => Inj::Fail(if r.chance(3, 4) { 0 } else { r.below(3) as i64 }),
                }
            };
            Op { k, s, t: r.below(slots), n, inj }
        })
        .collect()
}
fn main() {
    let args = vharness::args();
    let mut out = Out::new(&args.out, &args.suite);
    let mut rng = Rng::new(args.seed * 104729 + 5);
    let scale = if args.thorough { 15 } else { 1 };
    const VEC: &[&str] = &["push", "push", "try_push", "pop", "remove", "swap_remove", "swap", "get", "set", "range", "truncate", "reserve", "try_reserve", "extend", "clone", "cmp", "into", "drain", "try_drain", "next", "next", "back", "len", "dd", "stop", "forget", "drop", "new", "withcap", "collect"];
    const SOV: &[&str] = &["push", "push", "push", "try_push", "get", "set", "set", "range", "truncate", "truncate", "reserve", "try_reserve", "extend", "clone", "cmp", "drop", "new", "new", "withcap", "tosov", "tovec", "collect"];
    const CONV: &[&str] = &["push", "try_push", "try_push", "pop", "get", "set", "range", "truncate", "reserve", "extend", "clone", "make_mut", "cmp", "tobs", "tobs", "tosov", "tovec", "tovec", "tovec", "toarc", "toarc", "inner", "raw", "share", "downgrade", "wshare", "upgrade", "counts", "drop", "drop", "newbox", "newarc", "collect", "new", "withcap", "into", "next"];
    const ALL: &[&str] = &["push", "push", "try_push", "pop", "remove", "swap_remove", "set", "truncate", "truncate", "reserve", "try_reserve", "extend", "extend", "clone", "clone", "make_mut", "tobs", "tosov", "tovec", "toarc", "inner", "raw", "share", "downgrade", "upgrade", "drop", "drop", "drop", "newbox", "newarc", "makefail", "collect", "new", "withcap", "into", "next", "next", "back", "drain", "try_drain", "dd", "stop"];
    match args.suite.as_str() {
        "C01" => {
            // every single operation, and every pair (a sample of them in the quick tier), from every small vector
            let mut i = 0;
            for n in 0..5 {
                for spare in [0, 1, 4] {
                    for a in alphabet(n) {
                        i += 1;
                        let mut p = setup(n, spare);
                        let sub = matches!(a.k, "drain" | "try_drain" | "into");
                        p.push(a);
                        if sub {
                            // every short way to use what it returned
                            for (x, k1) in DRAINING.iter().enumerate() {
                                for (y, k2) in DRAINING.iter().enumerate() {
                                    let mut p = p.clone();
                                    p.push(op(k1, 0, 1, [0; 3]));
                                    p.push(op(k2, 0, 1, [0; 3]));
                                    for k in [DRAINING[(x * 5 + y + i) % 9], DRAINING[(x + y * 3 + i) % 9], "push", "len", "push"] {
                                        p.push(op(k, 0, 1, [0; 3]));
                                    }
                                    run_all(&mut out, &p, "pair", i + x * 9 + y);
                                }
                            }
                        } else {
                            for b in alphabet(n) {
                                if !args.thorough && !rng.chance(1, 7) {
                                    continue;
                                }
                                let mut p = p.clone();
                                p.push(b);
                                p.push(op("push", 0, 1, [2, 0, 0]));
                                run_all(&mut out, &p, "pair", rng.below(14));
                            }
                        }
                    }
                }
            }
            for i in 0..1500 * scale {
                let len = 12 + rng.below(50);
                let p = random_prog(&mut rng, VEC, len, 2 + i % 2, 0);
                run_all(&mut out, &p, "random", i);
            }
        }
        "C03" => {
            for i in 0..4500 * scale {
                let len = 3 + rng.below(36);
                let mut p = vec![op("new", 0, 0, [1, 0, 0])];
                p.extend(random_prog(&mut rng, SOV, len, 2, if i % 3 == 0 { 30 } else { 0 }));
                for o in &mut p {
                    if matches!(o.k, "new" | "withcap") {
                        o.n[0] = 1;
                    }
                }
                if i % 2 == 0 {
                    run::<Tok>(&mut out, &p, "random")
                } else {
                    run::<Padded>(&mut out, &p, "random")
                }
            }
        }
        "C04" => {
            // every chain of conversions from every small content
            let conv = ["tobs", "tosov", "tovec", "toarc", "try_push", "raw", "share"];
            let mut i = 0;
            for n in 0..4 {
                for spare in [0, 1] {
                    for c in 0..conv.len().pow(4) {
                        let mut p = setup(n, spare);
                        let mut c = c;
                        for _ in 0..4 {
                            p.push(op(conv[c % conv.len()], 0, 1, [0; 3]));
                            c /= conv.len();
                        }
                        p.extend([op("counts", 0, 0, [0; 3]), op("tovec", 0, 1, [0; 3]), op("push", 0, 1, [1, 0, 0])]);
                        i += 1;
                        if args.thorough {
                            for j in 0..7 {
                                run_all(&mut out, &p, "chain", j);
                            }
                        } else if rng.chance(1, 4) {
                            run_all(&mut out, &p, "chain", i);
                        }
                    }
                }
            }
            for i in 0..2200 * scale {
                let len = 15 + rng.below(70);
                let p = random_prog(&mut rng, CONV, len, 3, 0);
                run_all(&mut out, &p, "random", i);
            }
        }
        "C02" => {
            for i in 0..4500 * scale {
                let len = 15 + rng.below(60);
                let mut p = random_prog(&mut rng, ALL, len, 3, 35);
                for o in &mut p {
                    if matches!(o.inj, Inj::Fail(_)) {
                        o.inj = Inj::No;
                    }
                }
                run_all(&mut out, &p, "random", i);
            }
        }
        "C05" => {
            // every operation that may allocate, from every small state, with each of its requests refused; then use it again
            for n in 0..4 {
                for spare in [0, 1] {
                    for k in ["push", "try_push", "reserve", "try_reserve", "extend", "clone", "tosov", "toarc", "tobs"] {
                        for fail in 0..4 {
                            for j in 0..7 {
                                for pre in ["", "tosov", "tobs", "toarc"] {
                                    let mut p = setup(n, spare);
                                    if n + spare == 0 && pre == "tosov" {
                                        p = vec![op("new", 0, 0, [1, 0, 0])];
                                        p.push(op("push", 0, 0, [0; 3]));
                                    }
                                    if pre != "" {
                                        p.push(op(pre, 0, 1, [0; 3]));
                                    }
                                    let mut o = op(k, 0, 1, [3, 3 * (j as i64 % 2), 0]);
                                    o.inj = Inj::Fail(fail);
                                    p.push(o);
                                    for k in ["tovec", "push", "try_push", "pop", "truncate"] {
                                        p.push(op(k, 0, 1, [1, 0, 0]));
                                    }
                                    run_all(&mut out, &p, "refused", j);
                                }
                            }
                        }
                    }
                }
            }
            for i in 0..3000 * scale {
                let len = 15 + rng.below(60);
                let mut p = random_prog(&mut rng, ALL, len, 3, 40);
                for o in &mut p {
                    if matches!(o.inj, Inj::Drop(_) | Inj::Clone(_) | Inj::Iter(_)) {
                        o.inj = Inj::Fail(0);
                    }
                }
                run_all(&mut out, &p, "random", i);
            }
        }
        x => panic!("unknown suite {x}"),
    }
    out.finish();
}
