//! Trait objects: makes objects of a dozen types behind every kind of pointer and set of traits, calls, borrows,
//! upcasts, downcasts, clones and drops them, and records which code ran on which data (spec/DynObj.tla).
use core::mem::MaybeUninit;
use stabby::{dynptr, vtable, Any, Dyn, DynRef};
use stabby_abi::vtable::{VTable, VtSend, VtSync};
use stabby_abi::IntoSuperTrait;
use stabby_abi::alloc::{boxed::Box as SBox, sync::{Arc as SArc, Weak as SWeak}};
use stabby_abi::slice::Slice;
use std::sync::Mutex;
use vharness::{catch, fx, obj, talloc, tok, Out, Rng, Tok, TrackAlloc as TA, J};

// ---- the traits ------------------------------------------------------------------------------------------------
#[stabby::stabby(checked)]
pub trait Ta {
    extern "C" fn ta_add(&mut self, x: i64) -> i64;
    extern "C" fn ta_get(&self, x: i64) -> i64;
    extern "C" fn ta_mix(&self, a: u8, b: u32, c: i64) -> i64;
    extern "C" fn ta_where(&self) -> usize;
    extern "C" fn ta_def(&self, x: i64) -> i64 {
        self.ta_get(x) + 1
    }
}
#[stabby::stabby(checked)]
pub trait Tb<X> {
    type Out;
    extern "C" fn tb_conv(&self, x: X) -> Self::Out;
    extern "C" fn tb_swap(&mut self, x: X, y: Self::Out) -> X;
    extern "C" fn tb_twice<'a>(&'a self, x: X, y: &'a Self::Out) -> stabby_abi::Tuple<Self::Out, i64>;
}
#[stabby::stabby(checked)]
pub trait Tc: Ta {
    extern "C-unwind" fn tc_boom(&mut self, x: i64) -> i64;
    extern "C" fn tc_pick<'a>(&'a self, a: &'a i64, b: &'a i64, first: bool) -> &'a i64;
    extern "C" fn tc_eat<'a>(&self, t: Tok, s: Slice<'a, u8>) -> i64;
    /// Same signature as `Ta::ta_add`, other code.
    extern "C" fn tc_sub(&mut self, x: i64) -> i64;
}

// ---- the types -------------------------------------------------------------------------------------------------
pub trait Ty: 'static {
    const TAG: i64;
    fn mk(v: i64, id: i64) -> Self;
    fn v(&self) -> i64;
    fn set(&mut self, v: i64);
    fn id(&self) -> i64 {
        0
    }
}
static DROPS: Mutex<Vec<Vec<i64>>> = Mutex::new(Vec::new());
fn drops() -> J {
    J::L(std::mem::take(&mut *DROPS.lock().unwrap()).into_iter().map(J::from).collect())
}
macro_rules! logged {
    ($t: ty) => {
        impl Drop for $t {
            fn drop(&mut self) {
                let e = vec![<$t as Ty>::TAG, self.v(), Ty::id(self)];
                DROPS.lock().unwrap().push(e);
            }
        }
    };
}
macro_rules! record {
    ($tag: literal, $t: ty $(, $x: ident = $e: expr)*) => {
        impl Ty for $t {
            const TAG: i64 = $tag;
            fn mk(v: i64, id: i64) -> Self {
                Self { v, id $(, $x: $e)* }
            }
            fn v(&self) -> i64 {
                self.v
            }
            fn set(&mut self, v: i64) {
                self.v = v
            }
            fn id(&self) -> i64 {
                self.id
            }
        }
        logged!($t);
    };
}
#[stabby::stabby]
pub struct A {
    pub v: i64,
    pub id: i64,
}
record!(0, A);
#[stabby::stabby]
pub struct B {
    pub v: i64,
    pub id: i64,
}
record!(1, B);
pub mod other {
    #[stabby::stabby]
    pub struct A {
        pub v: i64,
        pub id: i64,
    }
}
record!(2, other::A);
pub mod swapped {
    #[stabby::stabby(module = "dynobj")]
    pub struct A {
        pub id: i64,
        pub v: i64,
    }
}
record!(3, swapped::A);
pub mod version {
    #[stabby::stabby(module = "dynobj", version = 1)]
    pub struct A {
        pub v: i64,
        pub id: i64,
    }
}
record!(4, version::A);
#[stabby::stabby]
pub struct G<T> {
    pub v: i64,
    pub id: i64,
    pub x: T,
}
macro_rules! generic {
    ($($tag: literal $t: ty),*) => {
        $(impl Ty for G<$t> {
            const TAG: i64 = $tag;
            fn mk(v: i64, id: i64) -> Self {
                Self { v, id, x: 7 }
            }
            fn v(&self) -> i64 {
                self.v
            }
            fn set(&mut self, v: i64) {
                self.v = v
            }
            fn id(&self) -> i64 {
                self.id
            }
        })*
    };
}
generic!(5 u8, 6 i8);
impl<T> Drop for G<T> {
    fn drop(&mut self) {
        let tag = if std::any::type_name::<T>() == "u8" { 5 } else { 6 };
        DROPS.lock().unwrap().push(vec![tag, self.v, self.id]);
    }
}
#[stabby::stabby]
pub struct S {
    v: u8,
}
impl Ty for S {
    const TAG: i64 = 7;
    fn mk(v: i64, _: i64) -> Self {
        Self { v: v as u8 }
    }
    fn v(&self) -> i64 {
        self.v as i64
    }
    fn set(&mut self, v: i64) {
        self.v = v as u8
    }
}
logged!(S);
#[stabby::stabby]
pub struct Z {}
impl Ty for Z {
    const TAG: i64 = 8;
    fn mk(_: i64, _: i64) -> Self {
        Self {}
    }
    fn v(&self) -> i64 {
        0
    }
    fn set(&mut self, _: i64) {}
}
logged!(Z);
#[stabby::stabby]
#[repr(align(64))]
pub struct O {
    pub v: i64,
    pub id: i64,
}
record!(9, O);
#[stabby::stabby(no_opt)]
pub struct F {
    pub pad: [u8; 3],
    pub v: i64,
    pub id: i64,
    pub extra: u16,
}
record!(10, F, pad = [9; 3], extra = 77);
impl Ty for u8 {
    const TAG: i64 = 11;
    fn mk(v: i64, _: i64) -> Self {
        v as u8
    }
    fn v(&self) -> i64 {
        *self as i64
    }
    fn set(&mut self, v: i64) {
        *self = v as u8
    }
}
impl Ty for MaybeUninit<u8> {
    const TAG: i64 = 12;
    fn mk(v: i64, _: i64) -> Self {
        MaybeUninit::new(v as u8)
    }
    fn v(&self) -> i64 {
        unsafe { self.assume_init() as i64 }
    }
    fn set(&mut self, v: i64) {
        *self = MaybeUninit::new(v as u8)
    }
}
/// `A` and more fields at its end.
pub mod longer {
    #[stabby::stabby(module = "dynobj")]
    pub struct A {
        pub v: i64,
        pub id: i64,
        pub more: u8,
    }
}
record!(13, longer::A, more = 1);
const TAGS: usize = 14;
macro_rules! per_type {
    ($m: ident $($x: tt)*) => {
        $m! { [0 A, 1 B, 2 other::A, 3 swapped::A, 4 version::A, 5 G<u8>, 6 G<i8>, 7 S, 8 Z, 9 O, 10 F, 11 u8, 12 MaybeUninit<u8>, 13 longer::A] $($x)* }
    };
}
static OUT: i64 = 0;
macro_rules! implement {
    ([$($tag: literal $t: ty),*]) => {
        $(impl Ta for $t {
            extern "C" fn ta_add(&mut self, x: i64) -> i64 {
                self.set(self.v() + x);
                self.v() + 1000 * $tag
            }
            extern "C" fn ta_get(&self, x: i64) -> i64 {
                self.v() + 1000 * $tag + x
            }
            extern "C" fn ta_mix(&self, a: u8, b: u32, c: i64) -> i64 {
                a as i64 + 3 * b as i64 + 5 * c + 7 * self.v() + 1000 * $tag
            }
            extern "C" fn ta_where(&self) -> usize {
                self as *const Self as usize
            }
        }
        impl Tb<u8> for $t {
            type Out = i64;
            extern "C" fn tb_conv(&self, x: u8) -> i64 {
                2 * x as i64 + self.v() + 1000 * $tag + 1
            }
            extern "C" fn tb_swap(&mut self, x: u8, y: i64) -> u8 {
                let old = self.v() % 256;
                self.set(x as i64 + y);
                old as u8
            }
            extern "C" fn tb_twice<'a>(&'a self, x: u8, y: &'a i64) -> stabby_abi::Tuple<i64, i64> {
                stabby_abi::Tuple(*y + x as i64, self.v() + 1000 * $tag)
            }
        }
        impl Tc for $t {
            extern "C-unwind" fn tc_boom(&mut self, x: i64) -> i64 {
                self.set(self.v() + x);
                panic!("boom")
            }
            extern "C" fn tc_pick<'a>(&'a self, a: &'a i64, b: &'a i64, first: bool) -> &'a i64 {
                if $tag < 0 {
                    return &OUT;
                }
                if first { a } else { b }
            }
            extern "C" fn tc_eat<'a>(&self, t: Tok, s: Slice<'a, u8>) -> i64 {
                t.id();
                t.val + s.iter().map(|x| *x as i64).sum::<i64>() + self.v() + 1000 * $tag
            }
            extern "C" fn tc_sub(&mut self, x: i64) -> i64 {
                self.set(self.v() + 2 * x);
                self.v() + 1000 * $tag + 500
            }
        })*
    };
}
per_type!(implement);

// ---- the sets of traits ----------------------------------------------------------------------------------------
type V0 = stabby_abi::vtable::VtDrop;
type V1 = VTable<StabbyVtableTa, V0>;
type V2 = VTable<stabby_abi::vtable::StabbyVtableAny, VTable<StabbyVtableTa, V0>>;
type V3 = VTable<StabbyVtableTb<i64, u8>, VTable<stabby_abi::vtable::StabbyVtableAny, VTable<StabbyVtableTa, V0>>>;
type V4 = VTable<StabbyVtableTc, VTable<StabbyVtableTb<i64, u8>, VTable<stabby_abi::vtable::StabbyVtableAny, VTable<StabbyVtableTa, V0>>>>;
type V5 = VtSend<VTable<stabby_abi::vtable::StabbyVtableAny, VTable<StabbyVtableTa, V0>>>;
type V6 = VtSend<VTable<StabbyVtableTb<i64, u8>, VTable<stabby_abi::vtable::StabbyVtableAny, VTable<StabbyVtableTa, V0>>>>;
type V7 = VtSend<VTable<StabbyVtableTc, VTable<StabbyVtableTb<i64, u8>, VTable<stabby_abi::vtable::StabbyVtableAny, VTable<StabbyVtableTa, V0>>>>>;
type V8 = VtSync<VtSend<VTable<StabbyVtableTc, VTable<StabbyVtableTb<i64, u8>, VTable<stabby_abi::vtable::StabbyVtableAny, VTable<StabbyVtableTa, V0>>>>>>;
type V9 = VtSend<VtSync<VTable<StabbyVtableTc, VTable<StabbyVtableTb<i64, u8>, VTable<stabby_abi::vtable::StabbyVtableAny, VTable<StabbyVtableTa, V0>>>>>>;
type V10 = VtSync<VtSend<VTable<StabbyVtableTb<i64, u8>, VTable<stabby_abi::vtable::StabbyVtableAny, VTable<StabbyVtableTa, V0>>>>>;
type V11 = VtSend<VtSync<VTable<StabbyVtableTb<i64, u8>, VTable<stabby_abi::vtable::StabbyVtableAny, VTable<StabbyVtableTa, V0>>>>>;
type V12 = VtSync<VTable<StabbyVtableTb<i64, u8>, VTable<stabby_abi::vtable::StabbyVtableAny, VTable<StabbyVtableTa, V0>>>>;
type V13 = VtSync<VTable<StabbyVtableTc, VTable<StabbyVtableTb<i64, u8>, VTable<stabby_abi::vtable::StabbyVtableAny, VTable<StabbyVtableTa, V0>>>>>;
type V14 = VTable<stabby_abi::vtable::StabbyVtableAny, VTable<StabbyVtableTa, VTable<StabbyVtableTb<i64, u8>, VtSend<VTable<StabbyVtableTc, V0>>>>>;
type V15 = VTable<StabbyVtableTa, VTable<StabbyVtableTb<i64, u8>, VtSend<VTable<StabbyVtableTc, V0>>>>;
type V16 = VTable<StabbyVtableTb<i64, u8>, VtSend<VTable<StabbyVtableTc, V0>>>;
type V17 = VtSend<VTable<StabbyVtableTc, V0>>;
type V18 = VTable<StabbyVtableTc, V0>;
type V19 = VtSync<VTable<StabbyVtableTa, VTable<StabbyVtableTc, VTable<stabby_abi::vtable::StabbyVtableAny, V0>>>>;
const VTS: usize = 20;

#[derive(Clone, Debug, PartialEq)]
enum R {
    /// The trait isn't there.
    Absent,
    Got(Vec<i64>),
}
/// A handle on a trait object.
trait H {
    /// Calls method `m`; how: 0 directly, 1 via as_ref, 2 via as_mut, 3 via try_as_mut.
    fn call(&mut self, how: usize, m: usize, a: &[i64]) -> R;
    /// Downcasts to type `tag`; how: 0 stable ref, 1 stable mut (writing `w`), 2 ref, 3 mut (writing `w`), 4 stable via as_ref, 5 via as_ref.
    fn down(&mut self, how: usize, tag: usize, w: i64) -> R;
    fn up(self: Box<Self>, to: usize) -> Result<Box<dyn H>, Box<dyn H>>;
    fn dup(&self) -> Option<Box<dyn H>> {
        None
    }
    fn downgrade(&self) -> Option<Box<dyn H>> {
        None
    }
    fn upgrade(self: Box<Self>) -> Option<Box<dyn H>> {
        None
    }
}
const MUTS: [usize; 4] = [0, 5, 7, 10];
macro_rules! call_ref {
    // methods of each trait present, taking &self
    ($d: expr, $m: expr, $a: expr; $($t: ident)*) => {{
        let (m, a): (usize, &[i64]) = ($m, $a);
        $(call_ref!(@$t $d, m, a);)*
        R::Absent
    }};
    (@ta $d: expr, $m: ident, $a: ident) => {
        match $m {
            1 => return R::Got(vec![$d.ta_get($a[0])]),
            2 => return R::Got(vec![$d.ta_mix($a[0] as u8, $a[1] as u32, $a[2])]),
            3 => return R::Got(vec![$d.ta_def($a[0])]),
            12 => return R::Got(vec![$d.ta_where() as i64]),
            _ => {}
        }
    };
    (@tb $d: expr, $m: ident, $a: ident) => {
        match $m {
            4 => return R::Got(vec![$d.tb_conv($a[0] as u8)]),
            6 => {
                let t = $d.tb_twice($a[0] as u8, &$a[1]);
                return R::Got(vec![t.0, t.1]);
            }
            _ => {}
        }
    };
    (@tc $d: expr, $m: ident, $a: ident) => {
        match $m {
            8 => {
                let (x, y) = ($a[0], $a[1]);
                let p: *const i64 = $d.tc_pick(&x, &y, $a[2] % 2 == 1);
                return R::Got(vec![if p == &x as *const i64 { 1 } else if p == &y as *const i64 { 2 } else { 0 }]);
            }
            9 => {
                let t = Tok::new($a[0]);
                let s = [$a[1] as u8, $a[2] as u8];
                return R::Got(vec![$d.tc_eat(t, (&s[..]).into())]);
            }
            _ => {}
        }
    };
    (@any $d: expr, $m: ident, $a: ident) => {
        match $m {
            11 => {
                let (r, i) = $d.anyof();
                let n = reports().iter().position(|x| std::ptr::eq(x.0, r) || *x.0 == *r).map_or(-1, |x| x as i64);
                let i = reports()[n.max(0) as usize].1 == i;
                return R::Got(vec![n, i as i64]);
            }
            _ => {}
        }
    };
}
macro_rules! call_mut {
    ($d: expr, $m: expr, $a: expr; $($t: ident)*) => {{
        let (m, a): (usize, &[i64]) = ($m, $a);
        $(call_mut!(@$t $d, m, a);)*
        R::Absent
    }};
    (@ta $d: expr, $m: ident, $a: ident) => {
        if $m == 0 {
            return R::Got(vec![$d.ta_add($a[0])]);
        }
    };
    (@tb $d: expr, $m: ident, $a: ident) => {
        if $m == 5 {
            return R::Got(vec![$d.tb_swap($a[0] as u8, $a[1]) as i64]);
        }
    };
    (@tc $d: expr, $m: ident, $a: ident) => {
        if $m == 7 {
            return R::Got(vec![$d.tc_sub($a[0])]);
        }
        if $m == 10 {
            return R::Got(vec![catch(|| $d.tc_boom($a[0])).unwrap_or(-1)]);
        }
    };
    (@any $d: expr, $m: ident, $a: ident) => {};
}
trait AnyOf<N> {
    fn anyof(&self) -> (&'static stabby_abi::report::TypeReport, u64);
}
impl<P: stabby_abi::IPtrOwned + stabby_abi::IPtr, Vt: Copy + stabby_abi::vtable::HasDropVt + stabby_abi::vtable::TransitiveDeref<stabby_abi::vtable::StabbyVtableAny, N>, N> AnyOf<N> for Dyn<'_, P, Vt> {
    fn anyof(&self) -> (&'static stabby_abi::report::TypeReport, u64) {
        use stabby_abi::vtable::AnyDyn;
        (AnyDyn::report(self), AnyDyn::id(self))
    }
}
impl<Vt: Copy + stabby_abi::vtable::TransitiveDeref<stabby_abi::vtable::StabbyVtableAny, N>, N> AnyOf<N> for DynRef<'_, Vt> {
    fn anyof(&self) -> (&'static stabby_abi::report::TypeReport, u64) {
        use stabby_abi::vtable::AnyDyn;
        (AnyDyn::report(self), AnyDyn::id(self))
    }
}
fn reports() -> &'static Vec<(&'static stabby_abi::report::TypeReport, u64)> {
    macro_rules! l {
        ([$($tag: literal $t: ty),*]) => { vec![$((<$t as stabby_abi::IStable>::REPORT, <$t as stabby_abi::IStable>::ID)),*] };
    }
    static L: std::sync::OnceLock<Vec<(&'static stabby_abi::report::TypeReport, u64)>> = std::sync::OnceLock::new();
    L.get_or_init(|| per_type!(l))
}
/// Whether `f` says yes, then what the value behind the reference looks like.
fn seen<T: Ty>(r: Option<&T>) -> R {
    R::Got(r.map_or(vec![0, 0, 0], |r| vec![1, r.v(), r as *const T as i64]))
}
fn written<T: Ty>(r: Option<&mut T>, w: i64) -> R {
    R::Got(r.map_or(vec![0, 0, 0], |r| {
        let x = vec![1, r.v(), r as *const T as i64];
        r.set(w);
        x
    }))
}
macro_rules! down_vt {
    ([$($tag: literal $t: ty),*] $d: expr, $tag0: expr, $f: ident) => {
        match $tag0 { $($tag => seen(unsafe { $d.$f::<$t>() }),)* _ => unreachable!() }
    };
    ([$($tag: literal $t: ty),*] $d: expr, $tag0: expr, $f: ident, $w: expr) => {
        match $tag0 { $($tag => written(unsafe { $d.$f::<$t>() }, $w),)* _ => unreachable!() }
    };
}
macro_rules! stable {
    (any $f: ident $(, $w: expr)?; $d: expr, $tag0: expr) => { per_type!(stable_ $d, $tag0, $f $(, $w)?) };
    (none $($x: tt)*) => { R::Absent };
}
macro_rules! stable_ {
    ([$($tag: literal $t: ty),*] $d: expr, $tag0: expr, $f: ident) => {
        match $tag0 { $($tag => seen($d.$f::<$t, _>()),)* _ => unreachable!() }
    };
    ([$($tag: literal $t: ty),*] $d: expr, $tag0: expr, $f: ident, $w: expr) => {
        match $tag0 { $($tag => written($d.$f::<$t, _>(), $w),)* _ => unreachable!() }
    };
}
macro_rules! ups {
    ($p: ty; $self: ident, $to: ident; $($n: literal $v: ty),*) => {
        match $to {
            $($n => { let x: Dyn<'static, $p, $v> = (*$self).into_super(); Ok(Box::new(x)) })*
            _ => Err($self),
        }
    };
}
macro_rules! handle {
    ($n: literal $v: ty: $any: ident; $($t: ident)*; $($un: literal $uv: ty),*) => {
        impl H for Dyn<'static, SBox<(), TA>, $v> {
            fn call(&mut self, how: usize, m: usize, a: &[i64]) -> R {
                match (how, MUTS.contains(&m)) {
                    (0, true) => call_mut!(self, m, a; $($t)*),
                    (0, false) => call_ref!(self, m, a; $($t)*),
                    (1, false) => { let d = self.as_ref(); let _ = &d; call_ref!(d, m, a; $($t)*) }
                    (2, true) => { let mut d = self.as_mut(); let _ = &mut d; call_mut!(d, m, a; $($t)*) }
                    (2, false) => { let d = self.as_mut(); let _ = &d; call_ref!(d, m, a; $($t)*) }
                    (3, true) => { let Some(mut d) = self.try_as_mut() else { return R::Got(vec![-2]) }; let _ = &mut d; call_mut!(d, m, a; $($t)*) }
                    (3, false) => { let Some(d) = self.try_as_mut() else { return R::Got(vec![-2]) }; let _ = &d; call_ref!(d, m, a; $($t)*) }
                    _ => R::Absent,
                }
            }
            fn down(&mut self, how: usize, tag: usize, w: i64) -> R {
                let _ = w;
                match how {
                    0 => stable!($any stable_downcast_ref; self, tag),
                    1 => stable!($any stable_downcast_mut, w; self, tag),
                    2 => per_type!(down_vt self, tag, downcast_ref),
                    3 => per_type!(down_vt self, tag, downcast_mut, w),
                    4 => { let d = self.as_ref(); let _ = &d; stable!($any stable_downcast; d, tag) }
                    _ => { let d = self.as_ref(); per_type!(down_vt d, tag, downcast) }
                }
            }
            fn up(self: Box<Self>, to: usize) -> Result<Box<dyn H>, Box<dyn H>> {
                ups!(SBox<(), TA>; self, to; $($un $uv),*)
            }
        }
        impl H for Dyn<'static, &'static mut (), $v> {
            fn call(&mut self, how: usize, m: usize, a: &[i64]) -> R {
                match (how, MUTS.contains(&m)) {
                    (0, true) => call_mut!(self, m, a; $($t)*),
                    (0, false) => call_ref!(self, m, a; $($t)*),
                    (1, false) => { let d = self.as_ref(); let _ = &d; call_ref!(d, m, a; $($t)*) }
                    (2, true) => { let mut d = self.as_mut(); let _ = &mut d; call_mut!(d, m, a; $($t)*) }
                    (2, false) => { let d = self.as_mut(); let _ = &d; call_ref!(d, m, a; $($t)*) }
                    (3, true) => { let Some(mut d) = self.try_as_mut() else { return R::Got(vec![-2]) }; let _ = &mut d; call_mut!(d, m, a; $($t)*) }
                    (3, false) => { let Some(d) = self.try_as_mut() else { return R::Got(vec![-2]) }; let _ = &d; call_ref!(d, m, a; $($t)*) }
                    _ => R::Absent,
                }
            }
            fn down(&mut self, how: usize, tag: usize, w: i64) -> R {
                let _ = w;
                match how {
                    0 => stable!($any stable_downcast_ref; self, tag),
                    1 => stable!($any stable_downcast_mut, w; self, tag),
                    2 => per_type!(down_vt self, tag, downcast_ref),
                    3 => per_type!(down_vt self, tag, downcast_mut, w),
                    4 => { let d = self.as_ref(); let _ = &d; stable!($any stable_downcast; d, tag) }
                    _ => { let d = self.as_ref(); per_type!(down_vt d, tag, downcast) }
                }
            }
            fn up(self: Box<Self>, to: usize) -> Result<Box<dyn H>, Box<dyn H>> {
                ups!(&'static mut (); self, to; $($un $uv),*)
            }
        }
        impl H for Dyn<'static, SArc<(), TA>, $v> {
            fn call(&mut self, how: usize, m: usize, a: &[i64]) -> R {
                match (how, MUTS.contains(&m)) {
                    (0, false) => call_ref!(self, m, a; $($t)*),
                    (1, false) => { let d = self.as_ref(); let _ = &d; call_ref!(d, m, a; $($t)*) }
                    (3, true) => { let Some(mut d) = self.try_as_mut() else { return R::Got(vec![-2]) }; let _ = &mut d; call_mut!(d, m, a; $($t)*) }
                    (3, false) => { let Some(d) = self.try_as_mut() else { return R::Got(vec![-2]) }; let _ = &d; call_ref!(d, m, a; $($t)*) }
                    _ => R::Absent,
                }
            }
            fn down(&mut self, how: usize, tag: usize, _w: i64) -> R {
                match how {
                    0 => stable!($any stable_downcast_ref; self, tag),
                    2 => per_type!(down_vt self, tag, downcast_ref),
                    4 => { let d = self.as_ref(); let _ = &d; stable!($any stable_downcast; d, tag) }
                    5 => { let d = self.as_ref(); per_type!(down_vt d, tag, downcast) }
                    _ => R::Absent,
                }
            }
            fn up(self: Box<Self>, to: usize) -> Result<Box<dyn H>, Box<dyn H>> {
                ups!(SArc<(), TA>; self, to; $($un $uv),*)
            }
            fn dup(&self) -> Option<Box<dyn H>> {
                Some(Box::new(self.clone()))
            }
            fn downgrade(&self) -> Option<Box<dyn H>> {
                // SAFETY: `Weak`'s lifetime is that of the traits, not that of the borrow (the signature is too strict)
                let r: &'static Self = unsafe { &*(self as *const Self) };
                Some(Box::new(Dyn::<'static, SWeak<(), TA>, $v>::from(r)))
            }
        }
        impl H for Dyn<'static, SWeak<(), TA>, $v> {
            fn call(&mut self, _: usize, _: usize, _: &[i64]) -> R {
                R::Absent
            }
            fn down(&mut self, _: usize, _: usize, _: i64) -> R {
                R::Absent
            }
            fn up(self: Box<Self>, to: usize) -> Result<Box<dyn H>, Box<dyn H>> {
                #[allow(unused)]
                match to {
                    $($un => { let x: Dyn<'static, SWeak<(), TA>, $uv> = IntoSuperTrait::into_super(*self); Ok(Box::new(x)) })*
                    _ => Err(self),
                }
            }
            fn dup(&self) -> Option<Box<dyn H>> {
                Some(Box::new(self.clone()))
            }
            fn upgrade(self: Box<Self>) -> Option<Box<dyn H>> {
                let r: Option<Dyn<'static, SArc<(), TA>, $v>> = Dyn::upgrade(*self).into();
                r.map(|x| Box::new(x) as Box<dyn H>)
            }
        }
        impl H for DynRef<'static, $v> {
            fn call(&mut self, how: usize, m: usize, a: &[i64]) -> R {
                if how == 0 && !MUTS.contains(&m) {
                    return call_ref!(self, m, a; $($t)*);
                }
                R::Absent
            }
            fn down(&mut self, how: usize, tag: usize, _w: i64) -> R {
                match how {
                    4 => stable!($any stable_downcast; self, tag),
                    5 => per_type!(down_vt self, tag, downcast),
                    _ => R::Absent,
                }
            }
            fn up(self: Box<Self>, to: usize) -> Result<Box<dyn H>, Box<dyn H>> {
                #[allow(unused)]
                match to {
                    $($un => { let x: DynRef<'static, $uv> = (*self).into_super(); Ok(Box::new(x)) })*
                    _ => Err(self),
                }
            }
            fn dup(&self) -> Option<Box<dyn H>> {
                Some(Box::new(*self))
            }
        }
    };
}
handle!(0 V0: none; ;);
handle!(1 V1: none; ta; 0 V0);
handle!(2 V2: any; ta any; 1 V1);
handle!(3 V3: any; ta any tb; 2 V2);
handle!(4 V4: any; ta any tb tc; 3 V3);
handle!(5 V5: any; ta any; 2 V2, 1 V1);
handle!(6 V6: any; ta any tb; 3 V3, 2 V2, 5 V5);
handle!(7 V7: any; ta any tb tc; 4 V4, 3 V3, 6 V6);
handle!(8 V8: any; ta any tb tc; 7 V7, 4 V4, 13 V13, 3 V3, 10 V10);
handle!(9 V9: any; ta any tb tc; 13 V13, 4 V4, 7 V7, 3 V3, 11 V11);
handle!(10 V10: any; ta any tb; 6 V6, 3 V3, 12 V12, 2 V2);
handle!(11 V11: any; ta any tb; 12 V12, 3 V3, 6 V6, 2 V2);
handle!(12 V12: any; ta any tb; 3 V3, 2 V2);
handle!(13 V13: any; ta any tb tc; 4 V4, 3 V3, 12 V12);
handle!(14 V14: any; ta any tb tc; 15 V15);
handle!(15 V15: none; ta tb tc; 16 V16);
handle!(16 V16: none; tb tc; 17 V17);
handle!(17 V17: none; tc; 18 V18, 0 V0);
handle!(18 V18: none; tc; 0 V0);
handle!(19 V19: any; ta any tc; );
const UPS: [&[usize]; VTS] = [
    &[], &[0], &[1], &[2], &[3], &[2, 1], &[3, 2, 5], &[4, 3, 6], &[7, 4, 13, 3, 10], &[13, 4, 7, 3, 11], &[6, 3, 12, 2], &[12, 3, 6, 2], &[3, 2], &[4, 3, 12], &[15], &[16], &[17], &[18, 0], &[0], &[],
];
/// Makes a handle and says where the data is: (handle, address, how to look at the borrowed original again).
fn make(kind: usize, vt: usize, tag: usize, v: i64, id: i64) -> (Box<dyn H>, i64, Option<Box<dyn FnOnce() -> Vec<i64>>>) {
    macro_rules! by_vt {
        ($t: ty; $($n: literal $v: ty),*) => {
            match vt {
                $($n => match kind {
                    0 => {
                        let b: SBox<$t, TA> = SBox::new_in(<$t>::mk(v, id), TA::new(1));
                        let a = &*b as *const $t as i64;
                        (Box::new(Dyn::<'static, SBox<(), TA>, $v>::from(b)) as Box<dyn H>, a, None)
                    }
                    1 => {
                        let b: SArc<$t, TA> = SArc::new_in(<$t>::mk(v, id), TA::new(1));
                        let a = &*b as *const $t as i64;
                        (Box::new(Dyn::<'static, SArc<(), TA>, $v>::from(b)) as Box<dyn H>, a, None)
                    }
                    _ => {
                        let p: *mut $t = Box::into_raw(Box::new(<$t>::mk(v, id)));
                        let back: Box<dyn FnOnce() -> Vec<i64>> = Box::new(move || {
                            // SAFETY: the handles are gone
                            let b = unsafe { Box::from_raw(p) };
                            vec![<$t>::TAG, b.v(), Ty::id(&*b)]
                        });
                        if kind == 2 {
                            (Box::new(Dyn::<'static, &'static mut (), $v>::from(unsafe { &mut *p })) as Box<dyn H>, p as i64, Some(back))
                        } else {
                            (Box::new(DynRef::<'static, $v>::from(unsafe { &*p })) as Box<dyn H>, p as i64, Some(back))
                        }
                    }
                },)*
                _ => unreachable!(),
            }
        };
    }
    macro_rules! by_tag {
        ([$($tag: literal $t: ty),*]) => {
            match tag { $($tag => by_vt!($t; 0 V0, 1 V1, 2 V2, 3 V3, 4 V4, 5 V5, 6 V6, 7 V7, 8 V8, 9 V9, 10 V10, 11 V11, 12 V12, 13 V13, 14 V14, 15 V15, 16 V16, 17 V17, 18 V18, 19 V19),)* _ => unreachable!() }
        };
    }
    per_type!(by_tag)
}
/// The types that the macro writes are the ones that are written by hand here.
fn same_types() {
    fn same<T>(_: fn(T), _: fn(T)) {}
    same::<vtable!(Ta)>(|_| {}, |_: V1| {});
    same::<vtable!(Ta + Any)>(|_| {}, |_: V2| {});
    same::<vtable!(Ta + Any + Tb<u8, Out = i64>)>(|_| {}, |_: V3| {});
    same::<vtable!(Ta + Any + Tb<u8, Out = i64> + Tc)>(|_| {}, |_: V4| {});
    same::<vtable!(Ta + Any + Send)>(|_| {}, |_: V5| {});
    same::<vtable!(Ta + Any + Tb<u8, Out = i64> + Send)>(|_| {}, |_: V6| {});
    same::<vtable!(Ta + Any + Tb<u8, Out = i64> + Tc + Send)>(|_| {}, |_: V7| {});
    same::<vtable!(Ta + Any + Tb<u8, Out = i64> + Tc + Send + Sync)>(|_| {}, |_: V8| {});
    same::<vtable!(Ta + Any + Tb<u8, Out = i64> + Tc + Sync + Send)>(|_| {}, |_: V9| {});
    same::<vtable!(Ta + Any + Tb<u8, Out = i64> + Send + Sync)>(|_| {}, |_: V10| {});
    same::<vtable!(Ta + Any + Tb<u8, Out = i64> + Sync + Send)>(|_| {}, |_: V11| {});
    same::<vtable!(Ta + Any + Tb<u8, Out = i64> + Sync)>(|_| {}, |_: V12| {});
    same::<vtable!(Ta + Any + Tb<u8, Out = i64> + Tc + Sync)>(|_| {}, |_: V13| {});
    same::<vtable!(Tc + Send + Tb<u8, Out = i64> + Ta + Any)>(|_| {}, |_: V14| {});
    same::<vtable!(Tc + Send + Tb<u8, Out = i64> + Ta)>(|_| {}, |_: V15| {});
    same::<vtable!(Tc + Send + Tb<u8, Out = i64>)>(|_| {}, |_: V16| {});
    same::<vtable!(Tc + Send)>(|_| {}, |_: V17| {});
    same::<vtable!(Tc)>(|_| {}, |_: V18| {});
    same::<vtable!(Any + Tc + Ta + Sync)>(|_| {}, |_: V19| {});
    same::<dynptr!(&mut dyn Ta)>(|_| {}, |_: Dyn<'static, &'static mut (), V1>| {});
    same::<dynptr!(&dyn Tc)>(|_| {}, |_: DynRef<'static, V18>| {});
    same::<dynptr!(SBox<dyn Ta + Any + Send>)>(|_| {}, |_: Dyn<'static, SBox<()>, V5>| {});
}
const NS: usize = 3;
#[derive(Clone, Debug)]
enum Op {
    New(usize, usize, usize, usize),
    Call(usize, usize, usize, [i64; 3]),
    Down(usize, usize, usize, i64),
    Up(usize, usize),
    Dup(usize, usize),
    Downgrade(usize, usize),
    Upgrade(usize),
    Drop(usize),
}
type Back = std::rc::Rc<std::cell::RefCell<Option<Box<dyn FnOnce() -> Vec<i64>>>>>;
struct Slot {
    h: Box<dyn H>,
    at: i64,
    back: Option<Back>,
    vt: usize,
}
fn run(out: &mut Out, prog: &[Op]) {
    out.begin(&format!("{prog:?}"));
    tok::reset();
    talloc::reset();
    fx::take();
    drops();
    let mut sl: Vec<Option<Slot>> = (0..NS).map(|_| None).collect();
    let mut ev: Vec<J> = Vec::new();
    let mut id = 0;
    let mut done = |k: &str, s: usize, x: [i64; 4], a: &[i64], r: Vec<i64>| {
        let f = fx::take();
        ev.push(obj! {k: k, s: (s + 1) as i64, x: J::from(x.to_vec()), a: J::from(a.to_vec()), r: J::from(r), d: drops(), live: J::from(tok::live()), bad: f.badj(), blocks: talloc::live().len() as i64});
    };
    let mut prog = prog.to_vec();
    prog.extend((0..NS).map(Op::Drop));
    for o in &prog {
        match *o {
            Op::New(s, kind, vt, tag) => {
                if sl[s].is_some() {
                    continue;
                }
                id += 1;
                let v = 100 + 13 * id;
                let Some((h, at, back)) = catch(|| make(kind, vt, tag, v, id)) else {
                    done("new", s, [kind as i64, vt as i64, tag as i64, v], &[id], vec![-1]);
                    continue;
                };
                sl[s] = Some(Slot { h, at, back: back.map(|b| std::rc::Rc::new(std::cell::RefCell::new(Some(b)))), vt });
                done("new", s, [kind as i64, vt as i64, tag as i64, v], &[id], vec![]);
            }
            Op::Call(s, how, m, a) => {
                let Some(x) = &mut sl[s] else { continue };
                let r = x.h.call(how, m, &a);
                let R::Got(mut r) = r else { continue };
                if m == 12 {
                    r = vec![if r == [-2] { -2 } else { (r[0] == x.at) as i64 }];
                }
                done("call", s, [how as i64, m as i64, 0, 0], &a, r);
            }
            Op::Down(s, how, tag, w) => {
                let Some(x) = &mut sl[s] else { continue };
                let R::Got(mut r) = x.h.down(how, tag, w) else { continue };
                r[2] = (r[2] == x.at) as i64;
                done("down", s, [how as i64, tag as i64, w, 0], &[], r);
            }
            Op::Up(s, n) => {
                let Some(x) = &sl[s] else { continue };
                let l = UPS[x.vt];
                if l.is_empty() {
                    continue;
                }
                let Some(x) = sl[s].take() else { continue };
                let to = l[n % l.len()];
                let Ok(h) = x.h.up(to) else { panic!("no such upcast") };
                sl[s] = Some(Slot { h, vt: to, ..x });
                done("up", s, [to as i64, 0, 0, 0], &[], vec![]);
            }
            Op::Dup(s, t) => {
                if sl[t].is_some() {
                    continue;
                }
                let Some(x) = &sl[s] else { continue };
                let Some(h) = x.h.dup() else { continue };
                sl[t] = Some(Slot { h, at: x.at, back: x.back.clone(), vt: x.vt });
                done("dup", s, [t as i64 + 1, 0, 0, 0], &[], vec![]);
            }
            Op::Downgrade(s, t) => {
                if sl[t].is_some() {
                    continue;
                }
                let Some(x) = &sl[s] else { continue };
                let Some(h) = x.h.downgrade() else { continue };
                sl[t] = Some(Slot { h, at: x.at, back: None, vt: x.vt });
                done("downgrade", s, [t as i64 + 1, 0, 0, 0], &[], vec![]);
            }
            Op::Upgrade(s) => {
                let Some(x) = &sl[s] else { continue };
                // only weak handles, which can't do anything else
                if x.back.is_some() || x.h.downgrade().is_some() {
                    continue;
                }
                let mut probe = x.h.dup();
                if probe.is_none() {
                    continue;
                }
                drop(probe.take());
                let Some(x) = sl[s].take() else { continue };
                let u = x.h.upgrade();
                let r = vec![u.is_some() as i64];
                sl[s] = u.map(|h| Slot { h, at: x.at, back: None, vt: x.vt });
                done("upgrade", s, [0; 4], &[], r);
            }
            Op::Drop(s) => {
                let Some(x) = sl[s].take() else { continue };
                drop(x.h);
                done("drop", s, [0; 4], &[], vec![]);
                if let Some(b) = x.back {
                    if std::rc::Rc::strong_count(&b) == 1 {
                        let f = b.borrow_mut().take().unwrap();
                        let r = f();
                        done("back", s, [0; 4], &[], r);
                    }
                }
            }
        }
    }
    talloc::audit();
    done("end", 0, [0; 4], &[], vec![]);
    out.trace_meta(obj! {prog: prog.len() as i64}, ev, J::S(format!("{prog:?}")));
}
fn main() {
    let a = vharness::args();
    let mut out = Out::new(&a.out, &a.suite);
    let mut rng = Rng::new(a.seed);
    let scale = if a.thorough { 10 } else { 1 };
    same_types();
    let hows = |kind: usize| -> &'static [usize] { [&[0, 1, 2, 3][..], &[0, 1, 3], &[0, 1, 2, 3], &[0]][kind] };
    match a.suite.as_str() {
        "V02" => {
            // every method of every set of traits, through every pointer, before and after upcasts
            for kind in 0..4 {
                for vt in 0..VTS {
                    for tag in 0..TAGS {
                        if !a.thorough && (kind + vt + tag) % 3 != 0 && !(tag < 1) {
                            continue;
                        }
                        let mut p = vec![Op::New(0, kind, vt, tag)];
                        let mut v = vt;
                        loop {
                            for how in hows(kind) {
                                for m in 0..13 {
                                    p.push(Op::Call(0, *how, m, [rng.below(200) as i64, rng.below(200) as i64, rng.below(100) as i64]));
                                }
                            }
                            if UPS[v].is_empty() || p.len() > 260 {
                                break;
                            }
                            let n = rng.below(UPS[v].len());
                            p.push(Op::Up(0, n));
                            v = UPS[v][n];
                        }
                        run(&mut out, &p);
                    }
                }
            }
        }
        _ => {
            // every pair of types, for every set of traits with reflection
            for kind in 0..4 {
                for vt in 0..VTS {
                    for tag in 0..TAGS {
                        if !a.thorough && (kind * 5 + vt + tag) % 4 != 0 && vt != 2 {
                            continue;
                        }
                        for up in 0..2 {
                            let mut p = vec![Op::New(0, kind, vt, tag)];
                            if up > 0 {
                                p.push(Op::Up(0, rng.below(4)));
                                p.push(Op::Up(0, rng.below(4)));
                            }
                            for t in 0..TAGS {
                                for how in 0..6 {
                                    p.push(Op::Down(0, how, t, rng.below(200) as i64));
                                }
                                p.push(Op::Call(0, 0, 1, [1, 0, 0]));
                            }
                            run(&mut out, &p);
                        }
                    }
                }
            }
        }
    }
    for _ in 0..(1500 * scale) {
        let n = 4 + rng.below(26);
        let mut p = Vec::new();
        for _ in 0..n {
            let s = rng.below(NS);
            let arg = [rng.below(250) as i64, rng.below(250) as i64, rng.below(100) as i64];
            p.push(match rng.below(if a.suite == "V02" { 20 } else { 26 }) {
                0..=4 => Op::New(s, rng.below(4), rng.below(VTS), rng.below(TAGS)),
                5..=9 => Op::Call(s, rng.below(4), rng.below(13), arg),
                10 | 11 => Op::Up(s, rng.below(5)),
                12 | 13 => Op::Dup(s, rng.below(NS)),
                14 | 15 => Op::Downgrade(s, rng.below(NS)),
                16 => Op::Upgrade(s),
                17 | 18 => Op::Drop(s),
                _ => Op::Down(s, rng.below(6), rng.below(TAGS), arg[0]),
            });
        }
        run(&mut out, &p);
    }
    out.finish();
}
