// Layouts and packed sum types: what the types report of themselves, and histories of values of them (spec/Layout.tla).
use stabby_abi::istable::IBitMask;
use stabby_abi::option::Option as SOption;
use stabby_abi::result::Result as SResult;
use stabby_abi::typenum2::Unsigned;
use stabby_abi::{IDeterminantProvider, IStable};
use std::cell::UnsafeCell;
use std::hint::black_box;
use std::mem::{align_of, size_of, ManuallyDrop, MaybeUninit};
use std::num::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vharness::json::il;
use vharness::{obj, Out, Rng, J};

fn bytes<T>(t: &T) -> Vec<u8> {
    let p = t as *const T as *const u8;
    (0..size_of::<T>()).map(|k| unsafe { p.add(k).read_volatile() }).collect()
}
fn bl(b: &[u8]) -> J {
    il(b.iter().map(|x| *x as i64))
}
/// Unused bits, as claimed: a mask per byte.
fn ub<T: IStable>() -> Vec<u8> {
    let s = format!("{:?}", <T::UnusedBits as IBitMask>::TUPLE);
    let n: Vec<usize> = s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let mut r = vec![0u8; size_of::<T>()];
    for p in n.chunks(2) {
        match r.get_mut(p[0]) {
            Some(x) => *x |= p[1] as u8,
            None => return vec![255; size_of::<T>() + 1],
        }
    }
    r
}
/// Writes `v` over `p`, byte by byte, with the bits claimed unused filled from `fill`.
unsafe fn put<T: IStable>(p: *mut T, v: T, fill: u8) {
    let v = ManuallyDrop::new(v);
    let b = bytes(&v);
    let u = ub::<T>();
    for k in 0..b.len() {
        (p as *mut u8).add(k).write_volatile((b[k] & !u[k]) | (fill & u[k]));
    }
}
/// Overwrites the bits claimed unused.
unsafe fn scribble<T: IStable>(p: *mut T, fill: u8) {
    let u = ub::<T>();
    for k in 0..size_of::<T>() {
        let q = (p as *mut u8).add(k);
        q.write_volatile((q.read_volatile() & !u[k]) | (fill & u[k]));
    }
}
#[inline(never)]
fn dirty<T: IStable>(v: T, fill: u8) -> T {
    let mut m = MaybeUninit::<T>::uninit();
    unsafe {
        put(m.as_mut_ptr(), v, fill);
        m.assume_init()
    }
}

trait Ty: IStable + Sized + Clone + 'static {
    fn ex() -> J;
    /// Number of interesting values.
    fn count() -> usize;
    fn mk(i: usize) -> Self;
    fn enc(&self) -> J;
    /// What `mk(i)` must be, from its innermost parts alone.
    fn want(i: usize) -> J {
        Self::mk(i).enc()
    }
    /// Replaces the value through a mutable reference; returns what it now is.
    fn edit(&mut self, act: usize, i: usize) -> J {
        edit_plain(self, act, i)
    }
    /// Replaces the value through a shared reference, where that is allowed.
    fn edit_shared(&self, _i: usize, _fill: u8) -> Option<J> {
        None
    }
}
const FILLS: [u8; 4] = [255, 0, 0xAA, 1];
fn edit_plain<T: Ty>(p: &mut T, act: usize, i: usize) -> J {
    let n = T::mk(i);
    let e = T::want(i);
    let fill = FILLS[i % 4];
    match act % 4 {
        0 => unsafe { put(p, n, fill) },
        1 => {
            let _ = std::mem::replace(p, black_box(dirty(n, fill)));
        }
        2 => {
            let mut n = dirty(n, fill);
            std::mem::swap(p, &mut n);
        }
        _ => *p = n,
    }
    e
}
macro_rules! ex {
    ($($x: expr),*) => { J::L(vec![$(J::from($x)),*]) };
}
macro_rules! plain {
    ($t: ty, [$($x: expr),*], $vals: expr) => {
        impl Ty for $t {
            fn ex() -> J { ex!($($x),*) }
            fn count() -> usize { let v: Vec<$t> = $vals; v.len() }
            fn mk(i: usize) -> Self { let v: Vec<$t> = $vals; v[i % v.len()] }
            fn enc(&self) -> J { bl(&bytes(self)) }
        }
    };
}
plain!((), ["p", 0, 1], vec![()]);
plain!(u8, ["p", 1, 1], vec![0, 1, 2, 255, 254, 128]);
plain!(i8, ["p", 1, 1], vec![0, -1, 1, -128]);
plain!(u16, ["p", 2, 2], vec![0, 1, 256, 0xffff, 0x8001]);
plain!(u32, ["p", 4, 4], vec![0, 1, 0xffff_ffff, 0x0100_0000, 0x8000_0000]);
plain!(i32, ["p", 4, 4], vec![0, -1, i32::MIN]);
plain!(u64, ["p", 8, 8], vec![0, 1, !0, 1 << 56, 1 << 32]);
plain!(i64, ["p", 8, 8], vec![0, -1, i64::MIN]);
plain!(u128, ["p", 16, 16], vec![0, 1, !0, 1 << 120, 1 << 64]);
plain!(f32, ["p", 4, 4], vec![0.0, -0.0, 1.5, f32::MAX]);
plain!(f64, ["p", 8, 8], vec![0.0, -0.0, 1.5]);
plain!(bool, ["rng", 2, 255], vec![false, true]);
plain!(std::cmp::Ordering, ["rng", 2, 254], vec![std::cmp::Ordering::Less, std::cmp::Ordering::Equal, std::cmp::Ordering::Greater]);
plain!(NonZeroU8, ["nz", 1, 1], [1u8, 2, 255, 128].into_iter().map(|x| NonZeroU8::new(x).unwrap()).collect());
plain!(NonZeroI8, ["nz", 1, 1], [1i8, -1, -128].into_iter().map(|x| NonZeroI8::new(x).unwrap()).collect());
plain!(NonZeroU16, ["nz", 2, 2], [1u16, 256, 0xffff, 128].into_iter().map(|x| NonZeroU16::new(x).unwrap()).collect());
plain!(NonZeroU32, ["nz", 4, 4], [1u32, 256, 1 << 24, !0].into_iter().map(|x| NonZeroU32::new(x).unwrap()).collect());
plain!(NonZeroU64, ["nz", 8, 8], [1u64, 1 << 32, 1 << 56, !0].into_iter().map(|x| NonZeroU64::new(x).unwrap()).collect());
plain!(NonZeroU128, ["nz", 16, 16], [1u128, 1 << 64, 1 << 120, !0].into_iter().map(|x| NonZeroU128::new(x).unwrap()).collect());
static REFS: [u64; 2] = [5, 6];
plain!(&'static u64, ["nz", 8, 8], vec![&REFS[0], &REFS[1]]);
plain!(std::ptr::NonNull<u16>, ["nz", 8, 8], vec![std::ptr::NonNull::dangling()]);
impl Ty for stabby_abi::str::Str<'static> {
    fn ex() -> J {
        ex!("st", ex!(ex!("nz", 8, 8), ex!("p", 8, 8)))
    }
    fn count() -> usize {
        2
    }
    fn mk(i: usize) -> Self {
        stabby_abi::str::Str::new(["", "abc"][i % 2])
    }
    fn enc(&self) -> J {
        ex!(bl(&(self.as_ptr() as usize).to_ne_bytes()), bl(&self.len().to_ne_bytes()))
    }
}

// The encoding of a struct lists its fields.
macro_rules! strukt {
    ($t: ty, $kind: expr, $mk: expr, [$($f: tt: $ft: ty $(= $off: literal)?),*]) => {
        impl Ty for $t {
            fn ex() -> J {
                let mut k: Vec<J> = $kind;
                k.push(J::L(vec![$(<$ft as Ty>::ex()),*]));
                J::L(k)
            }
            fn count() -> usize { 0 $(.max(<$ft as Ty>::count()))* }
            fn mk(i: usize) -> Self { let f: fn(usize) -> $t = $mk; f(i) }
            fn enc(&self) -> J { J::L(vec![$(self.$f.enc()),*]) }
            fn want(i: usize) -> J { J::L(vec![$(<$ft as Ty>::want(i $(+ $off)?)),*]) }
            fn edit(&mut self, act: usize, i: usize) -> J {
                if act < 4 { return edit_plain(self, act, i); }
                // one field only
                let mut e = vec![$(self.$f.enc()),*];
                let w = i % e.len();
                let mut k = 0;
                $(if k == w { e[w] = self.$f.edit(act - 4, i); } k += 1;)*
                let _ = k;
                J::L(e)
            }
        }
    };
}
macro_rules! named {
    ($(#[$a: meta])* $n: ident { $($f: ident: $ft: ty),* }, $kind: expr) => {
        #[stabby_abi::stabby(no_opt)]
        $(#[$a])*
        #[derive(Clone)]
        pub struct $n { $($f: $ft),* }
        strukt!($n, $kind, |i| $n { $($f: <$ft as Ty>::mk(i)),* }, [$($f: $ft),*]);
    };
}
fn st() -> Vec<J> {
    vec![J::from("st")]
}
fn al(n: usize) -> Vec<J> {
    vec![J::from("al"), J::from(n)]
}
named!(P12 { a: u8, b: u16 }, st());
named!(P21 { a: u16, b: u8 }, st());
named!(P1z2 { a: u8, b: NonZeroU16 }, st());
named!(Pz21 { a: NonZeroU16, b: u8 }, st());
named!(P14 { a: u8, b: u32 }, st());
named!(P41 { a: u32, b: u8 }, st());
named!(Pb1 { a: bool, b: u8 }, st());
named!(P1b { a: u8, b: bool }, st());
named!(P181 { a: u8, b: u64, c: u8 }, st());
named!(P1z81 { a: u8, b: NonZeroU64, c: bool }, st());
named!(PP { a: P12, b: u8 }, st());
named!(Pmix { a: u8, b: P41, c: u16 }, st());
named!(PRes { a: SResult<u8, NonZeroU16>, b: u8 }, st());
named!(POpt { a: SOption<P14>, b: SOption<bool> }, st());
named!(PTag { a: SResult<u32, u32>, b: u16 }, st());
named!(
    #[repr(C, align(4))]
    A4 { a: u8 },
    al(4)
);
named!(
    #[repr(C, align(8))]
    A8 { a: u16, b: u8 },
    al(8)
);
named!(
    #[repr(C, align(16))]
    A16 { a: NonZeroU8, b: u32 },
    al(16)
);
named!(
    #[repr(C, align(2))]
    A2 { a: u32, b: bool },
    al(2)
);
named!(Sz1 { a: NonZeroU32 }, st());
named!(Sunit { a: (), b: u8, c: () }, st());
type T2<A, B> = stabby_abi::Tuple<A, B>;
strukt!(T2<u8, NonZeroU32>, st(), |i| stabby_abi::Tuple(u8::mk(i), NonZeroU32::mk(i + 1)), [0: u8, 1: NonZeroU32 = 1]);
strukt!(T2<bool, u16>, st(), |i| stabby_abi::Tuple(bool::mk(i), u16::mk(i + 1)), [0: bool, 1: u16 = 1]);
macro_rules! array {
    ($t: ty, $n: literal) => {
        impl Ty for [$t; $n] {
            fn ex() -> J {
                ex!("arr", $n, <$t as Ty>::ex())
            }
            fn count() -> usize {
                <$t as Ty>::count()
            }
            fn mk(i: usize) -> Self {
                std::array::from_fn(|k| <$t as Ty>::mk(i + k))
            }
            fn enc(&self) -> J {
                J::L(self.iter().map(|x| x.enc()).collect())
            }
            fn want(i: usize) -> J {
                J::L((0..$n).map(|k| <$t as Ty>::want(i + k)).collect())
            }
        }
    };
}
array!(u8, 3);
array!(NonZeroU16, 1);
array!(NonZeroU16, 2);
array!(P12, 1);
array!(P12, 2);
array!(bool, 3);
macro_rules! opaque {
    ($t: ty, $k: expr, $($v: expr),*) => {
        impl Ty for $t {
            fn ex() -> J { $k }
            fn count() -> usize { let v: &[fn() -> $t] = &[$($v),*]; v.len() }
            fn mk(i: usize) -> Self { let v: &[fn() -> $t] = &[$($v),*]; v[i % v.len()]() }
            fn enc(&self) -> J { bl(&bytes(self)) }
        }
    };
}
fn mu<T: Ty>() -> J {
    ex!("mu", T::ex())
}
// Memory that holds no value in particular: all its bytes are the value.
#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct Mu<T: Copy>(MaybeUninit<T>);
unsafe impl<T: Copy + IStable> IStable for Mu<T> {
    type Size = <MaybeUninit<T> as IStable>::Size;
    type Align = <MaybeUninit<T> as IStable>::Align;
    type ForbiddenValues = <MaybeUninit<T> as IStable>::ForbiddenValues;
    type UnusedBits = <MaybeUninit<T> as IStable>::UnusedBits;
    type HasExactlyOneNiche = <MaybeUninit<T> as IStable>::HasExactlyOneNiche;
    type ContainsIndirections = <MaybeUninit<T> as IStable>::ContainsIndirections;
    #[cfg(feature = "abi_stable")]
    type CType = <MaybeUninit<T> as IStable>::CType;
    const REPORT: &'static stabby_abi::report::TypeReport = <MaybeUninit<T> as IStable>::REPORT;
    const ID: u64 = <MaybeUninit<T> as IStable>::ID;
}
fn muof<T: Copy>(f: impl Fn(usize) -> u8) -> Mu<T> {
    let mut m = MaybeUninit::<T>::uninit();
    for k in 0..size_of::<T>() {
        unsafe { (m.as_mut_ptr() as *mut u8).add(k).write_volatile(f(k)) };
    }
    Mu(m)
}
opaque!(Mu<NonZeroU8>, mu::<NonZeroU8>(), || muof(|_| 0), || muof(|_| 255), || muof(|_| 1));
opaque!(Mu<NonZeroU32>, mu::<NonZeroU32>(), || muof(|_| 0), || muof(|_| 255), || muof(|k| (k == 2) as u8));
opaque!(Mu<bool>, mu::<bool>(), || muof(|_| 0), || muof(|_| 255), || muof(|_| 2));
#[stabby_abi::stabby]
#[derive(Clone, Copy)]
pub union U12 {
    a: u8,
    b: u16,
}
opaque!(U12, ex!("un", ex!(u8::ex(), u16::ex())), || U12 { b: 0 }, || U12 { b: 0xffff }, || U12 { b: 0x0100 }, || U12 { b: 1 });
#[stabby_abi::stabby]
#[derive(Clone, Copy)]
pub union Uz8 {
    a: NonZeroU64,
    b: bool,
}
opaque!(Uz8, ex!("un", ex!(NonZeroU64::ex(), bool::ex())), || unsafe { std::mem::transmute(0u64) }, || unsafe { std::mem::transmute(!0u64) }, || unsafe { std::mem::transmute(2u64) });
// Interior mutability: what is written through a shared reference may have anything in its padding.
#[repr(transparent)]
pub struct Uc<T>(UnsafeCell<T>);
unsafe impl<T: IStable> IStable for Uc<T> {
    type Size = <UnsafeCell<T> as IStable>::Size;
    type Align = <UnsafeCell<T> as IStable>::Align;
    type ForbiddenValues = <UnsafeCell<T> as IStable>::ForbiddenValues;
    type UnusedBits = <UnsafeCell<T> as IStable>::UnusedBits;
    type HasExactlyOneNiche = <UnsafeCell<T> as IStable>::HasExactlyOneNiche;
    type ContainsIndirections = <UnsafeCell<T> as IStable>::ContainsIndirections;
    #[cfg(feature = "abi_stable")]
    type CType = <UnsafeCell<T> as IStable>::CType;
    const REPORT: &'static stabby_abi::report::TypeReport = <UnsafeCell<T> as IStable>::REPORT;
    const ID: u64 = <UnsafeCell<T> as IStable>::ID;
}
impl<T: Ty> Clone for Uc<T> {
    fn clone(&self) -> Self {
        Uc(UnsafeCell::new(unsafe { (*self.0.get()).clone() }))
    }
}
impl<T: Ty> Ty for Uc<T> {
    fn ex() -> J {
        ex!("uc", T::ex())
    }
    fn count() -> usize {
        T::count()
    }
    fn mk(i: usize) -> Self {
        Uc(UnsafeCell::new(T::mk(i)))
    }
    fn enc(&self) -> J {
        unsafe { (*self.0.get()).enc() }
    }
    fn want(i: usize) -> J {
        T::want(i)
    }
    fn edit_shared(&self, i: usize, fill: u8) -> Option<J> {
        let n = T::mk(i);
        let e = T::want(i);
        unsafe { put(self.0.get(), n, fill) };
        Some(e)
    }
}
// Enums with an explicit tag.
macro_rules! tagged {
    ($r: ident, $n: literal, $e: ident { $($v: ident ( $t: ty ) = $k: literal),* }) => {
        #[stabby_abi::stabby]
        #[repr($r)]
        #[derive(Clone)]
        pub enum $e { $($v($t)),* }
        impl Ty for $e {
            fn ex() -> J { ex!("tag", $n, J::L(vec![$(<$t as Ty>::ex()),*])) }
            fn count() -> usize { 0 $(+ <$t as Ty>::count())* }
            fn mk(i: usize) -> Self {
                let n = 0 $(* $k + 1)* ;
                let _ = n;
                let c = [$($k),*].len();
                match i % c { $($k => $e::$v(<$t as Ty>::mk(i / c)),)* _ => unreachable!() }
            }
            fn enc(&self) -> J { match self { $($e::$v(x) => ex!($k, x.enc())),* } }
            fn want(i: usize) -> J {
                let c = [$($k),*].len();
                match i % c { $($k => ex!($k, <$t as Ty>::want(i / c)),)* _ => unreachable!() }
            }
            fn edit(&mut self, act: usize, i: usize) -> J {
                if act < 4 { return edit_plain(self, act, i); }
                match self { $($e::$v(x) => ex!($k, x.edit(act - 4, i))),* }
            }
        }
    };
}
tagged!(u8, 1, Tg8 { A(()) = 0, B(NonZeroU16) = 1, C(u8) = 2 });
tagged!(u16, 2, Tg16 { A(u32) = 0, B(u8) = 1 });
tagged!(u32, 4, Tg32 { A(P12) = 0, B(bool) = 1, C(()) = 2, D(NonZeroU8) = 3 });
tagged!(u8, 1, Tg8b { A(u64) = 0, B(P41) = 1 });
macro_rules! fieldless {
    ($r: ident, $n: literal, $e: ident { $($v: ident = $k: literal),* }) => {
        #[stabby_abi::stabby]
        #[repr($r)]
        #[derive(Clone, Copy)]
        pub enum $e { $($v = $k),* }
        impl Ty for $e {
            fn ex() -> J { ex!("p", $n, $n) }
            fn count() -> usize { [$($k),*].len() }
            fn mk(i: usize) -> Self { let l = [$($e::$v),*]; l[i % l.len()] }
            fn enc(&self) -> J { bl(&bytes(self)) }
        }
    };
}
fieldless!(u8, 1, F8 { A = 0, B = 1, C = 2, D = 200 });
fieldless!(u32, 4, F32 { A = 0, B = 1, C = 65536 });

// Sums.
trait Sum: Ty {
    fn is(&self, how: usize) -> J;
    /// Consumes the sum: (variant, payload, number of closures called).
    fn take(self, how: usize) -> (J, i64);
    /// Through some standard type and back.
    fn convert(self) -> Self;
    /// Access to the payload that changes nothing.
    fn noop(&mut self, how: usize);
    /// Edits the payload in place: (payload seen before, payload afterwards).
    fn set(&mut self, how: usize, act: usize, i: usize) -> (J, J);
    fn set_shared(&self, i: usize, fill: u8) -> Option<(J, J)>;
}
/// Edits, then panics if `how` says so: the new payload gets out through `out`.
fn ed<T: Ty>(p: &mut T, how: usize, act: usize, i: usize, out: &mut (J, J)) {
    *out = (p.enc(), p.edit(act, i));
    if how % 2 == 1 {
        panic!("as planned");
    }
}
impl<A: Ty + IDeterminantProvider<B>, B: Ty> Ty for SResult<A, B> {
    fn ex() -> J {
        ex!("res", A::ex(), B::ex())
    }
    fn count() -> usize {
        2 * A::count().max(B::count())
    }
    fn mk(i: usize) -> Self {
        let fill = FILLS[(i / 2) % 4];
        if i % 2 == 0 {
            SResult::Ok(dirty(A::mk(i / 2), fill))
        } else {
            SResult::Err(dirty(B::mk(i / 2), fill))
        }
    }
    fn enc(&self) -> J {
        self.match_ref(|a| ex!(0, a.enc()), |b| ex!(1, b.enc()))
    }
    fn want(i: usize) -> J {
        if i % 2 == 0 {
            ex!(0, A::want(i / 2))
        } else {
            ex!(1, B::want(i / 2))
        }
    }
    fn edit(&mut self, act: usize, i: usize) -> J {
        if act < 4 {
            return edit_plain(self, act, i);
        }
        let k = !self.is_ok() as i64;
        ex!(k, self.set(act, act - 4, i).1)
    }
}
impl<A: Ty + IDeterminantProvider<B>, B: Ty> Sum for SResult<A, B> {
    fn is(&self, how: usize) -> J {
        match how % 3 {
            0 => il([self.is_ok() as i64, self.is_err() as i64]),
            1 => il([self.ok_ref().is_some() as i64, self.err_ref().is_some() as i64]),
            _ => il([self.as_ref().is_ok() as i64, self.as_ref().is_err() as i64]),
        }
    }
    fn take(self, how: usize) -> (J, i64) {
        let mut n = 0;
        let v = match how % 4 {
            0 => {
                let n = std::cell::Cell::new(0);
                let r = self.match_owned(
                    |a| {
                        n.set(n.get() + 1);
                        ex!(0, a.enc())
                    },
                    |b| {
                        n.set(n.get() + 1);
                        ex!(1, b.enc())
                    },
                );
                return (r, n.get());
            }
            1 => self.match_owned_ctx(
                &mut n,
                |n, a| {
                    *n += 1;
                    ex!(0, a.enc())
                },
                |n, b| {
                    *n += 1;
                    ex!(1, b.enc())
                },
            ),
            2 => {
                n = 1;
                match self.clone().ok() {
                    Some(a) => ex!(0, a.enc()),
                    None => ex!(1, self.err().unwrap().enc()),
                }
            }
            _ => {
                n = 1;
                if self.is_ok() {
                    ex!(0, unsafe { self.unwrap_unchecked() }.enc())
                } else {
                    ex!(1, unsafe { self.unwrap_err_unchecked() }.enc())
                }
            }
        };
        (v, n)
    }
    fn convert(self) -> Self {
        let r: core::result::Result<A, B> = self.into();
        black_box(r).into()
    }
    fn noop(&mut self, how: usize) {
        match how % 5 {
            0 => drop((self.ok_mut().map(|_| ()), self.err_mut().map(|_| ()))),
            1 => self.match_mut(|_| (), |_| ()),
            2 => {
                self.match_mut_ctx(1, |_, g| drop(black_box(g)), |_, g| drop(black_box(g)));
            }
            3 => drop(self.match_ref(|_| 0, |_| 1)),
            _ => drop(self.match_ref_ctx((), |_, _| 0, |_, _| 1)),
        }
    }
    fn set(&mut self, how: usize, act: usize, i: usize) -> (J, J) {
        let mut out = (J::I(0), J::I(0));
        let o = &mut out;
        let _ = catch_unwind(AssertUnwindSafe(|| match (how / 2) % 3 {
            0 => {
                if let Some(mut g) = self.ok_mut() {
                    ed(&mut *g, how, act, i, o);
                    return;
                }
                if let Some(mut g) = self.err_mut() {
                    ed(&mut *g, how, act, i, o);
                }
            }
            1 => {
                let c = std::cell::RefCell::new(o);
                self.match_mut(|mut g| ed(&mut *g, how, act, i, &mut c.borrow_mut()), |mut g| ed(&mut *g, how, act, i, &mut c.borrow_mut()))
            }
            _ => self.match_mut_ctx(o, |o, mut g| ed(&mut *g, how, act, i, o), |o, mut g| ed(&mut *g, how, act, i, o)),
        }));
        out
    }
    fn set_shared(&self, i: usize, fill: u8) -> Option<(J, J)> {
        self.match_ref(|a| { let e = a.enc(); a.edit_shared(i, fill).map(|n| (e, n)) }, |b| { let e = b.enc(); b.edit_shared(i, fill).map(|n| (e, n)) })
    }
}
impl<A: Ty + IDeterminantProvider<()>> Ty for SOption<A> {
    fn ex() -> J {
        ex!("opt", A::ex())
    }
    fn count() -> usize {
        2 * A::count()
    }
    fn mk(i: usize) -> Self {
        if i % 2 == 0 {
            SOption::Some(dirty(A::mk(i / 2), FILLS[(i / 2) % 4]))
        } else if i % 4 == 1 {
            SOption::None()
        } else {
            SOption::default()
        }
    }
    fn enc(&self) -> J {
        self.match_ref(|a| ex!(0, a.enc()), || ex!(1, J::L(vec![])))
    }
    fn want(i: usize) -> J {
        if i % 2 == 0 {
            ex!(0, A::want(i / 2))
        } else {
            ex!(1, J::L(vec![]))
        }
    }
    fn edit(&mut self, act: usize, i: usize) -> J {
        if act < 4 || self.is_none() {
            return edit_plain(self, act, i);
        }
        ex!(0, self.set(act, act - 4, i).1)
    }
}
impl<A: Ty + IDeterminantProvider<()>> Sum for SOption<A> {
    fn is(&self, how: usize) -> J {
        match how % 2 {
            0 => il([self.is_some() as i64, self.is_none() as i64]),
            _ => il([self.as_ref().is_some() as i64, self.as_ref().is_none() as i64]),
        }
    }
    fn take(self, how: usize) -> (J, i64) {
        let mut n = 0;
        let none = || ex!(1, J::L(vec![]));
        let v = match how % 4 {
            0 => {
                n = 1;
                self.match_owned(|a| ex!(0, a.enc()), none)
            }
            1 => self.match_owned_ctx(
                &mut n,
                |n, a| {
                    *n += 1;
                    ex!(0, a.enc())
                },
                |n| {
                    *n += 1;
                    none()
                },
            ),
            2 => {
                n = 1;
                core::option::Option::from(self).map_or_else(none, |a: A| ex!(0, a.enc()))
            }
            _ => {
                n = 1;
                if self.is_some() {
                    ex!(0, unsafe { self.unwrap_unchecked() }.enc())
                } else {
                    none()
                }
            }
        };
        (v, n)
    }
    fn convert(self) -> Self {
        let r: core::option::Option<A> = self.into();
        black_box(r).into()
    }
    fn noop(&mut self, how: usize) {
        match how % 4 {
            0 => drop(self.as_mut()),
            1 => self.match_mut(|_| (), || ()),
            2 => self.match_mut_ctx((), |_, g| drop(black_box(g)), |_| ()),
            _ => self.match_ref_ctx((), |_, _| (), |_| ()),
        }
    }
    fn set(&mut self, how: usize, act: usize, i: usize) -> (J, J) {
        let mut out = (J::L(vec![]), J::L(vec![]));
        let o = &mut out;
        let _ = catch_unwind(AssertUnwindSafe(|| match (how / 2) % 3 {
            0 => {
                if let Some(mut g) = self.as_mut() {
                    ed(&mut *g, how, act, i, o);
                }
            }
            1 => self.match_mut(|mut g| ed(&mut *g, how, act, i, o), || ()),
            _ => self.match_mut_ctx(o, |o, mut g| ed(&mut *g, how, act, i, o), |_| ()),
        }));
        out
    }
    fn set_shared(&self, i: usize, fill: u8) -> Option<(J, J)> {
        self.match_ref(|a| { let e = a.enc(); a.edit_shared(i, fill).map(|n| (e, n)) }, || None)
    }
}
// Packed enums. Units are payloads of type ().
macro_rules! packed {
    ($e: ident { $($v: ident $t: ty = $k: literal),* }) => {
        #[stabby_abi::stabby]
        #[repr(stabby)]
        #[derive(Clone)]
        pub enum $e { $($v($t)),* }
        impl Ty for $e {
            fn ex() -> J { ex!("en", J::L(vec![$(<$t as Ty>::ex()),*])) }
            fn count() -> usize { [$($k),*].len() * (0 $(.max(<$t as Ty>::count()))*) }
            fn mk(i: usize) -> Self {
                let c = [$($k),*].len();
                let fill = FILLS[(i / c) % 4];
                match i % c { $($k => $e::$v(dirty(<$t as Ty>::mk(i / c), fill)),)* _ => unreachable!() }
            }
            fn enc(&self) -> J { self.match_ref($(|x: &$t| ex!($k, x.enc())),*) }
            fn want(i: usize) -> J {
                let c = [$($k),*].len();
                match i % c { $($k => ex!($k, <$t as Ty>::want(i / c)),)* _ => unreachable!() }
            }
            fn edit(&mut self, act: usize, i: usize) -> J {
                if act < 4 { return edit_plain(self, act, i); }
                let k = self.match_ref($(|_: &$t| $k),*);
                ex!(k, self.set(act, act - 4, i).1)
            }
        }
        impl Sum for $e {
            fn is(&self, how: usize) -> J {
                let mut l = vec![$($k * 0),*];
                let k: usize = match how % 2 {
                    0 => self.match_ref($(|_: &$t| $k),*),
                    _ => self.match_ref_ctx(black_box(7), $(|c: i32, _: &$t| if c == 7 { $k } else { 0 }),*),
                };
                l[k] = 1;
                il(l.into_iter().map(|x| x as i64))
            }
            fn take(self, how: usize) -> (J, i64) {
                let n = std::cell::Cell::new(0);
                let v = match how % 2 {
                    0 => self.match_owned($(|x: $t| { n.set(n.get() + 1); ex!($k, x.enc()) }),*),
                    _ => self.match_owned_ctx(&n, $(|n: &std::cell::Cell<i64>, x: $t| { n.set(n.get() + 1); ex!($k, x.enc()) }),*),
                };
                (v, n.get())
            }
            fn convert(self) -> Self { self.match_owned($(|x: $t| $e::$v(black_box(x))),*) }
            fn noop(&mut self, how: usize) {
                match how % 2 {
                    0 => self.match_mut($(|_: &mut $t| ()),*),
                    _ => self.match_mut_ctx((), $(|_, x: &mut $t| drop(black_box(x))),*),
                }
            }
            fn set(&mut self, how: usize, act: usize, i: usize) -> (J, J) {
                let mut out = (J::I(0), J::I(0));
                let o = &mut out;
                let _ = catch_unwind(AssertUnwindSafe(|| match (how / 2) % 2 {
                    0 => {
                        let c = std::cell::RefCell::new(o);
                        self.match_mut($(|x: &mut $t| ed(x, how, act, i, &mut c.borrow_mut())),*)
                    }
                    _ => self.match_mut_ctx(o, $(|o: &mut (J, J), x: &mut $t| ed(x, how, act, i, o)),*),
                }));
                out
            }
            fn set_shared(&self, i: usize, fill: u8) -> Option<(J, J)> {
                self.match_ref($(|x: &$t| { let e = x.enc(); x.edit_shared(i, fill).map(|n| (e, n)) }),*)
            }
        }
    };
}
struct Cx {
    o: Out,
    r: Rng,
    deep: bool,
    only: Option<String>,
}
/// How many values it says are spare for the compiler (2: several), and whether the compiler does find one, or two.
fn niches<T: IStable>() -> J {
    let claim = match <T::HasExactlyOneNiche as stabby_abi::istable::ISaturatingAdd>::VALUE {
        stabby_abi::istable::SaturatingAddValue::B0 => 0,
        stabby_abi::istable::SaturatingAddValue::B1 => 1,
        stabby_abi::istable::SaturatingAddValue::Saturator => 2,
    };
    let n = size_of::<T>();
    let fits = |m: usize| (n > 0 && m == n) as i64;
    obj! {o: "niches", claim: claim, one: fits(size_of::<Option<T>>()), two: fits(size_of::<Option<Option<T>>>())}
}
fn layout_events<T: IStable>(c: &mut Cx) -> Vec<J> {
    let n = size_of::<T>();
    let mut ev = vec![obj! {o: "layout", size: <T::Size as Unsigned>::USIZE, align: <T::Align as Unsigned>::USIZE,
        rsize: n, ralign: align_of::<T>(), ub: bl(&ub::<T>())}];
    ev.push(niches::<T>());
    #[cfg(feature = "abi_stable")]
    ev.push(obj! {o: "ctype", size: size_of::<T::CType>(), align: align_of::<T::CType>()});
    let mut pats: Vec<Vec<u8>> = vec![];
    if n == 1 {
        pats = (0..=255).map(|x| vec![x]).collect();
    } else if n > 0 {
        for bg in [0u8, 255, 1] {
            pats.push(vec![bg; n]);
            for k in 0..n {
                for x in [0u8, 1, 2, 254, 255] {
                    let mut p = vec![bg; n];
                    p[k] = x;
                    pats.push(p);
                }
            }
        }
        // stretches of zeros, where forbidden values hide
        for len in [1, 2, 4, 8, 16] {
            for k in 0..n {
                let mut p = vec![0x77; n];
                for q in k..(k + len).min(n) {
                    p[q] = 0;
                }
                pats.push(p);
            }
        }
        for _ in 0..8 {
            pats.push((0..n).map(|_| *c.r.pick(&[0u8, 0, 0, 1, 2, 255])).collect());
        }
    }
    pats.sort();
    pats.dedup();
    let max = if c.deep { 400 } else { 60 };
    while pats.len() > max && n > 1 {
        let k = c.r.below(pats.len() as _) as usize;
        pats.swap_remove(k);
    }
    for p in pats {
        #[repr(C, align(64))]
        struct Buf([u8; 512]);
        let mut b = Buf([0x77; 512]);
        b.0[..n].copy_from_slice(&p);
        let r = unsafe { T::is_invalid(black_box(b.0.as_ptr())) };
        ev.push(obj! {o: "invalid", b: bl(&p), r: r});
    }
    ev
}
fn see<T: Ty>(o: &'static str, x: &T) -> J {
    obj! {o: o, d: x.enc(), b: bl(&bytes(x))}
}
fn wants(c: &Cx, what: &str) -> bool {
    c.only.as_deref().map_or(true, |o| o == what)
}
/// Layout of a type whose values aren't looked at.
fn fact<T: IStable>(c: &mut Cx, ex: J) {
    if !wants(c, "layout") {
        return;
    }
    let name = std::any::type_name::<T>();
    c.o.begin(&format!("layout of {name}"));
    let ev = layout_events::<T>(c);
    c.o.trace_meta(obj! {t: ex}, ev, J::S(name.into()));
}
/// Layout and the values of any type.
fn ty<T: Ty>(c: &mut Cx) {
    if !wants(c, "layout") {
        return;
    }
    let name = std::any::type_name::<T>();
    c.o.begin(&format!("layout of {name}"));
    let mut ev = layout_events::<T>(c);
    for i in 0..T::count().min(if c.deep { 16 } else { 6 }) {
        let mut x = T::mk(i);
        ev.push(obj! {o: "make", v: T::want(i), d: x.enc(), b: bl(&bytes(&x))});
        for f in [255, 0] {
            unsafe { scribble(&mut x, f) };
            ev.push(obj! {o: "dirty", d: x.enc(), b: bl(&bytes(&x))});
        }
        let y = black_box(Box::new(x));
        ev.push(see("move", &*y));
    }
    c.o.trace_meta(obj! {t: T::ex()}, ev, J::S(name.into()));
}
#[inline(never)]
fn passed<T>(x: T) -> T {
    black_box(x)
}
fn sum<T: Sum>(c: &mut Cx) {
    ty::<T>(c);
    let name = std::any::type_name::<T>();
    let n = T::count().min(if c.deep { 24 } else { 10 });
    for i in 0..n {
        if wants(c, "values") {
            c.o.begin(&format!("value {i} of {name}"));
            let mut ev = vec![];
            let mut x = T::mk(i);
            ev.push(obj! {o: "make", v: T::want(i), d: x.enc(), b: bl(&bytes(&x))});
            for h in 0..3 {
                ev.push(obj! {o: "ask", r: x.is(h)});
            }
            let y = x.clone();
            ev.push(see("clone", &y));
            x = passed(x);
            ev.push(see("move", &x));
            let mut l = vec![y, x];
            l.swap(0, 1);
            l.reserve(100);
            ev.push(see("move", &l[1]));
            x = l.remove(0);
            for f in FILLS {
                unsafe { scribble(&mut x, f) };
                ev.push(obj! {o: "dirty", d: x.enc(), b: bl(&bytes(&x))});
            }
            ev.push(see("clone", &x.clone()));
            x = x.convert();
            ev.push(see("convert", &x));
            for h in 0..4 {
                let (v, k) = x.clone().take(h);
                ev.push(obj! {o: "take", v: v, r: il([k])});
            }
            c.o.trace_meta(obj! {t: T::ex()}, ev, J::S(name.into()));
        }
        if wants(c, "mutate") {
            c.o.begin(&format!("in-place changes of value {i} of {name}"));
            let mut ev = vec![];
            let mut x = T::mk(i);
            ev.push(obj! {o: "make", v: T::want(i), d: x.enc(), b: bl(&bytes(&x))});
            for h in 0..4 {
                x.noop(h);
                ev.push(see("noop", &x));
            }
            for k in 0..if c.deep { 24 } else { 8 } {
                let (how, act) = if k < 6 { (k, k + 4 * (k / 4)) } else { (c.r.below(6) as usize, c.r.below(12) as usize) };
                let (old, new) = x.set(how, act, i + k + 1);
                ev.push(obj! {o: "set", old: old, v: new, d: x.enc(), b: bl(&bytes(&x))});
                if let Some((old, new)) = x.set_shared(i + k, FILLS[k % 4]) {
                    ev.push(obj! {o: "set", old: old, v: new, d: x.enc(), b: bl(&bytes(&x))});
                }
                if k % 3 == 2 {
                    unsafe { scribble(&mut x, FILLS[k % 4]) };
                    ev.push(obj! {o: "dirty", d: x.enc(), b: bl(&bytes(&x))});
                    x.noop(k);
                    ev.push(see("noop", &x));
                }
            }
            let (v, k) = x.take(i);
            ev.push(obj! {o: "take", v: v, r: il([k])});
            c.o.trace_meta(obj! {t: T::ex()}, ev, J::S(name.into()));
        }
    }
}
macro_rules! cross {
    ($c: expr, [$($a: ty),*], $bs: tt) => { $(cross!(@ $c, $a, $bs);)* };
    (@ $c: expr, $a: ty, [$($b: ty),*]) => { $(sum::<SResult<$a, $b>>($c);)* };
}
macro_rules! each {
    ($f: ident, $c: expr, [$($a: ty),* $(,)?]) => { $($f::<$a>($c);)* };
}
type R<A, B> = SResult<A, B>;
type O<A> = SOption<A>;
fn run(f: fn(&mut Cx)) {
    let a = vharness::args();
    let only = match a.suite.rsplit('_').next().unwrap() {
        "layout" => "layout",
        "values" => "values",
        "mutate" => "mutate",
        s => panic!("unknown suite {s}"),
    };
    let mut c = Cx { o: Out::new(&a.out, &a.suite), r: Rng::new(a.seed), deep: a.thorough, only: Some(only.into()) };
    f(&mut c);
    c.o.finish();
}
