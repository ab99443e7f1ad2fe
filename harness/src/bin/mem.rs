//! Allocations: what containers ask of allocators, and what the provided allocators give.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::mem::{align_of, size_of};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering};
use std::sync::Mutex;
use stabby_abi::alloc::allocators::{LibcAlloc, RustAlloc};
use stabby_abi::alloc::boxed::{Box as SBox, BoxedSlice};
use stabby_abi::alloc::single_or_vec::SingleOrVec;
use stabby_abi::alloc::sync::{Arc, ArcSlice, WeakSlice};
use stabby_abi::alloc::vec::Vec as SVec;
use stabby_abi::alloc::{AllocPrefix, AllocPtr, IAlloc, Layout};
use vharness::galloc::{self, Galloc};
use vharness::{args, catch, obj, quiet_panics, Out, Rng, J};
#[global_allocator]
static G: Galloc = Galloc;
fn clip(v: usize) -> i64 {
    v.min(i32::MAX as usize) as i64
}

// ---- a recording allocator -----------------------------------------------------------------
#[derive(Clone, Copy)]
struct Blk {
    no: usize,
    user: usize,
    raw: (usize, usize),
    size: usize,
    align: usize,
    live: bool,
}
#[derive(Default)]
struct Rec {
    ev: Vec<J>,
    blocks: Vec<Blk>,
    fail: i64,
}
thread_local! { static REC: RefCell<Rec> = const { RefCell::new(Rec { ev: Vec::new(), blocks: Vec::new(), fail: -1 }) }; }
fn rec<R>(f: impl FnOnce(&mut Rec) -> R) -> R {
    REC.with(|r| f(&mut r.borrow_mut()))
}
fn log(e: J) {
    rec(|r| r.ev.push(e))
}
impl Rec {
    fn failing(&mut self) -> bool {
        let now = self.fail == 0;
        self.fail -= (self.fail >= 0) as i64;
        now
    }
    /// Exactly as aligned as requested, never more; not a byte more than requested can be relied on.
    fn make(&mut self, l: Layout) -> Option<Blk> {
        if l.size == 0 || l.size > 1 << 24 || !l.align.is_power_of_two() || self.failing() {
            return None;
        }
        let raw = std::alloc::Layout::from_size_align(l.size + 3 * l.align + 512, 16).unwrap();
        // SAFETY: not zero-sized
        let p = unsafe { std::alloc::alloc(raw) } as usize;
        let mut user = (p + 256 + l.align - 1) & !(l.align - 1);
        if user & (2 * l.align - 1) == 0 {
            user += l.align;
        }
        let b = Blk { no: self.blocks.len() + 1, user, raw: (p, raw.size()), size: l.size, align: l.align, live: true };
        self.blocks.push(b);
        Some(b)
    }
    /// The block that starts at or contains an address, and the offset in it.
    fn at(&self, p: usize) -> (usize, i64) {
        self.blocks.iter().rev().find(|b| b.live && p >= b.user && p <= b.user + b.size).map_or((0, 0), |b| (b.no, (p - b.user) as i64))
    }
    fn end(&mut self) -> Vec<J> {
        for b in std::mem::take(&mut self.blocks) {
            // SAFETY: allocated by `make`, and only freed here
            unsafe { std::alloc::dealloc(b.raw.0 as *mut u8, std::alloc::Layout::from_size_align(b.raw.1, 16).unwrap()) }
        }
        self.fail = -1;
        std::mem::take(&mut self.ev)
    }
}
fn req(l: Layout, inst: i64) -> *mut () {
    rec(|r| {
        let injected = r.fail == 0;
        let b = r.make(l);
        r.ev.push(obj! {k: "req", b: b.map_or(0, |b| b.no), size: clip(l.size), align: clip(l.align), base: b.map_or(0, |b| b.user % 4096), inst: inst, inj: injected});
        b.map_or(core::ptr::null_mut(), |b| b.user as *mut ())
    })
}
fn free(p: *mut (), inst: i64) {
    rec(|r| {
        let (no, off) = r.at(p as usize);
        r.ev.push(obj! {k: "free", b: no, off: off, inst: inst});
        if no > 0 && off == 0 {
            r.blocks[no - 1].live = false;
        }
    })
}
fn resize(p: *mut (), prev: Layout, new: usize, inst: i64) -> *mut () {
    rec(|r| {
        let (no, off) = r.at(p as usize);
        let injected = r.fail == 0;
        let n = if no > 0 { r.make(Layout { size: new, align: r.blocks[no - 1].align }) } else { None };
        r.ev.push(obj! {k: "resize", b: no, off: off, psize: clip(prev.size), palign: clip(prev.align), n: n.map_or(0, |b| b.no), size: clip(new), base: n.map_or(0, |b| b.user % 4096), inst: inst, inj: injected});
        if let Some(n) = n {
            let b = r.blocks[no - 1];
            // SAFETY: both blocks are that large
            unsafe { core::ptr::copy_nonoverlapping(b.user as *const u8, n.user as *mut u8, b.size.min(new)) };
            r.blocks[no - 1].live = false;
        }
        n.map_or(core::ptr::null_mut(), |b| b.user as *mut ())
    })
}
trait RecA: IAlloc + Clone + Default + 'static {
    fn mk(i: u32) -> Self;
}
macro_rules! rec_alloc {
    ($n: ident, $(#[$m: meta])* { $($f: ident: $t: ty = $v: expr),* }, $i: expr, $id: expr, $native: tt) => {
        #[stabby::stabby]
        $(#[$m])*
        #[derive(Clone)]
        struct $n { $($f: $t),* }
        impl Default for $n { fn default() -> Self { Self::mk(1) } }
        impl RecA for $n {
            fn mk(#[allow(unused)] i: u32) -> Self { let f: fn(u32) -> $n = $i; f(i) }
        }
        impl $n { fn id(&self) -> i64 { let f: fn(&$n) -> i64 = $id; f(self) } }
        impl IAlloc for $n {
            fn alloc(&mut self, layout: Layout) -> *mut () { req(layout, self.id()) }
            unsafe fn free(&mut self, ptr: *mut ()) { free(ptr, self.id()) }
            rec_alloc!($native);
        }
    };
    (native) => {
        unsafe fn realloc(&mut self, ptr: *mut (), prev: Layout, new: usize) -> *mut () { resize(ptr, prev, new, self.id()) }
    };
    (default) => {};
}
rec_alloc!(R4, { id: u32 = 0 }, |i| R4 { id: i }, |s| s.id as i64, native);
rec_alloc!(R1, { id: u8 = 0 }, |i| R1 { id: i as u8 }, |s| s.id as i64, default);
rec_alloc!(R24, { id: u64 = 0, a: u64 = 0, b: u64 = 0 }, |i| R24 { id: i as u64, a: !i as u64, b: 77 }, |s| if s.a == (!(s.id as u32)) as u64 && s.b == 77 { s.id as i64 } else { -1 }, native);
/// An allocator without any state.
#[stabby::stabby]
#[derive(Clone, Default)]
struct R0 {}
impl RecA for R0 {
    fn mk(_: u32) -> Self {
        R0 {}
    }
}
impl IAlloc for R0 {
    fn alloc(&mut self, layout: Layout) -> *mut () {
        req(layout, 0)
    }
    unsafe fn free(&mut self, ptr: *mut ()) {
        free(ptr, 0)
    }
    unsafe fn realloc(&mut self, ptr: *mut (), prev: Layout, new: usize) -> *mut () {
        resize(ptr, prev, new, 0)
    }
}

// ---- elements -------------------------------------------------------------------------------
trait El: Sized + 'static {
    fn make(v: usize) -> Self;
    fn is(&self, v: usize) -> bool;
    fn sov(rng: &mut Rng);
}
macro_rules! sov {
    ($r: expr, $t: ty, $a: ty) => {{
    let mut s: SingleOrVec<$t, $a> = SingleOrVec::new_in(<$a>::mk(2));
    let mut vals = Vec::new();
    for v in 0..$r.below(6) {
        s.push(<$t>::make(v));
        vals.push(v);
        if s.len() > 1 {
            area::<$t, $a>(s.as_slice().as_ptr(), s.len(), s.capacity(), &vals, true);
        }
    }
    drop(s);
    }};
}
macro_rules! el {
    ($($n: ident $a: literal $s: literal $($sov: ident)?;)*) => {
        $(
            #[stabby::stabby]
            #[repr(C, align($a))]
            #[derive(Clone, Copy)]
            struct $n([u8; $s]);
            impl El for $n {
                fn make(v: usize) -> Self { $n([v as u8; $s]) }
                fn is(&self, v: usize) -> bool { self.0.iter().all(|b| *b == v as u8) }
                fn sov(#[allow(unused)] rng: &mut Rng) { $($sov!(rng, $n, R4); $sov!(rng, $n, R1);)? }
            }
        )*
        type Prog = (&'static str, fn(&mut Rng, bool));
        fn programs() -> Vec<Prog> { let mut l: Vec<Prog> = Vec::new(); $( l.push((concat!(stringify!($n), " R4"), program::<$n, R4>)); l.push((concat!(stringify!($n), " R1"), program::<$n, R1>)); l.push((concat!(stringify!($n), " R24"), program::<$n, R24>)); l.push((concat!(stringify!($n), " R0"), program::<$n, R0>)); )* l }
    };
}
el! { E1x1 1 1 sov; E1x3 1 3 sov; E2x2 2 2 sov; E2x6 2 6; E4x4 4 4 sov; E4x12 4 12; E8x8 8 8 sov; E8x40 8 40; E16x16 16 16 sov; E32x32 32 32; E64x128 64 128; E128x128 128 128; Z1 1 0; Z64 64 0; }
/// Where `n` elements from `p` on are.
fn area<T: El, A: RecA>(p: *const T, len: usize, cap: usize, vals: &[usize], prefixed: bool) {
    let content = (0..len).all(|i| unsafe { (*p.add(i)).is(vals[i]) }) && len == vals.len();
    if size_of::<T>() == 0 || cap == 0 {
        return log(obj! {k: "empty", aligned: p as usize % align_of::<T>() == 0, content: content});
    }
    let (b, off) = rec(|r| r.at(p as usize));
    log(obj! {k: "area", b: b, off: off, esize: size_of::<T>(), ealign: align_of::<T>(), n: clip(cap),
        prefix: if prefixed { size_of::<AllocPrefix<A>>() } else { 0 }, palign: align_of::<AllocPrefix<A>>(), content: content});
}
enum C<T: El, A: RecA> {
    None,
    Vec(SVec<T, A>),
    Slice(BoxedSlice<T, A>),
    ArcSlice(ArcSlice<T, A>, Vec<ArcSlice<T, A>>, Vec<WeakSlice<T, A>>),
    Box(SBox<T, A>),
    Arc(Arc<T, A>),
    Raw(AllocPtr<T, A>, A, usize),
}
fn show<T: El, A: RecA>(c: &C<T, A>, vals: &[usize]) {
    match c {
        C::None => {}
        C::Vec(v) => area::<T, A>(v.as_slice().as_ptr(), v.len(), v.capacity(), vals, v.capacity() > 0),
        C::Slice(v) => area::<T, A>(v.as_slice().as_ptr(), v.len(), v.len(), vals, true),
        C::ArcSlice(v, ..) => area::<T, A>(v.as_slice().as_ptr(), v.len(), v.len(), vals, true),
        C::Box(v) => area::<T, A>(&**v, 1, 1, vals, true),
        C::Arc(v) => area::<T, A>(&**v, 1, 1, vals, true),
        C::Raw(p, _, cap) => area::<T, A>(p.ptr.as_ptr(), 0, *cap, &[], true),
    }
}
/// A random program over one container, turning it into others, with refused requests now and then.
fn program<T: El + Clone + stabby_abi::IStable, A: RecA + stabby_abi::IStable>(rng: &mut Rng, inject: bool)
{
    let mut c: C<T, A> = C::None;
    let mut vals: Vec<usize> = Vec::new();
    let mut next = 1;
    for _ in 0..12 {
        let inst = 1 + rng.below(3) as u32;
        if inject && rng.chance(1, 3) {
            rec(|r| r.fail = rng.below(3) as i64);
        }
        let old = std::mem::replace(&mut c, C::None);
        c = match old {
            C::None => {
                vals.clear();
                match rng.below(6) {
                    0 => C::Vec(SVec::new_in(A::mk(inst))),
                    1 => match SVec::try_with_capacity_in(*rng.pick(&[0, 1, 2, 3, 5, 8, 17, 100, usize::MAX, usize::MAX / size_of::<T>().max(1) - 1, isize::MAX as usize / size_of::<T>().max(1)]), A::mk(inst)) {
                        Ok(v) => C::Vec(v),
                        Err(_) => C::None,
                    },
                    2 => match SBox::try_new_in(T::make(next), A::mk(inst)) {
                        Ok(b) => {
                            vals.push(next);
                            C::Box(b)
                        }
                        Err(_) => C::None,
                    },
                    3 => match Arc::try_new_in(T::make(next), A::mk(inst)) {
                        Ok(b) => {
                            vals.push(next);
                            C::Arc(b)
                        }
                        Err(_) => C::None,
                    },
                    4 => {
                        let mut a = A::mk(inst);
                        let cap = *rng.pick(&[1, 2, 3, 7, 33, usize::MAX / 2, usize::MAX]);
                        match AllocPtr::<T, A>::alloc_array(&mut a, cap) {
                            Some(p) => C::Raw(p, a, cap),
                            None => C::None,
                        }
                    }
                    _ => match catch(|| BoxedSlice::with_capacity_in(1 + rng.below(5), A::mk(inst))) {
                        Some(v) => C::Slice(v),
                        None => C::None,
                    },
                }
            }
            C::Vec(mut v) => match rng.below(9) {
                0..=2 => {
                    for _ in 0..1 + rng.below(5) {
                        if v.try_push(T::make(next)).is_ok() {
                            vals.push(next);
                            next += 1;
                        }
                    }
                    C::Vec(v)
                }
                3 => {
                    let _ = v.try_reserve(*rng.pick(&[0, 1, 2, 9, 70, usize::MAX - 1, usize::MAX / size_of::<T>().max(1)]));
                    C::Vec(v)
                }
                4 => {
                    let n = rng.below(vals.len() + 2);
                    v.truncate(n);
                    vals.truncate(n);
                    C::Vec(v)
                }
                5 => C::Slice(v.into()),
                6 => match catch(|| v.into()) {
                    Some(a) => C::ArcSlice(a, Vec::new(), Vec::new()),
                    None => C::None,
                },
                7 => {
                    // copied by an allocator equal to the first one
                    match catch(|| v.clone()) {
                        Some(w) => {
                            show(&C::Vec(w), &vals);
                            C::Vec(v)
                        }
                        None => C::Vec(v),
                    }
                }
                _ => {
                    drop(v);
                    C::None
                }
            },
            C::Slice(mut s) => match rng.below(4) {
                0 => C::Vec(s.into()),
                1 | 2 => {
                    if s.try_push(T::make(next)).is_ok() {
                        vals.push(next);
                    }
                    C::Slice(s)
                }
                _ => {
                    drop(s);
                    C::None
                }
            },
            C::ArcSlice(a, mut s, mut w) => match rng.below(6) {
                0 if s.len() < 3 => {
                    s.push(a.clone());
                    C::ArcSlice(a, s, w)
                }
                1 if w.len() < 3 => {
                    w.push((&a).into());
                    C::ArcSlice(a, s, w)
                }
                2 => {
                    s.pop();
                    C::ArcSlice(a, s, w)
                }
                3 => {
                    w.pop();
                    C::ArcSlice(a, s, w)
                }
                4 => {
                    s.clear();
                    w.clear();
                    match a.try_into() {
                        Ok(v) => C::Vec(v),
                        Err(a) => C::ArcSlice(a, s, w),
                    }
                }
                _ => {
                    drop(a);
                    drop(s);
                    drop(w);
                    C::None
                }
            },
            C::Box(b) => {
                if rng.chance(1, 2) {
                    let v = SBox::into_inner(b);
                    log(obj! {k: "empty", aligned: true, content: v.is(vals[0])});
                } else {
                    drop(b);
                }
                C::None
            }
            C::Arc(a) => match rng.below(3) {
                0 => C::ArcSlice(a.into(), Vec::new(), Vec::new()),
                1 => {
                    let w = stabby_abi::alloc::sync::Weak::from(&a);
                    drop(a);
                    drop(w.upgrade());
                    C::None
                }
                _ => match Arc::try_into_inner(a) {
                    Ok(v) => {
                        log(obj! {k: "empty", aligned: true, content: v.is(vals[0])});
                        C::None
                    }
                    Err(a) => C::Arc(a),
                },
            },
            C::Raw(p, mut a, cap) => {
                // SAFETY: `p` was allocated by `a` with this capacity, unless elements have no size
                unsafe {
                    if rng.chance(2, 3) {
                        let to = *rng.pick(&[1, 2, 4, 9, 40, usize::MAX, usize::MAX / 8]);
                        match p.realloc(&mut a, cap, to) {
                            Some(p) => C::Raw(p, a, to),
                            None => C::Raw(p, a, cap),
                        }
                    } else {
                        p.free(&mut a);
                        C::None
                    }
                }
            }
        };
        show(&c, &vals);
    }
    match c {
        // SAFETY: as above
        C::Raw(p, mut a, _) => unsafe { p.free(&mut a) },
        c => drop(c),
    }
    rec(|r| r.fail = -1);
    T::sov(rng);
}

// ---- what the provided allocators do with the memory below ----------------------------------
// The C library's functions, as this program's allocator sees them.
extern "C" {
    fn __libc_free(p: *mut u8);
    fn __libc_realloc(p: *mut u8, n: usize) -> *mut u8;
    fn __libc_malloc(n: usize) -> *mut u8;
    fn __libc_memalign(a: usize, n: usize) -> *mut u8;
}
static WATCH: AtomicBool = AtomicBool::new(false);
static CFAIL: AtomicI64 = AtomicI64::new(-1);
static CLIVE: AtomicI64 = AtomicI64::new(0);
static CBAD: AtomicUsize = AtomicUsize::new(0);
static CBLOCKS: Mutex<BTreeMap<usize, (usize, usize)>> = Mutex::new(BTreeMap::new());
/// While the C allocator's functions are watched, blocks are exactly aligned, and surrounded by patterns.
const RZ: usize = 128;
fn watched<R>(f: impl FnOnce() -> R) -> R {
    WATCH.store(true, Ordering::SeqCst);
    let r = f();
    WATCH.store(false, Ordering::SeqCst);
    r
}
fn paused<R>(f: impl FnOnce() -> R) -> R {
    let w = WATCH.swap(false, Ordering::SeqCst);
    let r = f();
    WATCH.store(w, Ordering::SeqCst);
    r
}
unsafe fn c_make(align: usize, n: usize) -> *mut u8 {
    if n > 1 << 28 {
        return core::ptr::null_mut();
    }
    let f = CFAIL.load(Ordering::SeqCst);
    if f >= 0 {
        CFAIL.store(f - 1, Ordering::SeqCst);
        if f == 0 {
            return core::ptr::null_mut();
        }
    }
    let raw = __libc_malloc(n + 2 * RZ + 2 * align) as usize;
    let mut u = (raw + RZ + align - 1) & !(align - 1);
    if u & (2 * align - 1) == 0 {
        u += align;
    }
    core::ptr::write_bytes((u - RZ) as *mut u8, 0xA5, RZ);
    core::ptr::write_bytes(u as *mut u8, 0xCD, n);
    core::ptr::write_bytes((u + n) as *mut u8, 0xA5, RZ);
    CBLOCKS.lock().unwrap().insert(u, (raw, n));
    CLIVE.fetch_add(1, Ordering::SeqCst);
    u as *mut u8
}
unsafe fn c_free(p: *mut u8) {
    let Some((raw, n)) = CBLOCKS.lock().unwrap().remove(&(p as usize)) else {
        CBAD.fetch_add(1, Ordering::SeqCst);
        return;
    };
    if !(1..=RZ).all(|k| *p.sub(k) == 0xA5) || !(0..RZ).all(|k| *p.add(n + k) == 0xA5) {
        CBAD.fetch_add(1, Ordering::SeqCst);
    }
    CLIVE.fetch_sub(1, Ordering::SeqCst);
    core::ptr::write_bytes(p, 0xDD, n);
    __libc_free(raw as *mut u8);
}
#[no_mangle]
unsafe extern "C" fn posix_memalign(out: *mut *mut u8, align: usize, n: usize) -> i32 {
    if !align.is_power_of_two() || align % size_of::<usize>() != 0 {
        return 22;
    }
    let p = if WATCH.load(Ordering::SeqCst) { paused(|| c_make(align, n)) } else { __libc_memalign(align, n) };
    if p.is_null() {
        return 12;
    }
    *out = p;
    0
}
#[no_mangle]
unsafe extern "C" fn malloc(n: usize) -> *mut u8 {
    if WATCH.load(Ordering::SeqCst) {
        paused(|| c_make(16, n))
    } else {
        __libc_malloc(n)
    }
}
unsafe fn free_c(p: *mut u8) {
    if WATCH.load(Ordering::SeqCst) && !p.is_null() {
        paused(|| c_free(p))
    } else {
        __libc_free(p)
    }
}
#[export_name = "free"]
unsafe extern "C" fn c_free_entry(p: *mut u8) {
    free_c(p)
}
#[no_mangle]
unsafe extern "C" fn realloc(p: *mut u8, n: usize) -> *mut u8 {
    if !WATCH.load(Ordering::SeqCst) {
        return __libc_realloc(p, n);
    }
    paused(|| {
        let Some(old) = CBLOCKS.lock().unwrap().get(&(p as usize)).map(|b| b.1) else {
            CBAD.fetch_add(1, Ordering::SeqCst);
            return core::ptr::null_mut();
        };
        let q = c_make(16, n);
        if !q.is_null() {
            core::ptr::copy_nonoverlapping(p, q, old.min(n));
            c_free(p);
        }
        q
    })
}
struct Under {
    name: &'static str,
    fail: fn(i64) -> i64,
    state: fn() -> (i64, usize),
    on: fn(&mut dyn FnMut()),
}
fn unders() -> [Under; 2] {
    [
        Under { name: "rust", fail: |n| galloc::FAIL.swap(n, Ordering::SeqCst), state: || (galloc::LIVE.load(Ordering::SeqCst), galloc::BAD.load(Ordering::SeqCst)), on: |f| galloc::tracking(f) },
        Under { name: "libc", fail: |n| CFAIL.swap(n, Ordering::SeqCst), state: || (CLIVE.load(Ordering::SeqCst), CBAD.load(Ordering::SeqCst)), on: |f| watched(f) },
    ]
}
#[allow(deprecated)]
fn dynamic<'a, A: IAlloc + 'a>(a: &'a mut A) -> impl IAlloc + 'a {
    use stabby_abi::alloc::IStableAlloc;
    let d: stabby::dynptr!(&'a mut dyn IStableAlloc) = a.into();
    d
}
struct Held {
    no: usize,
    p: usize,
    size: usize,
    align: usize,
    fill: u8,
}
fn provided<A: IAlloc>(mut a: A, u: &Under, rng: &mut Rng, big: bool) -> Vec<J> {
    let mut ev = Vec::new();
    let mut held: Vec<Held> = Vec::new();
    let mut next = 0;
    let (live0, bad0) = (u.state)();
    let sizes = [0usize, 1, 2, 3, 7, 8, 9, 15, 16, 24, 31, 40, 63, 64, 65, 100, 127, 128, 200, 256, 1000, 4097, 100_000];
    let huge = [usize::MAX, usize::MAX - 8, usize::MAX - 63, isize::MAX as usize, isize::MAX as usize - 40, 1 << 46];
    let overlap = |held: &[Held], p: usize, n: usize, but: usize| held.iter().any(|h| h.no != but && p < h.p + h.size && h.p < p + n);
    for _ in 0..14 {
        let op = rng.below(10);
        let size = if rng.chance(1, 8) { *rng.pick(&huge) } else if rng.chance(1, 2) { *rng.pick(&sizes) } else { rng.below(300) };
        if !big && size > 1 << 30 && u.name == "libc" && size == 1 << 46 {
            continue;
        }
        let inj = rng.chance(1, 6);
        if inj {
            (u.fail)(0);
        }
        let mut out = 0;
        if held.is_empty() || op < 4 {
            let align = 1 << rng.below(9);
            (u.on)(&mut || out = a.alloc(Layout { size, align }) as usize);
            let failed = inj && (u.fail)(-1) < 0;
            next += 1;
            ev.push(obj! {k: "req", b: if out == 0 { 0 } else { next }, size: clip(size), align: align, base: out % 4096, inst: 0, inj: failed, over: out != 0 && overlap(&held, out, size, 0)});
            if out != 0 {
                // SAFETY: it was allocated
                unsafe { core::ptr::write_bytes(out as *mut u8, next as u8, size) };
                held.push(Held { no: next, p: out, size, align, fill: next as u8 });
            }
        } else {
            let i = rng.below(held.len());
            let h = &held[i];
            // SAFETY: it's a live block
            let kept = |p: usize, n: usize, f: u8| (0..n).take_while(|k| unsafe { *((p + k) as *const u8) } == f).count();
            let before = kept(h.p, h.size, h.fill);
            ev.push(obj! {k: "kept", b: h.no, n: before});
            if op < 8 {
                // SAFETY: it's a live block of this layout
                (u.on)(&mut || out = unsafe { a.realloc(h.p as *mut (), Layout { size: h.size, align: h.align }, size) as usize });
                // (a resize may try several ways, so that one failure of what's below need not make it fail)
                let failed = inj && (u.fail)(-1) < 0;
                next += 1;
                ev.push(obj! {k: "resize", b: h.no, off: 0, psize: clip(h.size), palign: h.align, n: if out == 0 { 0 } else { next }, size: clip(size), base: out % 4096, inst: 0, inj: failed, over: out != 0 && overlap(&held, out, size, h.no)});
                if out != 0 {
                    let k = kept(out, h.size.min(size), h.fill);
                    ev.push(obj! {k: "kept", b: next, n: k});
                    let h = &mut held[i];
                    (h.no, h.p, h.size, h.fill) = (next, out, size, next as u8);
                    // SAFETY: it was allocated
                    unsafe { core::ptr::write_bytes(out as *mut u8, next as u8, size) };
                    ev.push(obj! {k: "filled", b: next});
                } else {
                    ev.push(obj! {k: "kept", b: h.no, n: kept(h.p, h.size, h.fill)});
                }
            } else {
                let h = held.swap_remove(i);
                // SAFETY: it's a live block
                (u.on)(&mut || unsafe { a.free(h.p as *mut ()) });
                ev.push(obj! {k: "free", b: h.no, off: 0, inst: 0});
            }
        }
        (u.fail)(-1);
        let (l, b) = (u.state)();
        ev.push(obj! {k: "under", live: l - live0, bad: b - bad0});
    }
    for h in held {
        // SAFETY: it's a live block
        (u.on)(&mut || unsafe { a.free(h.p as *mut ()) });
        ev.push(obj! {k: "free", b: h.no, off: 0, inst: 0});
    }
    let (l, b) = (u.state)();
    ev.push(obj! {k: "under", live: l - live0, bad: b - bad0});
    ev.push(obj! {k: "end"});
    ev
}
fn containers(out: &mut Out, rng: &mut Rng, thorough: bool) {
    for (name, f) in programs() {
        for n in 0..if thorough { 200 } else { 16 } {
            out.begin(&format!("{name} {n}"));
            f(rng, n % 2 == 1);
            log(obj! {k: "end"});
            let ev = rec(|r| r.end());
            out.trace_meta(J::L(vec![]), ev, J::from(name));
        }
    }
}
fn allocators(out: &mut Out, rng: &mut Rng, thorough: bool) {
    for n in 0..if thorough { 6000 } else { 600 } {
        let [r, c] = unders();
        out.begin(&format!("allocators {n}"));
        let (ev, what) = match n % 4 {
            0 => (provided(RustAlloc::new(), &r, rng, true), "RustAlloc"),
            1 => (provided(LibcAlloc::new(), &c, rng, true), "LibcAlloc"),
            2 => (provided(dynamic(&mut RustAlloc::new()), &r, rng, true), "dyn RustAlloc"),
            _ => (provided(dynamic(&mut LibcAlloc::new()), &c, rng, true), "dyn LibcAlloc"),
        };
        out.trace_meta(J::L(vec![]), ev, J::from(what));
    }
}
fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a.out, &a.suite);
    let (mut rng, thorough) = (Rng::new(a.seed), a.thorough);
    match a.suite.as_str() {
        "M01c" => containers(&mut out, &mut rng, thorough),
        "M01a" => allocators(&mut out, &mut rng, thorough),
        s => panic!("unknown suite {s}"),
    }
    out.finish();
}
