//! A global allocator for suites that exercise stabby's default allocator.
//! While tracking is on (per thread), blocks get red zones and freed blocks are poisoned and quarantined.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering};
pub struct Galloc;
thread_local! { static ON: Cell<bool> = const { Cell::new(false) }; }
static QUARANTINE: AtomicBool = AtomicBool::new(false);
pub static FAIL: AtomicI64 = AtomicI64::new(-1);
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static BAD: AtomicUsize = AtomicUsize::new(0);
const RZ: usize = 128;
const MAGIC: u64 = 0x57AB_B1E5_57AB_B1E5;
/// Header just before the user pointer's red zone.
#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    align: usize,
    base: usize,
    total: usize,
    freed: u64,
}
pub fn tracking<R>(f: impl FnOnce() -> R) -> R {
    let prev = ON.with(|o| o.replace(true));
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            ON.with(|o| o.set(self.0));
        }
    }
    let _g = G(prev);
    f()
}
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let prev = ON.with(|o| o.replace(false));
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            ON.with(|o| o.set(self.0));
        }
    }
    let _g = G(prev);
    f()
}
pub fn quarantine(on: bool) {
    QUARANTINE.store(on, Ordering::SeqCst);
}
fn total(l: Layout) -> usize {
    l.size() + 2 * RZ + l.align() + std::mem::size_of::<Head>()
}
unsafe fn head(p: *mut u8) -> *mut Head {
    p.sub(RZ + std::mem::size_of::<Head>()).cast()
}
// Tracked blocks are recognised by a table of their addresses (open addressing, fixed size).
const N: usize = 1 << 20;
static TABLE: [AtomicUsize; N] = [const { AtomicUsize::new(0) }; N];
fn slot(p: usize) -> usize {
    (p >> 4).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 44
}
fn insert(p: usize) {
    let mut i = slot(p) % N;
    loop {
        match TABLE[i].compare_exchange(0, p, Ordering::SeqCst, Ordering::SeqCst) {
            Ok(_) => return,
            Err(v) if v == p || v == 1 && TABLE[i].compare_exchange(1, p, Ordering::SeqCst, Ordering::SeqCst).is_ok() => return,
            _ => i = (i + 1) % N,
        }
    }
}
fn find(p: usize) -> Option<usize> {
    let mut i = slot(p) % N;
    loop {
        match TABLE[i].load(Ordering::SeqCst) {
            0 => return None,
            v if v == p => return Some(i),
            _ => i = (i + 1) % N,
        }
    }
}
unsafe impl GlobalAlloc for Galloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.with(|o| o.get()) {
            return System.alloc(l);
        }
        let f = FAIL.load(Ordering::SeqCst);
        if f >= 0 {
            FAIL.store(f - 1, Ordering::SeqCst);
            if f == 0 {
                return std::ptr::null_mut();
            }
        }
        if l.size() > 1 << 40 {
            return std::ptr::null_mut();
        }
        let t = total(l);
        let base = System.alloc(Layout::from_size_align_unchecked(t, 16));
        let mut u = (base as usize + RZ + std::mem::size_of::<Head>() + l.align() - 1) & !(l.align() - 1);
        if u & (2 * l.align() - 1) == 0 && u + l.align() + l.size() + RZ <= base as usize + t {
            u += l.align(); // exactly aligned
        }
        std::ptr::write_bytes(base, 0xA5, t);
        std::ptr::write_bytes(u as *mut u8, 0xCD, l.size());
        let u = u as *mut u8;
        head(u).write_unaligned(Head { magic: MAGIC, size: l.size(), align: l.align(), base: base as usize, total: t, freed: 0 });
        insert(u as usize);
        LIVE.fetch_add(1, Ordering::SeqCst);
        u
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let Some(i) = find(p as usize) else { return System.dealloc(p, l) };
        let mut h = head(p).read_unaligned();
        if h.magic != MAGIC || h.freed != 0 || h.size != l.size() || h.align != l.align() {
            BAD.fetch_add(1, Ordering::SeqCst);
            return;
        }
        if !(1..=RZ).all(|k| *p.sub(k) == 0xA5) || !(0..RZ.min(h.base + h.total - (p as usize + h.size))).all(|k| *p.add(h.size + k) == 0xA5) {
            BAD.fetch_add(1, Ordering::SeqCst);
        }
        LIVE.fetch_sub(1, Ordering::SeqCst);
        std::ptr::write_bytes(p, 0xDD, h.size);
        if QUARANTINE.load(Ordering::SeqCst) {
            h.freed = 1;
            head(p).write_unaligned(h);
        } else {
            TABLE[i].store(1, Ordering::SeqCst);
            System.dealloc(h.base as *mut u8, Layout::from_size_align_unchecked(h.total, 16));
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if find(p as usize).is_none() {
            return System.realloc(p, l, n);
        }
        let h = head(p).read_unaligned();
        if h.magic != MAGIC || h.freed != 0 || h.size != l.size() || h.align != l.align() {
            BAD.fetch_add(1, Ordering::SeqCst);
        }
        let q = tracking(|| self.alloc(Layout::from_size_align_unchecked(n, h.align)));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, h.size.min(n));
            self.dealloc(p, Layout::from_size_align_unchecked(h.size, h.align));
        }
        q
    }
}

/// What the C library's functions do in programs that route them here (see `route_c_allocator`).
pub static CLIVE: AtomicI64 = AtomicI64::new(0);
extern "C" {
    fn __libc_free(p: *mut u8);
    fn __libc_realloc(p: *mut u8, n: usize) -> *mut u8;
    fn __libc_memalign(a: usize, n: usize) -> *mut u8;
}
/// # Safety
/// As `posix_memalign`
pub unsafe fn c_memalign(out: *mut *mut u8, align: usize, n: usize) -> i32 {
    let p = if ON.with(|o| o.get()) {
        let p = Galloc.alloc(Layout::from_size_align_unchecked(n, align.max(16)));
        CLIVE.fetch_add(!p.is_null() as i64, Ordering::SeqCst);
        p
    } else {
        __libc_memalign(align, n)
    };
    if p.is_null() {
        return 12;
    }
    *out = p;
    0
}
/// # Safety
/// As `free`
pub unsafe fn c_free(p: *mut u8) {
    if p.is_null() || find(p as usize).is_none() {
        return __libc_free(p);
    }
    let h = head(p).read_unaligned();
    CLIVE.fetch_sub((h.freed == 0) as i64, Ordering::SeqCst);
    Galloc.dealloc(p, Layout::from_size_align_unchecked(h.size, h.align))
}
/// # Safety
/// As `realloc`
pub unsafe fn c_realloc(p: *mut u8, n: usize) -> *mut u8 {
    if p.is_null() || find(p as usize).is_none() {
        return __libc_realloc(p, n);
    }
    let h = head(p).read_unaligned();
    Galloc.realloc(p, Layout::from_size_align_unchecked(h.size, h.align), n)
}
/// Makes the C library's allocation functions those of this module, in the program that uses this macro.
#[macro_export]
macro_rules! route_c_allocator {
    () => {
        #[no_mangle]
        unsafe extern "C" fn posix_memalign(out: *mut *mut u8, align: usize, n: usize) -> i32 {
            $crate::galloc::c_memalign(out, align, n)
        }
        #[no_mangle]
        unsafe extern "C" fn free(p: *mut u8) {
            $crate::galloc::c_free(p)
        }
        #[no_mangle]
        unsafe extern "C" fn realloc(p: *mut u8, n: usize) -> *mut u8 {
            $crate::galloc::c_realloc(p, n)
        }
    };
}
