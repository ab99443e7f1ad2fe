//! A recording allocator: sized (it carries an identity that must be the same at free time), with red zones,
//! poisoning, quarantine and failure injection.
use crate::fx::{self, Effect};
use stabby_abi::alloc::{IAlloc, Layout};
use std::collections::HashMap;
use std::sync::Mutex;
const RZ: usize = 256;
const PAT: u8 = 0xA5;
const DEADB: u8 = 0xDD;
#[derive(Clone, Copy)]
struct Block {
    no: u32,
    base: usize,
    user: usize,
    size: usize,
    align: usize,
    inst: u32,
    freed: bool,
}
#[derive(Default)]
struct Reg {
    next: u32,
    by_ptr: Option<HashMap<usize, Block>>,
    fail_at: i64,
    requests: u64,
}
static REG: Mutex<Reg> = Mutex::new(Reg { next: 0, by_ptr: None, fail_at: -1, requests: 0 });
/// Fails the `n`th request from now (0: the next), and only that one. Negative: none.
pub fn fail_at(n: i64) {
    REG.lock().unwrap().fail_at = n;
}
pub fn failure_pending() -> bool {
    REG.lock().unwrap().fail_at >= 0
}
pub fn requests() -> u64 {
    REG.lock().unwrap().requests
}
fn total(b: &Block) -> std::alloc::Layout {
    std::alloc::Layout::from_size_align(b.size + 2 * RZ + b.align, 16).unwrap()
}
fn check(b: &Block) {
    unsafe {
        let ok = (b.user - RZ..b.user).all(|a| *(a as *const u8) == PAT) && (b.user + b.size..b.user + b.size + RZ).all(|a| *(a as *const u8) == PAT);
        if !ok {
            fx::bad(format!("write outside block {} ({} bytes)", b.no, b.size));
        }
        if b.freed && !(b.user..b.user + b.size).all(|a| *(a as *const u8) == DEADB) {
            fx::bad(format!("write to freed block {}", b.no));
        }
    }
}
/// Checks all blocks' red zones. The problems found are reported as `bad` effects.
pub fn audit() {
    let l: Vec<Block> = REG.lock().unwrap().by_ptr.iter().flatten().map(|(_, b)| *b).collect();
    l.iter().for_each(check);
}
/// Blocks that are allocated now.
pub fn live() -> Vec<u32> {
    let mut l: Vec<u32> = REG.lock().unwrap().by_ptr.iter().flatten().filter(|(_, b)| !b.freed).map(|(_, b)| b.no).collect();
    l.sort();
    l
}
/// Size, alignment and start of the live block that contains `p`, if any.
pub fn block_of(p: usize) -> Option<(u32, usize, usize, usize)> {
    REG.lock().unwrap().by_ptr.iter().flatten().map(|(_, b)| *b).find(|b| !b.freed && p >= b.user && p <= b.user + b.size).map(|b| (b.no, b.user, b.size, b.align))
}
/// The number of the block (freed or not) that contains `p`, and whether it was freed.
pub fn block_at(p: usize) -> Option<(u32, bool)> {
    REG.lock().unwrap().by_ptr.iter().flatten().map(|(_, b)| *b).find(|b| p >= b.user && p < b.user + b.size).map(|b| (b.no, b.freed))
}
/// Really frees everything (including leaked blocks): only call when nothing refers to them anymore.
pub fn reset() {
    let l: Vec<Block> = {
        let mut r = REG.lock().unwrap();
        r.next = 0;
        r.fail_at = -1;
        r.requests = 0;
        r.by_ptr.take().into_iter().flatten().map(|(_, b)| b).collect()
    };
    for b in l {
        unsafe { std::alloc::dealloc(b.base as *mut u8, total(&b)) }
    }
}
#[derive(Debug, PartialEq, Eq)]
pub struct TrackAlloc(u32);
impl TrackAlloc {
    pub const fn new(inst: u32) -> Self {
        TrackAlloc(inst ^ 0x7EED_0000)
    }
    pub fn inst(&self) -> u32 {
        self.0 ^ 0x7EED_0000
    }
}
impl Clone for TrackAlloc {
    fn clone(&self) -> Self {
        TrackAlloc(self.0)
    }
}
impl Default for TrackAlloc {
    fn default() -> Self {
        Self::new(1)
    }
}
// SAFETY: a transparent u32 look-alike.
unsafe impl stabby_abi::IStable for TrackAlloc {
    type Size = <u32 as stabby_abi::IStable>::Size;
    type Align = <u32 as stabby_abi::IStable>::Align;
    type ForbiddenValues = stabby_abi::End;
    type UnusedBits = stabby_abi::End;
    type HasExactlyOneNiche = stabby_abi::B0;
    type ContainsIndirections = stabby_abi::B0;
    #[cfg(feature = "abi_stable")]
    type CType = u32;
    const REPORT: &'static stabby_abi::report::TypeReport = <u32 as stabby_abi::IStable>::REPORT;
    const ID: u64 = <u32 as stabby_abi::IStable>::ID;
}
fn failing() -> bool {
    let mut r = REG.lock().unwrap();
    r.requests += 1;
    if r.fail_at == 0 {
        r.fail_at = -1;
        return true;
    }
    if r.fail_at > 0 {
        r.fail_at -= 1;
    }
    false
}
fn do_alloc(layout: Layout, inst: u32) -> *mut () {
    if layout.size == 0 || layout.size > 1 << 30 || !layout.align.is_power_of_two() {
        return core::ptr::null_mut();
    }
    let mut b = Block { no: 0, base: 0, user: 0, size: layout.size, align: layout.align, inst, freed: false };
    unsafe {
        b.base = std::alloc::alloc(total(&b)) as usize;
        // exactly aligned: never more than requested, so that a missing alignment request shows.
        let mut u = (b.base + RZ + b.align - 1) & !(b.align - 1);
        if u & (2 * b.align - 1) == 0 && u + b.align + b.size + RZ <= b.base + total(&b).size() {
            u += b.align;
        }
        b.user = u;
        core::ptr::write_bytes(b.base as *mut u8, PAT, total(&b).size());
        core::ptr::write_bytes(b.user as *mut u8, 0xCD, b.size);
    }
    {
        let mut r = REG.lock().unwrap();
        r.next += 1;
        b.no = r.next;
        r.by_ptr.get_or_insert_with(HashMap::new).insert(b.user, b);
    }
    fx::emit(Effect::Alloc(b.no, b.size, b.align, b.inst));
    b.user as *mut ()
}
fn do_free(ptr: *mut (), inst: u32) {
    let mut b = match REG.lock().unwrap().by_ptr.as_ref().and_then(|m| m.get(&(ptr as usize)).copied()) {
        Some(b) => b,
        None => return fx::bad("free of a pointer that was never allocated"),
    };
    if b.freed {
        return fx::bad(format!("block {} freed twice", b.no));
    }
    if b.inst != inst {
        fx::bad(format!("block {} freed by another allocator", b.no));
    }
    check(&b);
    b.freed = true;
    unsafe { core::ptr::write_bytes(b.user as *mut u8, DEADB, b.size) };
    REG.lock().unwrap().by_ptr.as_mut().unwrap().insert(b.user, b);
    fx::emit(Effect::Free(b.no));
}
impl IAlloc for TrackAlloc {
    fn alloc(&mut self, layout: Layout) -> *mut () {
        if failing() {
            return core::ptr::null_mut();
        }
        do_alloc(layout, self.inst())
    }
    unsafe fn free(&mut self, ptr: *mut ()) {
        do_free(ptr, self.inst())
    }
    unsafe fn realloc(&mut self, ptr: *mut (), prev: Layout, new_size: usize) -> *mut () {
        let b = match REG.lock().unwrap().by_ptr.as_ref().and_then(|m| m.get(&(ptr as usize)).copied()) {
            Some(b) => b,
            None => {
                fx::bad("resize of a pointer that was never allocated");
                return core::ptr::null_mut();
            }
        };
        if b.freed {
            fx::bad(format!("resize of freed block {}", b.no));
            return core::ptr::null_mut();
        }
        if b.size != prev.size || b.align != prev.align {
            fx::bad(format!("block {} of size {} align {} resized as size {} align {}", b.no, b.size, b.align, prev.size, prev.align));
        }
        if failing() {
            return core::ptr::null_mut();
        }
        let n = do_alloc(Layout { size: new_size, align: b.align }, self.inst());
        if !n.is_null() {
            core::ptr::copy_nonoverlapping(ptr.cast::<u8>(), n.cast::<u8>(), b.size.min(new_size));
            do_free(ptr, self.inst());
        }
        n
    }
}
