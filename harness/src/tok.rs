//! Tokens whose creation, cloning, destruction and misuse are observed.
use crate::fx::{self, Effect};
use std::sync::Mutex;
const LIVE: u32 = 0x5AFE_0000;
const DEAD: u32 = 0xDEAD_0000;
#[derive(Clone, Copy, PartialEq)]
enum St {
    Live,
    Dead,
}
static REG: Mutex<Vec<St>> = Mutex::new(Vec::new());
static VALS: Mutex<Vec<i64>> = Mutex::new(Vec::new());
/// Number of destructions left before one panics (negative: never).
static DFUSE: Mutex<i64> = Mutex::new(-1);
pub fn set_drop_fuse(n: i64) {
    *DFUSE.lock().unwrap() = n;
}
pub fn drop_fuse() -> i64 {
    *DFUSE.lock().unwrap()
}
pub fn fuse() -> i64 {
    *FUSE.lock().unwrap()
}
/// The values of the tokens created so far, by identity.
pub fn vals() -> Vec<i64> {
    VALS.lock().unwrap().clone()
}
pub fn count() -> usize {
    VALS.lock().unwrap().len()
}
/// Number of clones left before one panics (negative: never).
static FUSE: Mutex<i64> = Mutex::new(-1);
pub fn reset() {
    REG.lock().unwrap().clear();
    VALS.lock().unwrap().clear();
    set_fuse(-1);
    set_drop_fuse(-1);
}
pub fn set_fuse(n: i64) {
    *FUSE.lock().unwrap() = n;
}
/// The identifiers of all live tokens.
pub fn live() -> Vec<u32> {
    REG.lock().unwrap().iter().enumerate().filter(|(_, s)| **s == St::Live).map(|(i, _)| i as u32 + 1).collect()
}
/// A token: `id` is its identity, `val` its value (which comparisons look at).
#[derive(Debug)]
pub struct Tok {
    id: u32,
    canary: u32,
    pub val: i64,
}
// SAFETY: plain old data, all patterns valid.
unsafe impl stabby_abi::IStable for Tok {
    type Size = <u128 as stabby_abi::IStable>::Size;
    type Align = <u64 as stabby_abi::IStable>::Align;
    type ForbiddenValues = stabby_abi::End;
    type UnusedBits = stabby_abi::End;
    type HasExactlyOneNiche = stabby_abi::B0;
    type ContainsIndirections = stabby_abi::B0;
    #[cfg(feature = "abi_stable")]
    type CType = [u64; 2];
    const REPORT: &'static stabby_abi::report::TypeReport = <u128 as stabby_abi::IStable>::REPORT;
    const ID: u64 = <u128 as stabby_abi::IStable>::ID;
}
impl Tok {
    pub fn new(val: i64) -> Tok {
        let mut r = REG.lock().unwrap();
        r.push(St::Live);
        VALS.lock().unwrap().push(val);
        let id = r.len() as u32;
        Tok { id, canary: LIVE ^ id, val }
    }
    /// The identity, with a liveness check: reports a `bad` effect when this is not a live token.
    pub fn id(&self) -> u32 {
        // volatile: the memory may legitimately be garbage if the code under test is wrong.
        let (id, canary) = unsafe { (std::ptr::read_volatile(&self.id), std::ptr::read_volatile(&self.canary)) };
        if canary != LIVE ^ id {
            fx::bad(if canary == DEAD ^ id { format!("read of destroyed token {id}") } else { "read of garbage as token".to_string() });
            return 0;
        }
        let st = REG.lock().unwrap().get(id as usize - 1).copied();
        if st != Some(St::Live) {
            fx::bad(format!("read of destroyed token {id}"));
        }
        id
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        let from = self.id();
        {
            let mut f = FUSE.lock().unwrap();
            if *f == 0 {
                *f = -1;
                drop(f);
                panic!("injected clone panic");
            }
            if *f > 0 {
                *f -= 1;
            }
        }
        let n = Tok::new(self.val);
        fx::emit(Effect::Clone(from, n.id));
        n
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let (id, canary) = unsafe { (std::ptr::read_volatile(&self.id), std::ptr::read_volatile(&self.canary)) };
        if canary != LIVE ^ id && canary != DEAD ^ id {
            fx::bad("destruction of garbage as token");
            return;
        }
        let mut r = REG.lock().unwrap();
        let st = r.get(id as usize - 1).copied();
        if canary == DEAD ^ id || st != Some(St::Live) {
            drop(r);
            fx::bad(format!("token {id} destroyed twice"));
            return;
        }
        r[id as usize - 1] = St::Dead;
        drop(r);
        unsafe { std::ptr::write_volatile(&mut self.canary, DEAD ^ id) };
        fx::emit(Effect::Destroy(id));
        let boom = {
            let mut f = DFUSE.lock().unwrap();
            let boom = *f == 0;
            if *f >= 0 {
                *f -= 1;
            }
            boom
        };
        if boom && !std::thread::panicking() {
            panic!("injected destructor panic");
        }
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Self) -> bool {
        self.val == o.val
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.id();
        self.val.cmp(&o.val)
    }
}
impl std::hash::Hash for Tok {
    fn hash<H: std::hash::Hasher>(&self, s: &mut H) {
        self.val.hash(s)
    }
}
pub fn ids<'a>(l: impl IntoIterator<Item = &'a Tok>) -> Vec<u32> {
    l.into_iter().map(|t| t.id()).collect()
}
