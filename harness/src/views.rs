//! Values seen as other types through guards, and guards of those.
use core::num::NonZeroU16;
use stabby_abi::alloc::boxed::{Box as SBox, BoxedSlice, BoxedStr};
use stabby_abi::alloc::single_or_vec::SingleOrVec;
use stabby_abi::alloc::string::String as SString;
use stabby_abi::alloc::vec::Vec as SVec;
use stabby_abi::slice::{Slice, SliceMut};
use stabby_abi::str::{Str, StrMut};
use stabby_abi::AccessAs;
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant, SystemTime};
use vharness::{catch, fx, galloc, obj, tok, Out, Rng, Tok, J};
pub type Seen = (Vec<i64>, Vec<i64>);
pub trait View: Sized + 'static {
    fn mk(x: i64) -> Self;
    /// What it shows, and the tokens in it.
    fn see(&self) -> Seen;
    /// Adds to its end, if it has one.
    fn grow(&mut self, _x: i64) -> Option<Seen> {
        None
    }
}
fn sees<V: View>(v: &V) -> Seen {
    galloc::untracked(|| v.see())
}
macro_rules! view {
    ($t: ty, |$x: ident| $mk: expr, |$s: ident| $see: expr $(, |$g: ident, $y: ident| $grow: expr)?) => {
        impl View for $t {
            fn mk($x: i64) -> Self {
                $mk
            }
            fn see(&self) -> Seen {
                let $s = self;
                $see
            }
            $(fn grow(&mut self, $y: i64) -> Option<Seen> {
                let $g = self;
                Some($grow)
            })?
        }
    };
}
macro_rules! plain {
    ($t: ty, |$x: ident| $mk: expr, |$s: ident| $see: expr) => {
        view!($t, |$x| $mk, |$s| (vec![$see], vec![]));
    };
}
plain!(u8, |x| x as u8, |s| *s as i64);
plain!((), |_x| (), |_s| 0);
plain!(bool, |x| x % 2 == 1, |s| unsafe { *(s as *const bool as *const u8) } as i64);
plain!(NonZeroU16, |x| NonZeroU16::new(x as u16 + 1).unwrap(), |s| unsafe { *(s as *const NonZeroU16 as *const u16) } as i64);
static NUMS: [u64; 8] = [10, 11, 12, 13, 14, 15, 16, 17];
plain!(&'static u64, |x| &NUMS[x as usize % 8], |s| **s as i64);
view!(Tok, |x| Tok::new(x), |s| (vec![s.val], vec![s.id() as i64]));
view!(SBox<Tok>, |x| SBox::new(Tok::new(x)), |s| s.see_in());
trait SeeIn {
    fn see_in(&self) -> Seen;
}
impl SeeIn for SBox<Tok> {
    fn see_in(&self) -> Seen {
        (**self).see()
    }
}
type SOpt<T> = stabby_abi::option::Option<T>;
type SRes<T, E> = stabby_abi::result::Result<T, E>;
fn tagged(n: i64, (mut c, t): Seen) -> Seen {
    c.insert(0, n);
    (c, t)
}
macro_rules! options {
    ($($t: ty),*) => { $(
        view!(Option<$t>, |x| if x % 3 == 0 { None } else { Some(<$t>::mk(x)) }, |s| match s { Some(v) => tagged(1, v.see()), None => (vec![0], vec![]) });
        view!(SOpt<$t>, |x| if x % 3 == 0 { SOpt::None() } else { SOpt::Some(<$t>::mk(x)) }, |s| s.match_ref(|v| tagged(1, v.see()), || (vec![0], vec![])));
    )* };
}
options!(u8, bool, NonZeroU16, &'static u64, Tok, SBox<Tok>);
macro_rules! results {
    ($($t: ty, $e: ty);*) => { $(
        view!(Result<$t, $e>, |x| if x % 3 == 0 { Err(<$e>::mk(x)) } else { Ok(<$t>::mk(x)) }, |s| match s { Ok(v) => tagged(1, v.see()), Err(v) => tagged(2, v.see()) });
        view!(SRes<$t, $e>, |x| if x % 3 == 0 { SRes::Err(<$e>::mk(x)) } else { SRes::Ok(<$t>::mk(x)) }, |s| s.match_ref(|v| tagged(1, v.see()), |v| tagged(2, v.see())));
    )* };
}
results!(Tok, u8; u8, Tok; bool, bool; SBox<Tok>, (); &'static u64, ());
fn bytes(s: &[u8]) -> Seen {
    (s.iter().map(|b| *b as i64).collect(), vec![])
}
static BYTES: [u8; 16] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16];
fn range(x: i64) -> core::ops::Range<usize> {
    let a = x as usize % 11;
    a..a + x as usize / 11 % 6
}
const LETTERS: &str = "abcdefghijklmnop";
fn own(x: i64) -> &'static mut [u8] {
    galloc::untracked(|| Vec::leak(BYTES[range(x)].to_vec()))
}
fn owns(x: i64) -> &'static mut str {
    galloc::untracked(|| String::leak(LETTERS[range(x)].to_string()))
}
fn at(p: *mut u8) -> core::ptr::NonNull<u8> {
    core::ptr::NonNull::new(p).unwrap()
}
view!(&'static [u8], |x| &BYTES[range(x)], |s| bytes(s));
// SAFETY: the fields of these are what's seen by the other side
view!(Slice<'static, u8>, |x| Slice { start: at(BYTES[range(x)].as_ptr() as *mut u8), len: range(x).len(), marker: Default::default() }, |s| bytes(unsafe { core::slice::from_raw_parts(s.start.as_ref(), s.len) }));
view!(&'static mut [u8], |x| own(x), |s| bytes(s), |s, y| {
    if let Some(b) = s.last_mut() {
        *b = y as u8;
    }
    bytes(s)
});
view!(SliceMut<'static, u8>, |x| { let s = own(x); SliceMut { start: at(s.as_mut_ptr()), len: s.len(), marker: Default::default() } }, |s| bytes(unsafe { core::slice::from_raw_parts(s.start.as_ref(), s.len) }));
view!(&'static str, |x| &LETTERS[range(x)], |s| bytes(s.as_bytes()));
view!(Str<'static>, |x| LETTERS[range(x)].into(), |s| bytes(s.as_str().as_bytes()));
view!(&'static mut str, |x| owns(x), |s| bytes(s.as_bytes()));
view!(StrMut<'static>, |x| owns(x).into(), |s| bytes(s.as_bytes()));

fn toks(s: &[Tok]) -> Seen {
    (s.iter().map(|t| t.val).collect(), s.iter().map(|t| t.id() as i64).collect())
}
fn some(x: i64) -> impl Iterator<Item = Tok> {
    (0..x % 4).map(move |i| Tok::new(x + i))
}
fn vec(x: i64) -> SVec<Tok> {
    let mut v = SVec::new();
    if x / 4 % 2 == 0 {
        v.reserve(x as usize / 8 % 4);
    }
    some(x).for_each(|t| v.push(t));
    v
}
fn added(x: i64, t: Tok, push: impl FnOnce(Tok)) -> Seen {
    let s = (vec![x], vec![t.id() as i64]);
    push(t);
    s
}
view!(SVec<Tok>, |x| vec(x), |s| toks(s), |s, y| added(y, Tok::new(y), |t| s.push(t)));
view!(BoxedSlice<Tok>, |x| some(x).collect(), |s| toks(s));
view!(SingleOrVec<Tok>, |x| {
    let mut v = SingleOrVec::new();
    some(x).for_each(|t| v.push(t));
    v
}, |s| toks(s), |s, y| added(y, Tok::new(y), |t| s.push(t)));
view!(SString, |x| LETTERS[range(x)].into(), |s| bytes(s.as_bytes()), |s, y| {
    *s += &LETTERS[range(y)];
    bytes(LETTERS[range(y)].as_bytes())
});
view!(String, |x| LETTERS[range(x)].to_string(), |s| bytes(s.as_bytes()), |s, y| {
    s.push_str(&LETTERS[range(y)]);
    bytes(LETTERS[range(y)].as_bytes())
});
view!(BoxedStr, |x| SString::from(&LETTERS[range(x)]).into(), |s| bytes(s.as_bytes()));
fn dur(x: i64) -> Duration {
    Duration::new(x as u64 * 0x1_0000_0001, x as u32 * 9_999_999)
}
fn pair(d: Duration) -> Seen {
    let s = d.as_secs() as i64;
    (vec![s >> 32, s & 0xffff_ffff, d.subsec_nanos() as i64], vec![])
}
fn zero() -> Instant {
    // SAFETY: This is what the stable `Instant` is relative to.
    unsafe { core::mem::MaybeUninit::zeroed().assume_init() }
}
fn sdur(d: Duration) -> stabby::time::Duration {
    stabby::time::Duration { secs: d.as_secs(), nanos: d.subsec_nanos() }
}
view!(Duration, |x| dur(x), |s| pair(*s));
view!(stabby::time::Duration, |x| sdur(dur(x)), |s| pair(Duration::new(s.secs, s.nanos)));
view!(Instant, |x| zero() + dur(x), |s| pair(s.duration_since(zero())));
// SAFETY: it is a `repr(C)` structure of one duration.
view!(stabby::time::Instant, |x| unsafe { core::mem::transmute(sdur(dur(x))) }, |s| { let d: stabby::time::Duration = unsafe { core::mem::transmute(*s) }; pair(Duration::new(d.secs, d.nanos)) });
view!(SystemTime, |x| SystemTime::UNIX_EPOCH + dur(x), |s| pair(s.duration_since(SystemTime::UNIX_EPOCH).unwrap()));
// SAFETY: it is a `repr(C)` structure of one duration.
view!(stabby::time::SystemTime, |x| unsafe { core::mem::transmute(sdur(dur(x))) }, |s| { let d: stabby::time::Duration = unsafe { core::mem::transmute(*s) }; pair(Duration::new(d.secs, d.nanos)) });

struct Run<'a> {
    ev: Vec<J>,
    rng: &'a mut Rng,
    /// Operations left.
    n: usize,
    /// Values taken out.
    held: Vec<(Seen, Box<dyn FnOnce()>)>,
    x: i64,
    /// Shared views don't consume what they show.
    shared: bool,
    script: &'static [u8],
}
impl Run<'_> {
    fn put(&mut self, k: &'static str, mut e: Vec<(&'static str, J)>) {
        galloc::untracked(|| {
            let f = fx::take();
            e.insert(0, ("k", k.into()));
            e.push(("d", f.dj()));
            e.push(("bad", (f.bad.len() + galloc::BAD.swap(0, Ordering::SeqCst)).into()));
            self.ev.push(J::O(e));
        })
    }
    fn val(&mut self, k: &'static str, (c, t): Seen) {
        galloc::untracked(|| self.put(k, vec![("c", c.into()), ("t", t.into())]))
    }
    fn opened(&mut self, how: &'static str) {
        galloc::untracked(|| self.put("open", vec![("how", how.into())]))
    }
    fn pick(&mut self) -> i64 {
        self.x = self.rng.below(200) as i64;
        self.x
    }
    /// The next operation.
    fn op(&mut self, depth: usize) -> u8 {
        if self.n == 0 {
            return b'q';
        }
        self.n -= 1;
        if let [op, rest @ ..] = self.script {
            self.script = rest;
            return *op;
        }
        *self.rng.pick(if depth == 0 { b"mmmmrsswp" } else { b"mmrsswpqqq!" })
    }
}
fn look<A: View + Into<B>, B: View + Into<A>>(x: &A, depth: usize, r: &mut Run) {
    r.val("read", sees(x));
    while depth < 5 {
        match r.op(depth.max(1)) {
            b'm' | b's' | b'w' => {
                let g = A::ref_as::<B>(x);
                r.opened("ref");
                look::<B, A>(&g, depth + 1, r);
                drop(g);
                r.put("close", vec![]);
            }
            b'r' | b'p' => r.val("read", sees(x)),
            b'!' => galloc::untracked(|| panic!("injected")),
            _ => break,
        }
    }
}
fn nest<A: View + Into<B>, B: View + Into<A>>(x: &mut A, depth: usize, r: &mut Run) {
    loop {
        match r.op(depth) {
            b'm' if depth < 5 => {
                if r.shared && r.rng.chance(1, 3) {
                    let g = A::ref_as::<B>(x);
                    r.opened("ref");
                    look::<B, A>(&g, depth + 1, r);
                    drop(g);
                    r.put("close", vec![]);
                    continue;
                }
                let mut g = A::mut_as::<B>(x);
                r.opened("mut");
                if r.rng.chance(1, 5) {
                    // never borrowed as mutable, if at all
                    if r.rng.chance(1, 2) {
                        r.val("read", sees::<B>(&g));
                    }
                    drop(g);
                    r.put("close", vec![]);
                    continue;
                }
                nest::<B, A>(&mut g, depth + 1, r);
                drop(g);
                r.put("close", vec![]);
            }
            b'r' => r.val("read", sees(x)),
            b's' => {
                *x = A::mk(r.pick());
                r.val("set", sees(x));
            }
            b'w' => {
                let old = core::mem::replace(x, A::mk(r.pick()));
                let (oc, ot) = sees(&old);
                let (c, t) = sees(x);
                galloc::untracked(|| {
                    let e = vec![("oc", oc.into()), ("ot", ot.clone().into()), ("c", c.into()), ("t", t.into())];
                    r.put("swap", e);
                    r.held.push(((vec![], ot), Box::new(move || galloc::tracking(|| drop(old)))));
                })
            }
            b'p' => {
                let before = sees(x);
                if let Some((c, t)) = x.grow(r.pick()) {
                    // a mutable reference's content changes in place
                    let after = sees(x);
                    if after.0.len() == before.0.len() && before.1.is_empty() {
                        r.val("set", after);
                    } else {
                        r.val("push", (c, t));
                        r.val("read", after);
                    }
                }
            }
            b'!' if depth > 0 => galloc::untracked(|| panic!("injected")),
            b'q' => break,
            _ => {}
        }
    }
}
struct Case {
    name: &'static str,
    run: Box<dyn Fn(&mut Run)>,
}
fn case<A: View + Into<B>, B: View + Into<A>>(name: &'static str, l: &mut Vec<Case>, shared: bool) {
    l.push(Case {
        name,
        run: Box::new(move |r| {
            r.shared = shared;
            let mut x = A::mk(r.pick());
            r.val("make", sees(&x));
            while r.n > 0 {
                if galloc::untracked(|| catch(|| galloc::tracking(|| nest::<A, B>(&mut x, 0, r))).is_none()) {
                    r.put("unwind", vec![]);
                }
            }
            r.val("read", sees(&x));
            for (s, f) in core::mem::take(&mut r.held) {
                f();
                galloc::untracked(|| r.put("use", vec![("t", s.1.into())]));
            }
            drop(x);
            r.put("drop", vec![]);
        }),
    });
}
fn cases() -> Vec<Case> {
    let mut l = Vec::new();
    macro_rules! both {
        ($s: literal; $($a: ty, $b: ty);* $(;)?) => { $(
            case::<$a, $b>(concat!(stringify!($a), " as ", stringify!($b)), &mut l, $s);
            case::<$b, $a>(concat!(stringify!($b), " as ", stringify!($a)), &mut l, $s);
        )* };
    }
    both!(true;
        Option<u8>, SOpt<u8>; Option<bool>, SOpt<bool>; Option<NonZeroU16>, SOpt<NonZeroU16>; Option<&'static u64>, SOpt<&'static u64>; Option<Tok>, SOpt<Tok>; Option<SBox<Tok>>, SOpt<SBox<Tok>>;
        Result<Tok, u8>, SRes<Tok, u8>; Result<u8, Tok>, SRes<u8, Tok>; Result<bool, bool>, SRes<bool, bool>; Result<SBox<Tok>, ()>, SRes<SBox<Tok>, ()>; Result<&'static u64, ()>, SRes<&'static u64, ()>;
        &'static [u8], Slice<'static, u8>; &'static str, Str<'static>; &'static mut [u8], SliceMut<'static, u8>; &'static mut str, StrMut<'static>;
        SString, BoxedStr;
        Duration, stabby::time::Duration; Instant, stabby::time::Instant; SystemTime, stabby::time::SystemTime);
    both!(false; SVec<Tok>, BoxedSlice<Tok>; SVec<Tok>, SingleOrVec<Tok>; String, SString);
    case::<Tok, Tok>("Tok as itself", &mut l, true);
    l
}
pub fn run(out: &mut Out, rng: &mut Rng, thorough: bool) {
    let cases = cases();
    galloc::quarantine(true);
    const SCRIPTS: [&[u8]; 8] = [b"mqr", b"msqr", b"mwqr", b"mmsqqr", b"mms!r", b"mmmmwpqqqqr", b"mpqmsqmwqr", b"msmrqmsqqrs"];
    let single = cases.len() * SCRIPTS.len();
    // what the harness itself keeps about tokens is allocated once
    for c in &cases {
        out.begin(c.name);
        let mut r = Run { ev: vec![], rng: &mut *rng, n: 12, held: vec![], x: 0, shared: false, script: b"swswswswswsw" };
        galloc::tracking(|| (c.run)(&mut r));
    }
    for n in 0..single + if thorough { 25000 } else { 4000 } {
        tok::reset();
        fx::take();
        let case = if n < single { &cases[n / SCRIPTS.len()] } else { rng.pick(&cases) };
        out.begin(case.name);
        let live = galloc::LIVE.load(Ordering::SeqCst);
        let script = if n < single { SCRIPTS[n % SCRIPTS.len()] } else { &[] };
        let ops = if n < single { script.len() } else { 4 + rng.below(20) };
        let mut r = Run { ev: vec![], rng, n: ops, held: vec![], x: 0, shared: false, script };
        galloc::tracking(|| (case.run)(&mut r));
        let mut ev = r.ev;
        ev.push(obj! {k: "end", left: tok::live().len() + (galloc::LIVE.load(Ordering::SeqCst) - live).unsigned_abs() as usize, bad: 0});
        out.trace_meta(J::L(vec![]), ev, J::from(case.name));
    }
}
