//! Futures across the boundary.
use core::marker::PhantomData;
use core::num::{NonZeroU16, NonZeroU8};
use stabby::future::{DynFuture, DynFutureUnsend, DynFutureUnsync, MaybeResolved};
use stabby_abi::alloc::boxed::Box as SBox;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use vharness::{catch, fx, galloc, obj, tok, Out, Rng, Tok, J};
pub trait Val: Sized + 'static {
    fn mk(x: i64) -> Self;
    /// What it shows, and the token in it.
    fn see(&self) -> (i64, i64);
}
macro_rules! val {
    ($t: ty, |$x: ident| $mk: expr, |$s: ident| $see: expr) => {
        impl Val for $t {
            fn mk($x: i64) -> Self {
                $mk
            }
            fn see(&self) -> (i64, i64) {
                let $s = self;
                $see
            }
        }
    };
}
val!(u8, |x| x as u8, |s| (*s as i64, 0));
val!(bool, |x| x % 2 == 1, |s| (unsafe { *(s as *const bool as *const u8) } as i64, 0));
val!(NonZeroU16, |x| NonZeroU16::new(x as u16 + 1).unwrap(), |s| (unsafe { *(s as *const NonZeroU16 as *const u16) } as i64 - 1, 0));
val!((), |x| drop(x), |_s| (0, 0));
val!(Tok, |x| Tok::new(x), |s| (s.val, s.id() as i64));
val!(SBox<Tok>, |x| SBox::new(Tok::new(x)), |s| (s.val, s.id() as i64));
static NUMS: [u64; 8] = [10, 11, 12, 13, 14, 15, 16, 17];
val!(&'static u64, |x| &NUMS[x as usize % 8], |s| (**s as i64, 0));
pub type OT = stabby_abi::option::Option<NonZeroU8>;
val!(OT, |x| if x % 2 == 0 { OT::None() } else { OT::Some(NonZeroU8::new(x as u8).unwrap()) }, |s| (s.match_ref(|v| v.get() as i64, || 0), 0));
pub type Pair = stabby_abi::Tuple<u8, Tok>;
val!(Pair, |x| stabby_abi::Tuple(x as u8 + 1, Tok::new(x)), |s| (s.0 as i64 * 1000 + s.1.val, s.1.id() as i64));
struct Script {
    wait: usize,
    val: i64,
    done: bool,
    /// Panics once, before its last wait
    boom: bool,
}
static SCRIPTS: Mutex<Vec<Script>> = Mutex::new(Vec::new());
static UNDER: Mutex<Vec<J>> = Mutex::new(Vec::new());
fn log(j: J) {
    UNDER.lock().unwrap().push(j);
}
const OWN: u32 = 100000;
fn step<V: Val>(no: usize) -> Poll<V> {
    enum A {
        P,
        R(i64),
        B,
    }
    let a = {
        let mut l = SCRIPTS.lock().unwrap();
        let s = &mut l[no];
        if s.boom && s.wait == 0 {
            s.boom = false;
            A::B
        } else if s.done || s.wait > 0 {
            s.wait = s.wait.saturating_sub(1);
            A::P
        } else {
            s.done = true;
            A::R(s.val)
        }
    };
    match a {
        A::P => {
            galloc::untracked(|| log(vec![0i64].into()));
            Poll::Pending
        }
        A::B => {
            galloc::untracked(|| log(vec![-1i64].into()));
            galloc::untracked(|| panic!("injected"))
        }
        A::R(x) => {
            let v = V::mk(x);
            let (x, t) = v.see();
            galloc::untracked(|| log(vec![1, x, t].into()));
            Poll::Ready(v)
        }
    }
}
pub trait Fut {
    fn mk(no: usize) -> Self;
    fn no(&self) -> usize;
}
macro_rules! fut {
    ($f: ident, $field: ident : $t: ty, |$n: ident| $mk: expr, |$s: ident| $no: expr) => {
        #[stabby::stabby]
        pub struct $f<V> {
            $field: $t,
            m: PhantomData<V>,
        }
        impl<V> Fut for $f<V> {
            fn mk($n: usize) -> Self {
                $f { $field: $mk, m: PhantomData }
            }
            fn no(&self) -> usize {
                let $s = &self.$field;
                $no
            }
        }
        impl<V> Unpin for $f<V> {}
        // SAFETY: there's no value in it
        unsafe impl<V> Send for $f<V> {}
        unsafe impl<V> Sync for $f<V> {}
        impl<V: Val> Future for $f<V> {
            type Output = V;
            fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<V> {
                step(self.no())
            }
        }
        impl<V> Drop for $f<V> {
            fn drop(&mut self) {
                fx::emit(fx::Effect::Destroy(OWN + self.no() as u32));
            }
        }
    };
}
fut!(FutWord, no: u32, |n| n as u32, |s| *s as usize);
fut!(FutRef, no: &'static usize, |n| galloc::untracked(|| &*Box::leak(Box::new(n))), |s| **s);
fut!(FutByte, no: NonZeroU8, |n| NonZeroU8::new(n as u8 + 1).unwrap(), |s| s.get() as usize - 1);
fut!(FutBits, no: stabby_abi::Tuple<u8, bool>, |n| stabby_abi::Tuple((n >> 1) as u8, n & 1 == 1), |s| (s.0 as usize) << 1 | s.1 as usize);
fut!(FutWide, no: stabby_abi::Tuple<u128, u8>, |n| stabby_abi::Tuple(!(n as u128), n as u8), |s| if s.0 == !(s.1 as u128) { s.1 as usize } else { 0 });
type FutDyn<V> = DynFuture<'static, V>;

type Kept = Option<(i64, Box<dyn std::any::Any>)>;
trait Obj {
    fn poll(&mut self, cx: &mut Context<'_>) -> (J, Kept);
    fn moved(self: Box<Self>) -> Box<dyn Obj>;
    /// Drops it, and returns what's to be dropped after.
    fn done(self: Box<Self>) -> Option<Box<dyn FnOnce()>>;
}
struct W<F>(F);
fn seen<V: Val>(p: Poll<V>) -> (J, Kept) {
    match p {
        Poll::Pending => galloc::untracked(|| (vec![0i64].into(), None)),
        Poll::Ready(v) => {
            let (x, t) = v.see();
            if t == 0 {
                drop(v);
            	galloc::untracked(|| (vec![1, x, t].into(), None))
            } else {
                galloc::untracked(|| (vec![1, x, t].into(), Some((t, Box::new(v) as Box<dyn std::any::Any>))))
            }
        }
    }
}
impl<F: Future + Unpin + 'static> Obj for W<F>
where
    F::Output: Val,
{
    fn poll(&mut self, cx: &mut Context<'_>) -> (J, Kept) {
        seen(Pin::new(&mut self.0).poll(cx))
    }
    fn moved(self: Box<Self>) -> Box<dyn Obj> {
        let f = std::hint::black_box(*self).0;
        Box::new(W(f))
    }
    fn done(self: Box<Self>) -> Option<Box<dyn FnOnce()>> {
        None
    }
}
struct Lent<F: 'static, P>(P, *mut F);
impl<F: 'static, P: Future + Unpin + 'static> Obj for Lent<F, P>
where
    P::Output: Val,
{
    fn poll(&mut self, cx: &mut Context<'_>) -> (J, Kept) {
        seen(Pin::new(&mut self.0).poll(cx))
    }
    fn moved(self: Box<Self>) -> Box<dyn Obj> {
        let l = std::hint::black_box(*self);
        Box::new(l)
    }
    fn done(self: Box<Self>) -> Option<Box<dyn FnOnce()>> {
        let f = self.1;
        drop(self);
        // SAFETY: it was leaked to be lent
        Some(Box::new(move || unsafe { drop(Box::from_raw(f)) }))
    }
}
struct Kind {
    name: String,
    form: &'static str,
    make: Box<dyn Fn(usize, i64) -> (Box<dyn Obj>, (i64, i64))>,
}
const NOTHING: (i64, i64) = (0, 0);

fn expect(f: &impl Fut, n: &u32) {
    if f.no() != *n as usize {
        fx::emit(fx::Effect::Destroy(OWN));
    }
}
macro_rules! wrap {
    ($l: ident, $name: literal, $v: ty, $t: ty, |$n: ident| $e: expr) => {
        $l.push(Kind {
            name: format!("{} of {}", $name, stringify!($v)),
            form: "wrap",
            make: Box::new(|$n, _| {
                let f: $t = $e;
                (Box::new(W(f)), NOTHING)
            }),
        });
    };
}
macro_rules! maybe {
    ($l: ident, $v: ty, $f: ty, |$n: ident| $e: expr) => {
        $l.push(Kind {
            name: format!("{} resolved, or {}", stringify!($v), stringify!($f)),
            form: "res",
            make: Box::new(|_, x| {
                let val = <$v>::mk(x);
                let s = val.see();
                (Box::new(W(MaybeResolved::<$v, $f>::Resolved(val))), s)
            }),
        });
        $l.push(Kind { name: format!("{}, or {} pending", stringify!($v), stringify!($f)), form: "pend", make: Box::new(|$n, _| (Box::new(W(MaybeResolved::<$v, $f>::Pending($e))), NOTHING)) });
        $l.push(Kind { name: format!("neither {}, nor {}", stringify!($v), stringify!($f)), form: "empty", make: Box::new(|_, _| (Box::new(W(MaybeResolved::<$v, $f>::Empty())), NOTHING)) });
    };
}
macro_rules! kinds {
    ($l: ident; $($v: ty),*) => { $(
        wrap!($l, "box", $v, DynFuture<'static, $v>, |n| SBox::new(FutWord::<$v>::mk(n)).into());
        wrap!($l, "unsync", $v, DynFutureUnsync<'static, $v>, |n| SBox::new(FutRef::<$v>::mk(n)).into());
        wrap!($l, "unsend", $v, DynFutureUnsend<'static, $v>, |n| SBox::new(FutByte::<$v>::mk(n)).into());
        wrap!($l, "sync", $v, stabby::dynptr!(SBox<dyn Future<Output = $v> + Sync + 'static>), |n| SBox::new(FutBits::<$v>::mk(n)).into());
        wrap!($l, "sync send", $v, stabby::dynptr!(SBox<dyn Future<Output = $v> + Sync + Send + 'static>), |n| SBox::new(FutWide::<$v>::mk(n)).into());
        wrap!($l, "twice", $v, DynFutureUnsend<'static, $v>, |n| {
            let f: DynFuture<'static, $v> = SBox::new(FutWide::<$v>::mk(n)).into();
            SBox::new(f).into()
        });
        wrap!($l, "pinned", $v, DynFutureUnsend<'static, $v>, |n| SBox::new(Box::pin(FutWord::<$v>::mk(n))).into());
        $l.push(Kind { name: format!("async fn of {}", stringify!($v)), form: "async", make: Box::new(|n, _| {
            use SBox as Box;
            #[stabby::stabby]
            async fn both(f: FutWord<$v>, n: u32) -> $v {
                expect(&f, &n);
                f.await
            }
            let f: DynFuture<'static, $v> = both(Fut::mk(n), n as u32);
            (std::boxed::Box::new(W(f)), NOTHING)
        }) });
        $l.push(Kind { name: format!("async fn unsend of {}", stringify!($v)), form: "async", make: Box::new(|n, _| {
            use SBox as Box;
            #[stabby::stabby(unsend, unsync)]
            async fn nested(f: FutWide<$v>, n: u32) -> $v {
                #[stabby::stabby]
                async fn inner(f: FutWide<$v>) -> $v {
                    f.await
                }
                expect(&f, &n);
                inner(f).await
            }
            let f: DynFutureUnsend<'static, $v> = nested(Fut::mk(n), n as u32);
            (std::boxed::Box::new(W(f)), NOTHING)
        }) });
        $l.push(Kind { name: format!("lent of {}", stringify!($v)), form: "lent", make: Box::new(|n, _| {
            let p: *mut FutWord<$v> = Box::into_raw(Box::new(FutWord::<$v>::mk(n)));
            let f: stabby::dynptr!(&'static mut dyn Future<Output = $v>) = unsafe { &mut *p }.into();
            (Box::new(Lent(f, p)), NOTHING)
        }) });
        maybe!($l, $v, FutWord<$v>, |n| Fut::mk(n));
        maybe!($l, $v, FutRef<$v>, |n| Fut::mk(n));
        maybe!($l, $v, FutByte<$v>, |n| Fut::mk(n));
        maybe!($l, $v, FutBits<$v>, |n| Fut::mk(n));
        maybe!($l, $v, FutWide<$v>, |n| Fut::mk(n));
        maybe!($l, $v, FutDyn<$v>, |n| SBox::new(FutWord::<$v>::mk(n)).into());
    )* };
}
fn kinds() -> Vec<Kind> {
    let mut l = Vec::new();
    kinds!(l; u8, bool, NonZeroU16, (), Tok, SBox<Tok>, &'static u64, OT, Pair);
    l
}
struct Noop;
impl Wake for Noop {
    fn wake(self: Arc<Self>) {}
}
fn pair((x, t): (i64, i64)) -> J {
    vec![x, t].into()
}
fn effects(mut e: Vec<(&'static str, J)>, ev: &mut Vec<J>) {
    let f = fx::take();
    e.push(("d", f.dj()));
    e.push(("bad", (f.bad.len() + galloc::BAD.swap(0, Ordering::SeqCst)).into()));
    ev.push(J::O(e));
}
pub fn run(out: &mut Out, rng: &mut Rng, thorough: bool) {
    let kinds = kinds();
    let waker: Waker = Arc::new(Noop).into();
    galloc::quarantine(true);
    // vtables are made once and for all
    for k in &kinds {
        out.begin(&k.name);
        SCRIPTS.lock().unwrap().push(Script { wait: 0, val: 0, done: false, boom: false });
        let mut o = (k.make)(0, 1).0;
        o.poll(&mut Context::from_waker(&waker));
        o.done().into_iter().for_each(|f| f());
        UNDER.lock().unwrap().clear();
    }
    // every kind with every number of pending polls, then mixtures
    let single = kinds.len() * 4;
    for n in 0..single + if thorough { 8000 } else { 600 } {
        tok::reset();
        SCRIPTS.lock().unwrap().clear();
        fx::take();
        let live = galloc::LIVE.load(Ordering::SeqCst);
        let mut objs: Vec<(i64, &Kind, Box<dyn Obj>)> = Vec::new();
        let mut held: Vec<(i64, Box<dyn std::any::Any>)> = Vec::new();
        let mut ev = Vec::new();
        let mut next = 1;
        let mut names = Vec::new();
        let mut started = false;
        for i in 0..if n < single { 8 } else { 14 } {
            let op = if i == 0 { 0 } else if n < single { [1, 1, 1, 1, 2, 1, 3, 1][i] } else { rng.below(10) };
            match op {
                0 if objs.len() < 3 => {
                    let k = if n < single { &kinds[n / 4] } else { rng.pick(&kinds) };
                    names.push(k.name.clone());
                    out.begin(&format!("{names:?} wait {}", n % 4));
                    started = true;
                    let no = SCRIPTS.lock().unwrap().len();
                    let boom = k.form == "pend" && !k.name.contains("FutDyn") && n >= single && rng.chance(1, 4);
                    let x = rng.below(100) as i64;
                    SCRIPTS.lock().unwrap().push(Script { wait: if n < single { n % 4 } else { rng.below(3) }, val: x, done: false, boom });
                    let (o, val) = galloc::tracking(|| (k.make)(no, x));
                    let own = if matches!(k.form, "wrap" | "lent" | "pend" | "async") { OWN as i64 + no as i64 } else { 0 };
                    effects(vec![("k", "make".into()), ("o", next.into()), ("form", k.form.into()), ("own", own.into()), ("val", pair(val))], &mut ev);
                    objs.push((next, k, o));
                    next += 1;
                }
                2 if !objs.is_empty() => {
                    let i = rng.below(objs.len());
                    let (no, k, o) = objs.swap_remove(i);
                    let o = galloc::tracking(|| o.moved());
                    effects(vec![("k", "move".into()), ("o", no.into())], &mut ev);
                    objs.push((no, k, o));
                }
                3 if !held.is_empty() => {
                    let (t, v) = held.remove(rng.below(held.len()));
                    galloc::tracking(|| drop(v));
                    effects(vec![("k", "use".into()), ("t", t.into())], &mut ev);
                }
                4 if !objs.is_empty() => {
                    let (no, _, o) = objs.swap_remove(rng.below(objs.len()));
                    let after = galloc::tracking(|| o.done());
                    effects(vec![("k", "drop".into()), ("o", no.into())], &mut ev);
                    after.into_iter().for_each(|f| f());
                    fx::take();
                }
                _ if !objs.is_empty() => {
                    let (no, k, o) = { let i = rng.below(objs.len()); &mut objs[i] };
                    // those of async blocks panic when they're done
                    if k.form == "async" && SCRIPTS.lock().unwrap()[*no as usize - 1].done {
                        continue;
                    }
                    let mut cx = Context::from_waker(&waker);
                    let r = catch(|| galloc::tracking(|| o.poll(&mut cx)));
                    let (r, v) = r.unwrap_or((vec![-1i64].into(), None));
                    let u = J::L(std::mem::take(&mut *UNDER.lock().unwrap()));
                    effects(vec![("k", "poll".into()), ("o", (*no).into()), ("u", u), ("r", r)], &mut ev);
                    held.extend(v);
                }
                _ => {}
            }
        }
        if !started {
            continue;
        }
        for (t, v) in held {
            galloc::tracking(|| drop(v));
            effects(vec![("k", "use".into()), ("t", t.into())], &mut ev);
        }
        for (no, _, o) in objs {
            let after = galloc::tracking(|| o.done());
            effects(vec![("k", "drop".into()), ("o", no.into())], &mut ev);
            after.into_iter().for_each(|f| f());
            fx::take();
        }
        ev.push(obj! {k: "end", left: tok::live().len() + (galloc::LIVE.load(Ordering::SeqCst) - live).unsigned_abs() as usize, bad: 0});
        out.trace_meta(J::L(vec![]), ev, J::from(format!("{names:?}")));
    }
}
