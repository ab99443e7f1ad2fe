//! Which types may be sent to and shared with other threads, and which lifetimes may be coerced.
#![allow(clippy::all, dead_code)]
use core::marker::PhantomData;
use stabby_abi::alloc::boxed::{Box as SBox, BoxedSlice, BoxedStr};
use stabby_abi::alloc::collections::arc_btree::{ArcBTreeMap, ArcBTreeSet, AtomicArcBTreeSet};
use stabby_abi::alloc::single_or_vec::SingleOrVec;
use stabby_abi::alloc::string::String as SString;
use stabby_abi::alloc::sync::{Arc, ArcSlice, ArcStr, AtomicArc, Weak, WeakSlice, WeakStr};
use stabby_abi::alloc::vec::{Drain, IntoIter, Vec as SVec};
use stabby_abi::alloc::{DefaultAllocator, IAlloc, Layout};
use stabby_abi::IntoSuperTrait;
use stabby_abi::option::Option as SOption;
use stabby_abi::result::Result as SResult;
use stabby_abi::slice::{Slice, SliceMut};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::MutexGuard;
use vharness::{args, obj, quiet_panics, Out, J};
struct ProbeSend<T: ?Sized>(PhantomData<T>);
struct ProbeSync<T: ?Sized>(PhantomData<T>);
struct ProbeFrom<T, U>(PhantomData<(T, U)>);
struct ProbeUp<T, U>(PhantomData<(T, U)>);
trait No {
    const R: i64 = 0;
}
impl<T: ?Sized> No for ProbeSend<T> {}
impl<T: ?Sized> No for ProbeSync<T> {}
impl<T, U> No for ProbeFrom<T, U> {}
impl<T, U> No for ProbeUp<T, U> {}
impl<T: ?Sized + Send> ProbeSend<T> {
    const R: i64 = 1;
}
impl<T: ?Sized + Sync> ProbeSync<T> {
    const R: i64 = 1;
}
impl<T, U: From<T>> ProbeFrom<T, U> {
    const R: i64 = 1;
}
impl<T: IntoSuperTrait<U>, U> ProbeUp<T, U> {
    const R: i64 = 1;
}
macro_rules! leaves {
    ($($n: ident, $p: ty;)*) => { $(
        #[stabby::stabby]
        #[derive(Clone)]
        pub struct $n(u32, PhantomData<$p>);
        impl PartialEq for $n { fn eq(&self, o: &$n) -> bool { self.0 == o.0 } }
        impl Eq for $n {}
        impl PartialOrd for $n { fn partial_cmp(&self, o: &$n) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
        impl Ord for $n { fn cmp(&self, o: &$n) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
        impl Tr for $n { extern "C" fn tr(&self) -> u32 { self.0 } }
        impl Other for $n { extern "C" fn other(&self) -> u32 { self.0 } }
        impl IAlloc for $n {
            fn alloc(&mut self, _: Layout) -> *mut () { std::ptr::null_mut() }
            unsafe fn free(&mut self, _: *mut ()) {}
        }
        impl Default for $n { fn default() -> $n { $n(0, PhantomData) } }
    )* };
}
leaves! {
    Both, u8;
    OnlySend, Cell<u8>;
    OnlySync, MutexGuard<'static, u8>;
    Neither, Rc<u8>;
}
#[stabby::stabby]
pub trait Tr {
    extern "C" fn tr(&self) -> u32;
}
#[stabby::stabby]
pub trait Other {
    extern "C" fn other(&self) -> u32;
}
fn leaf(send: i64, sync: i64) -> J {
    obj! {t: "leaf", send: send, sync: sync}
}
fn own(l: Vec<J>) -> J {
    obj! {t: "own", l: J::L(l)}
}
fn of(t: &'static str, x: J) -> J {
    obj! {t: t, x: x}
}
/// What a thing is, and what it is taken for.
struct Log(Vec<(String, Vec<J>)>);
impl Log {
    fn auto(&mut self, name: &str, ty: J, send: i64, sync: i64) {
        self.0.push((name.to_string(), vec![obj! {k: "auto", ty: ty, send: send, sync: sync}]));
    }
}
macro_rules! auto {
    ($log: ident, $($t: ty => $e: expr),* $(,)?) => { $($log.auto(stringify!($t), $e, <ProbeSend<$t>>::R, <ProbeSync<$t>>::R);)* };
}
#[stabby::stabby]
#[repr(stabby)]
pub enum EnumOf<T> {
    A(T),
    B(u8),
}
#[stabby::stabby]
pub struct StructOf<T> {
    a: u8,
    b: T,
}
macro_rules! every {
    ($log: ident, $($m: ident: $x: ident $send: literal $sync: literal;)*) => { $( mod $m { use super::*; pub fn one($log: &mut Log) {
        type X = $x;
        let x = || leaf($send, $sync);
        let plain = || leaf(1, 1);
        auto! {$log,
            X => x(),
            SVec<X> => own(vec![x()]),
            SBox<X> => own(vec![x()]),
            BoxedSlice<X> => own(vec![x()]),
            SingleOrVec<X> => own(vec![x()]),
            SOption<X> => own(vec![x()]),
            SResult<X, u8> => own(vec![x(), plain()]),
            SResult<u8, X> => own(vec![plain(), x()]),
            SResult<X, OnlySend> => own(vec![x(), leaf(1, 0)]),
            SResult<OnlySync, X> => own(vec![leaf(0, 1), x()]),
            SResult<SVec<X>, SBox<u8>> => own(vec![own(vec![x()]), plain()]),
            SOption<SBox<X>> => own(vec![own(vec![x()])]),
            SOption<Arc<X>> => own(vec![of("shared", x())]),
            SVec<SOption<X>> => own(vec![own(vec![x()])]),
            stabby_abi::Tuple<X, u8> => own(vec![x(), plain()]),
            stabby_abi::Tuple<u8, SResult<X, u8>> => own(vec![plain(), x()]),
            EnumOf<X> => own(vec![x(), plain()]),
            StructOf<X> => own(vec![plain(), x()]),
            IntoIter<X, DefaultAllocator> => own(vec![x()]),
            Drain<'static, X, DefaultAllocator> => of("mut", own(vec![x()])),
            stabby_abi::alloc::single_or_vec::IterMut<'static, X, DefaultAllocator> => of("mut", own(vec![x()])),
            stabby_abi::result::OkGuard<'static, X, u8> => of("mut", own(vec![x(), plain()])),
            stabby_abi::result::ErrGuard<'static, u8, X> => of("mut", own(vec![plain(), x()])),
            Slice<'static, X> => of("ref", x()),
            SliceMut<'static, X> => of("mut", x()),
            SVec<Slice<'static, X>> => own(vec![of("ref", x())]),
            SOption<Slice<'static, X>> => own(vec![of("ref", x())]),
            SOption<SliceMut<'static, X>> => own(vec![of("mut", x())]),
            Arc<X> => of("shared", x()),
            Weak<X> => of("shared", x()),
            ArcSlice<X> => of("shared", x()),
            WeakSlice<X> => of("shared", x()),
            ArcBTreeSet<X> => of("shared", x()),
            ArcBTreeMap<X, Both> => of("shared", own(vec![x(), plain()])),
            ArcBTreeMap<Both, X> => of("shared", own(vec![plain(), x()])),
            AtomicArc<X, DefaultAllocator> => of("cell", x()),
            AtomicArcBTreeSet<X, false, 5> => of("cell", x()),
            SVec<Arc<X>> => own(vec![of("shared", x())]),
            Arc<SVec<X>> => of("shared", own(vec![x()])),
            Arc<SOption<X>> => of("shared", own(vec![x()])),
            AtomicArc<SResult<X, u8>, DefaultAllocator> => of("cell", own(vec![x(), plain()])),
            // what the allocator is
            SVec<Both, X> => own(vec![plain(), x()]),
            SBox<Both, X> => own(vec![plain(), x()]),
            BoxedSlice<Both, X> => own(vec![plain(), x()]),
            SingleOrVec<Both, X> => own(vec![plain(), x()]),
            SString<X> => own(vec![plain(), x()]),
            BoxedStr<X> => own(vec![plain(), x()]),
            Arc<Both, X> => of("shared", own(vec![plain(), x()])),
            Weak<Both, X> => of("shared", own(vec![plain(), x()])),
            ArcSlice<Both, X> => of("shared", own(vec![plain(), x()])),
            WeakSlice<Both, X> => of("shared", own(vec![plain(), x()])),
            ArcStr<X> => of("shared", own(vec![plain(), x()])),
            WeakStr<X> => of("shared", own(vec![plain(), x()])),
            AtomicArc<Both, X> => of("cell", own(vec![plain(), x()])),
        }
    } } $m::one(&mut $log); )* };
}
macro_rules! set {
    () => { Vec::<&str>::new() };
    ($($s: ident)+) => { vec![$(stringify!($s)),+] };
}
macro_rules! made {
    ($ev: ident, $has: ident, $v: ty, $($l: ident $send: literal $sync: literal),*) => { $(
        $ev.push(obj! {k: "made", of: leaf($send, $sync), has: $has.clone(), r: <ProbeFrom<SBox<$l>, stabby::Dyn<'static, SBox<()>, $v>>>::R, how: "box"});
        $ev.push(obj! {k: "made", of: leaf($send, $sync), has: $has.clone(), r: <ProbeFrom<Arc<$l>, stabby::Dyn<'static, Arc<()>, $v>>>::R, how: "arc"});
        $ev.push(obj! {k: "made", of: leaf($send, $sync), has: $has.clone(), r: <ProbeFrom<&'static mut $l, stabby::Dyn<'static, &'static mut (), $v>>>::R, how: "mut"});
        $ev.push(obj! {k: "made", of: leaf($send, $sync), has: $has.clone(), r: <ProbeFrom<&'static $l, stabby::DynRef<'static, $v>>>::R, how: "ref"});
    )* };
}
/// Objects that promise some, made from values that keep some, and cast to others.
macro_rules! objects {
    ($log: ident, $([$($p: ident)*] $vt: ty;)*) => { $( {
        type V = $vt;
        let has: Vec<&str> = set!($($p)*);
        let x = || leaf(has.contains(&"Send") as i64, has.contains(&"Sync") as i64);
        auto! {$log,
            stabby::Dyn<'static, SBox<()>, V> => own(vec![x()]),
            stabby::Dyn<'static, Arc<()>, V> => of("shared", x()),
            stabby::Dyn<'static, Weak<()>, V> => of("shared", x()),
            stabby::Dyn<'static, &'static mut (), V> => of("mut", x()),
            stabby::DynRef<'static, V> => of("ref", x()),
            SVec<stabby::Dyn<'static, SBox<()>, V>> => own(vec![own(vec![x()])]),
            SOption<stabby::Dyn<'static, Arc<()>, V>> => own(vec![of("shared", x())]),
        }
        let mut ev = Vec::new();
        made!(ev, has, V, Both 1 1, OnlySend 1 0, OnlySync 0 1, Neither 0 0);
        $log.0.push((format!("objects of {}", stringify!($vt)), ev));
        ups!($log, [$($p)*] V; [] stabby::vtable!(Tr); [Send] stabby::vtable!(Tr + Send); [Sync] stabby::vtable!(Tr + Sync); [Send Sync] stabby::vtable!(Tr + Send + Sync); [Send] stabby::vtable!(Send + Tr); [Sync] stabby::vtable!(Sync + Tr););
    } )* };
}
macro_rules! ups {
    ($log: ident, [$($p: ident)*] $vt: ty; $([$($q: ident)*] $to: ty;)*) => {
        let from: Vec<&str> = set!($($p)*);
        let mut ev = Vec::new();
        $( {
            type W = $to;
            ev.push(obj! {k: "up", from: from.clone(), to: set!($($q)*), r: <ProbeUp<stabby::Dyn<'static, SBox<()>, $vt>, stabby::Dyn<'static, SBox<()>, W>>>::R});
            ev.push(obj! {k: "up", from: from.clone(), to: set!($($q)*), r: <ProbeUp<stabby::Dyn<'static, Arc<()>, $vt>, stabby::Dyn<'static, Arc<()>, W>>>::R});
        } )*
        $log.0.push((format!("casts of {}", from.join(" + ")), ev));
    };
}
fn main() {
    let a = args();
    quiet_panics();
    let mut out = Out::new(&a.out, &a.suite);
    let mut log = Log(vec![]);
    out.begin("threads");
    every! {log,
        both: Both 1 1;
        only_send: OnlySend 1 0;
        only_sync: OnlySync 0 1;
        neither: Neither 0 0;
    }
    objects! {log,
        [] stabby::vtable!(Tr);
        [Send] stabby::vtable!(Tr + Send);
        [Sync] stabby::vtable!(Tr + Sync);
        [Send Sync] stabby::vtable!(Tr + Send + Sync);
        [Send Sync] stabby::vtable!(Tr + Sync + Send);
        [Send] stabby::vtable!(Send + Tr);
        [Sync] stabby::vtable!(Sync + Tr);
        [Send] stabby::vtable!(Tr + Other + Send);
        [Sync] stabby::vtable!(Tr + Other + Sync);
        [Send] stabby::vtable!(Tr + Send + Other);
        [Sync] stabby::vtable!(Tr + Sync + Other);
        [Send Sync] stabby::vtable!(Send + Tr + Sync);
        [Send Sync] stabby::vtable!(Send + Sync + Tr);
    }
    auto! {log,
        stabby::future::DynFuture<'static, Both> => own(vec![leaf(1, 1)]),
        stabby::future::DynFutureUnsync<'static, Both> => own(vec![leaf(1, 0)]),
        stabby::future::DynFutureUnsend<'static, Both> => own(vec![leaf(0, 0)]),
        stabby::future::DynFuture<'static, Neither> => own(vec![leaf(1, 1)]),
        stabby::future::DynFutureUnsync<'static, Neither> => own(vec![leaf(1, 0)]),
    }
    for (name, ev) in log.0 {
        out.begin(&name);
        out.trace_meta(J::L(vec![]), ev, J::from(name));
    }
    // what the compiler said of the probes of lifetimes: their lines, and whether it refused them
    if let Ok(path) = std::env::var("VERIF_PROBES") {
        for line in std::fs::read_to_string(path).unwrap().lines() {
            let f: Vec<&str> = line.split('\t').collect();
            out.begin(line);
            out.trace_meta(J::L(vec![]), vec![obj! {k: "coerce", ty: f[0], kind: f[1], how: f[2], r: (f[3] == "1") as i64}], J::from(line));
        }
    }
    out.finish();
}
