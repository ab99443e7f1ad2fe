//! The stable types, written to and read from every kind of source that serde allows.
#![allow(clippy::all)]
use serde::de::{self, Deserialize, DeserializeSeed, Visitor};
use serde::ser::{self, Serialize};
use stabby_abi::alloc::boxed::{BoxedSlice, BoxedStr};
use stabby_abi::alloc::string::String as SString;
use stabby_abi::alloc::sync::{ArcSlice, ArcStr};
use stabby_abi::alloc::vec::Vec as SVec;
use stabby_abi::num::*;
use stabby_abi::option::Option as SOption;
use stabby_abi::result::Result as SResult;
use stabby_abi::slice::{Slice, SliceMut};
use stabby_abi::str::{Str, StrMut};
use stabby_abi::IStable;
use std::sync::atomic::Ordering;
use vharness::galloc::{self, Galloc};
use vharness::{args, catch, fx, obj, quiet_panics, tok, Out, Rng, Tok, J};
#[global_allocator]
static G: Galloc = Galloc;
#[derive(Debug)]
struct E;
impl std::fmt::Display for E {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl de::Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> E {
        E
    }
}
impl ser::Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> E {
        E
    }
}
#[derive(Debug, Clone, PartialEq)]
enum Tree {
    Str(String),
    Bytes(Vec<u8>),
    Seq(Vec<Tree>),
    None,
    Some(Box<Tree>),
    Variant(String, Box<Tree>),
    Int(i128, u128),
    Fail,
}
use Tree::Int;
fn int(x: u128) -> Tree {
    Int(0, x)
}
/// Numbers keep their order and distinctness, and stay small.
fn small(neg: i128, x: u128) -> i64 {
    if neg < 0 {
        return neg.max(-1_000_000) as i64;
    }
    for (k, w) in [(1_100_000_000i64, 1u128 << 32), (1_200_000_000, 1 << 64)] {
        if x >= w - 500 && x < w + 500 {
            return k + (x - (w - 500)) as i64;
        }
    }
    match x {
        0..=1_000_000_000 => x as i64,
        _ if x > u128::MAX - 500 => 1_300_000_500 - (u128::MAX - x) as i64,
        _ => 1_400_000_000,
    }
}
fn chars(s: &str) -> Vec<i64> {
    s.bytes().map(|b| b as i64).collect()
}
impl Tree {
    fn j(&self) -> J {
        match self {
            Tree::Str(s) => obj! {t: "str", c: chars(s)},
            Tree::Bytes(s) => obj! {t: "bytes", c: s.iter().map(|b| *b as i64).collect::<Vec<_>>()},
            Tree::Seq(l) => obj! {t: "seq", l: J::L(l.iter().map(Tree::j).collect())},
            Tree::None => obj! {t: "none"},
            Tree::Some(x) => obj! {t: "some", x: x.j()},
            Tree::Variant(n, x) => obj! {t: "variant", n: n.clone(), x: x.j()},
            Int(n, x) => obj! {t: "int", x: small(*n, *x)},
            Tree::Fail => obj! {t: "fail"},
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Borrowed,
    Transient,
    Owned,
}
#[derive(Clone, Copy)]
struct Src<'de>(&'de Tree, Mode, usize);
fn hint(kind: usize, n: usize) -> Option<usize> {
    match kind {
        0 => None,
        1 => Some(n),
        2 => Some(0),
        3 => Some(n / 2),
        4 => Some(n + 3),
        5 => Some(1 << 50),
        _ => Some(usize::MAX),
    }
}
impl<'de> de::Deserializer<'de> for Src<'de> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            Tree::Str(s) => match self.1 {
                Mode::Borrowed => v.visit_borrowed_str(s),
                Mode::Transient => {
                    let mut copy = s.clone();
                    let r = v.visit_str(&copy);
                    // it is gone afterwards
                    unsafe { copy.as_bytes_mut() }.fill(b'#');
                    r
                }
                Mode::Owned => v.visit_string(s.clone()),
            },
            Tree::Bytes(s) => match self.1 {
                Mode::Borrowed => v.visit_borrowed_bytes(s),
                Mode::Transient => {
                    let mut copy = s.clone();
                    let r = v.visit_bytes(&copy);
                    copy.fill(b'#');
                    r
                }
                Mode::Owned => v.visit_byte_buf(s.clone()),
            },
            Tree::Seq(l) => v.visit_seq(Elems(self, l, 0)),
            Tree::None => v.visit_none(),
            Tree::Some(x) => v.visit_some(Src(x, self.1, self.2)),
            Tree::Variant(n, x) => v.visit_enum(Enum(n, Src(x, self.1, self.2))),
            Int(n, x) => {
                if *n < 0 {
                    v.visit_i64(*n as i64)
                } else if *x <= u64::MAX as u128 {
                    v.visit_u64(*x as u64)
                } else {
                    v.visit_u128(*x)
                }
            }
            Tree::Fail => Err(E),
        }
    }
    // who asks for an owned one isn't lent any
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        Src(self.0, if self.1 == Mode::Borrowed { Mode::Owned } else { self.1 }, self.2).deserialize_any(v)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_string(v)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str bytes option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
struct Elems<'de>(Src<'de>, &'de [Tree], usize);
impl<'de> de::SeqAccess<'de> for Elems<'de> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        let Some(x) = self.1.get(self.2) else { return Ok(None) };
        self.2 += 1;
        seed.deserialize(Src(x, self.0 .1, self.0 .2)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.0 .2, self.1.len() - self.2)
    }
}
struct Enum<'de>(&'de str, Src<'de>);
impl<'de> de::EnumAccess<'de> for Enum<'de> {
    type Error = E;
    type Variant = Self;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, Self), E> {
        let name = de::value::StrDeserializer::<E>::new(self.0);
        seed.deserialize(name).map(|x| (x, self))
    }
}
impl<'de> de::VariantAccess<'de> for Enum<'de> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Err(E)
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, E> {
        seed.deserialize(self.1)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, E> {
        Err(E)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, E> {
        Err(E)
    }
}
/// What is written, as a tree; a list that isn't as long as announced is a failure.
struct Dst;
struct List(Vec<Tree>, Option<usize>);
impl ser::SerializeSeq for List {
    type Ok = Tree;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), E> {
        self.0.push(x.serialize(Dst)?);
        Ok(())
    }
    fn end(self) -> Result<Tree, E> {
        Ok(if self.1.map_or(true, |n| n == self.0.len()) { Tree::Seq(self.0) } else { Tree::Fail })
    }
}
macro_rules! ints {
    ($($f: ident $t: ty),*) => { $(fn $f(self, x: $t) -> Result<Tree, E> { #[allow(unused_comparisons)] Ok(if x < 0 { Int(x as i128, 0) } else { int(x as u128) }) })* };
}
macro_rules! never {
    ($($f: ident($($t: ty),*) -> $r: ty;)*) => { $(fn $f(self $(, _: $t)*) -> Result<$r, E> { Err(E) })* };
}
type No = ser::Impossible<Tree, E>;
impl ser::Serializer for Dst {
    type Ok = Tree;
    type Error = E;
    type SerializeSeq = List;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = No;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    ints! {serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128}
    never! {
        serialize_bool(bool) -> Tree;
        serialize_f32(f32) -> Tree;
        serialize_f64(f64) -> Tree;
        serialize_char(char) -> Tree;
        serialize_unit() -> Tree;
        serialize_unit_struct(&'static str) -> Tree;
        serialize_unit_variant(&'static str, u32, &'static str) -> Tree;
        serialize_tuple(usize) -> No;
        serialize_tuple_struct(&'static str, usize) -> No;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> No;
        serialize_map(Option<usize>) -> No;
        serialize_struct(&'static str, usize) -> No;
        serialize_struct_variant(&'static str, u32, &'static str, usize) -> No;
    }
    fn serialize_str(self, s: &str) -> Result<Tree, E> {
        Ok(Tree::Str(s.into()))
    }
    fn serialize_bytes(self, s: &[u8]) -> Result<Tree, E> {
        Ok(Tree::Bytes(s.into()))
    }
    fn serialize_none(self) -> Result<Tree, E> {
        Ok(Tree::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, x: &T) -> Result<Tree, E> {
        Ok(Tree::Some(Box::new(x.serialize(Dst)?)))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, x: &T) -> Result<Tree, E> {
        x.serialize(Dst)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, x: &T) -> Result<Tree, E> {
        Ok(Tree::Variant(n.into(), Box::new(x.serialize(Dst)?)))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<List, E> {
        Ok(List(vec![], n))
    }
}
/// An element whose life is followed.
#[repr(transparent)]
struct P(Tok);
unsafe impl IStable for P {
    type Size = <Tok as IStable>::Size;
    type Align = <Tok as IStable>::Align;
    type ForbiddenValues = <Tok as IStable>::ForbiddenValues;
    type UnusedBits = <Tok as IStable>::UnusedBits;
    type HasExactlyOneNiche = <Tok as IStable>::HasExactlyOneNiche;
    type ContainsIndirections = <Tok as IStable>::ContainsIndirections;
    const REPORT: &'static stabby_abi::report::TypeReport = <Tok as IStable>::REPORT;
    const ID: u64 = <Tok as IStable>::ID;
}
impl Serialize for P {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.id();
        s.serialize_i64(self.0.val)
    }
}
impl<'de> Deserialize<'de> for P {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let val = i64::deserialize(d)?;
        Ok(P(galloc::untracked(|| Tok::new(val))))
    }
}
#[derive(Clone)]
enum Ty {
    Text,
    Ref,
    RefBytes,
    List(Box<Ty>),
    Opt(Box<Ty>),
    Res(Box<Ty>, Box<Ty>),
    Num(u128, u128),
    Tok,
}
impl Ty {
    fn j(&self) -> J {
        match self {
            Ty::Text => obj! {t: "text"},
            Ty::Ref => obj! {t: "ref"},
            Ty::RefBytes => obj! {t: "refbytes"},
            Ty::List(x) => obj! {t: "list", x: x.j()},
            Ty::Opt(x) => obj! {t: "opt", x: x.j()},
            Ty::Res(a, b) => obj! {t: "res", ok: a.j(), err: b.j()},
            Ty::Num(m, n) => obj! {t: "num", max: small(0, *m), not: small(0, *n)},
            Ty::Tok => obj! {t: "tok"},
        }
    }
    /// Something to read it from: mostly what it can be read from.
    fn source(&self, r: &mut Rng, wrong: bool) -> Tree {
        if wrong && r.chance(1, 7) {
            return match r.below(6) {
                0 => Tree::Fail,
                1 => Tree::None,
                2 => Tree::Variant(["Ok", "Err", "Maybe"][r.below(3)].into(), Box::new(int(1))),
                3 if !matches!(self, Ty::RefBytes) => Tree::Str("9".into()),
                4 => Tree::Some(Box::new(int(2))),
                _ if !matches!(self, Ty::Tok | Ty::Num(..)) => int(3),
                _ => Tree::Fail,
            };
        }
        match self {
            Ty::Text | Ty::Ref => Tree::Str(text(r)),
            Ty::RefBytes => Tree::Bytes((0..r.below(9)).map(|_| r.below(256) as u8).collect()),
            Ty::List(x) => {
                let n = [0, 1, 2, 3, 5, 9][r.below(6)];
                Tree::Seq((0..n).map(|_| x.source(r, wrong)).collect())
            }
            Ty::Opt(x) => if r.chance(1, 3) { Tree::None } else { Tree::Some(Box::new(x.source(r, wrong))) },
            Ty::Res(a, b) => if r.chance(1, 2) { Tree::Variant("Ok".into(), Box::new(a.source(r, wrong))) } else { Tree::Variant("Err".into(), Box::new(b.source(r, wrong))) },
            Ty::Num(m, n) => {
                let near = |r: &mut Rng, x: u128| if r.chance(1, 2) { x.saturating_add(r.below(3) as u128) } else { x.saturating_sub(r.below(3) as u128) };
                match r.below(if wrong { 8 } else { 4 }) {
                    0 => int(near(r, 0)),
                    1 => int(near(r, *m).min(*m)),
                    2 => int(near(r, *n).min(*m)),
                    3 => int(r.below(200) as u128),
                    4 => int(*m),
                    5 => int(*n),
                    6 => int(m.saturating_add(1)),
                    _ => Int(-1 - r.below(3) as i128, 0),
                }
            }
            Ty::Tok => int(r.below(100) as u128),
        }
    }
}
fn text(r: &mut Rng) -> String {
    let n = [0, 1, 2, 4, 7, 20][r.below(6)];
    (0..n).map(|_| ['a', 'Z', '0', '\n', '"', 'é', '水', '😀', '\0'][r.below(9)]).collect()
}
trait Val {
    fn ty() -> Ty;
    fn val(&self) -> J;
}
macro_rules! val {
    ($([$($g: tt)*] $t: ty, $ty: expr, |$x: ident| $v: expr;)*) => { $(impl $($g)* Val for $t { fn ty() -> Ty { $ty } fn val(&self) -> J { let $x = self; $v } })* };
}
fn t(s: &str) -> J {
    obj! {t: "text", c: chars(s)}
}
fn list<X: Val>(l: &[X]) -> J {
    obj! {t: "list", l: J::L(l.iter().map(Val::val).collect())}
}
fn num(x: u128) -> J {
    obj! {t: "num", x: small(0, x)}
}
val! {
    [] SString, Ty::Text, |x| t(x);
    [] BoxedStr, Ty::Text, |x| t(x);
    [] ArcStr, Ty::Text, |x| t(x);
    [<'a>] Str<'a>, Ty::Ref, |x| t(x);
    [<'a>] Slice<'a, u8>, Ty::RefBytes, |x| list(x);
    [] u8, Ty::Num(255, 256), |x| num(*x as u128);
    [<X: Val>] SVec<X>, Ty::List(Box::new(X::ty())), |x| list(x);
    [<X: Val>] BoxedSlice<X>, Ty::List(Box::new(X::ty())), |x| list(x);
    [<X: Val>] ArcSlice<X>, Ty::List(Box::new(X::ty())), |x| list(x);
    [] P, Ty::Tok, |x| { x.0.id(); obj! {t: "tok", x: x.0.val} };
    [] NonMaxU8, Ty::Num(u8::MAX as u128, u8::MAX as u128), |x| num(x.get() as u128);
    [] NonMaxU16, Ty::Num(u16::MAX as u128, u16::MAX as u128), |x| num(x.get() as u128);
    [] NonMaxU32, Ty::Num(u32::MAX as u128, u32::MAX as u128), |x| num(x.get() as u128);
    [] NonMaxU64, Ty::Num(u64::MAX as u128, u64::MAX as u128), |x| num(x.get() as u128);
    [] NonMaxU128, Ty::Num(u128::MAX, u128::MAX), |x| num(x.get());
    [<const N: u8>] NonXU8<N>, Ty::Num(u8::MAX as u128, N as u128), |x| num(x.get() as u128);
    [<const N: u16>] NonXU16<N>, Ty::Num(u16::MAX as u128, N as u128), |x| num(x.get() as u128);
    [<const N: u32>] NonXU32<N>, Ty::Num(u32::MAX as u128, N as u128), |x| num(x.get() as u128);
    [<const N: u64>] NonXU64<N>, Ty::Num(u64::MAX as u128, N as u128), |x| num(x.get() as u128);
    [<const N: u128>] NonXU128<N>, Ty::Num(u128::MAX, N), |x| num(x.get());
}
macro_rules! sums {
    ($([$($x: ty),+])*) => { $(
        impl Val for SOption<$($x)+> {
            fn ty() -> Ty { Ty::Opt(Box::new(<$($x)+ as Val>::ty())) }
            fn val(&self) -> J { let mut l = vec![]; if let Some(x) = self.as_ref() { l.push(x.val()) }; obj! {t: "opt", l: J::L(l)} }
        }
    )* };
}
sums! {[P] [SString] [BoxedStr] [NonMaxU8] [NonXU16<7>] [SVec<P>] [u8] [Str<'static>] [ArcStr] [NonMaxU128]}
macro_rules! results {
    ($([$x: ty, $y: ty])*) => { $(
        impl Val for SResult<$x, $y> {
            fn ty() -> Ty { Ty::Res(Box::new(<$x as Val>::ty()), Box::new(<$y as Val>::ty())) }
            fn val(&self) -> J { match self.as_ref() { Ok(x) => obj! {t: "res", ok: 1, x: x.val()}, Err(x) => obj! {t: "res", ok: 0, x: x.val()} } }
        }
    )* };
}
results! {[P, SString] [SString, P] [u8, SVec<P>] [BoxedStr, NonMaxU8] [u8, u8] [SVec<SString>, Str<'static>] [SVec<P>, SVec<P>]}
fn live() -> i64 {
    tok::live().len() as i64
}
fn bad() -> i64 {
    (fx::take().bad.len() + galloc::BAD.swap(0, Ordering::SeqCst)) as i64
}
/// Read, write what was read, and read that again.
fn case<T: Val + Serialize + Deserialize<'static>>(name: &str, r: &mut Rng, wrong: bool, out: &mut Out) {
    let source = T::ty().source(r, wrong);
    let (mode, h) = ([Mode::Borrowed, Mode::Transient, Mode::Owned][r.below(3)], r.below(7));
    let mut ev = vec![];
    out.begin(&format!("{name} {mode:?} {h} {source:?}"));
    let before = galloc::LIVE.load(Ordering::SeqCst);
    bad();
    let mut sources = vec![source];
    let mut k = 0;
    while k < sources.len() && k < 2 {
        // whatever is lent stays
        let source: &'static Tree = Box::leak(Box::new(sources[k].clone()));
        let (mode, h) = if k == 0 { (mode, h) } else { (Mode::Borrowed, 1) };
        let had = live();
        let x = catch(|| galloc::tracking(|| T::deserialize(Src(source, mode, h))));
        let r = match &x {
            None => obj! {t: "panic"},
            Some(Err(E)) => obj! {t: "bad"},
            Some(Ok(x)) => x.val(),
        };
        let m = ["borrowed", "transient", "owned"][mode as usize];
        ev.push(obj! {k: "read", ty: T::ty().j(), in: source.j(), mode: m, r: r, live: live() - had, bad: bad()});
        if let Some(Ok(x)) = x {
            let had = live();
            let tree = catch(|| x.serialize(Dst));
            let r = match &tree {
                None => obj! {t: "panic"},
                Some(Err(E)) => obj! {t: "bad"},
                Some(Ok(t)) => t.j(),
            };
            ev.push(obj! {k: "write", v: x.val(), r: r, live: live() - had, bad: bad()});
            if let Some(Ok(t)) = tree {
                // bytes are written as a list of numbers, which doesn't lend bytes
                if !matches!(T::ty(), Ty::RefBytes) {
                    sources.push(t);
                }
            }
            drop(x);
        }
        k += 1;
    }
    let left = live() + (galloc::LIVE.load(Ordering::SeqCst) - before).abs();
    ev.push(obj! {k: "end", left: left, bad: bad()});
    out.trace_meta(J::L(vec![]), ev, J::from(name));
}
/// What can only be written.
fn lent(r: &mut Rng, out: &mut Out) {
    let mut s = text(r);
    let mut l: Vec<SString> = (0..r.below(5)).map(|_| text(r).as_str().into()).collect();
    let mut toks: Vec<P> = (0..r.below(5)).map(|i| P(Tok::new(i as i64))).collect();
    let mut bytes: Vec<u8> = (0..r.below(5)).map(|_| r.below(256) as u8).collect();
    out.begin(&format!("lent {s:?} {l:?} {bytes:?}"));
    bad();
    let mut ev = vec![];
    let mut w = |v: J, x: &dyn Fn() -> Result<Tree, E>| {
        let had = live();
        let r = match catch(|| x()) {
            None => obj! {t: "panic"},
            Some(Err(E)) => obj! {t: "bad"},
            Some(Ok(t)) => t.j(),
        };
        ev.push(obj! {k: "write", v: v, r: r, live: live() - had, bad: bad()});
    };
    let v = t(&s);
    let x = StrMut::from(s.as_mut_str());
    w(v, &|| x.serialize(Dst));
    w(list(&l), &|| Slice::from(l.as_slice()).serialize(Dst));
    w(list(&toks), &|| Slice::from(toks.as_slice()).serialize(Dst));
    w(list(&bytes), &|| Slice::from(bytes.as_slice()).serialize(Dst));
    let v = list(&l);
    let x = SliceMut::from(l.as_mut_slice());
    w(v, &|| x.serialize(Dst));
    let v = list(&toks);
    let x = SliceMut::from(toks.as_mut_slice());
    w(v, &|| x.serialize(Dst));
    let v = list(&bytes);
    let x = SliceMut::from(bytes.as_mut_slice());
    w(v, &|| x.serialize(Dst));
    drop(toks);
    ev.push(obj! {k: "end", left: live(), bad: bad()});
    out.trace_meta(J::L(vec![]), ev, J::from("lent"));
}
macro_rules! cases {
    ($($t: ty),* $(,)?) => { [$((stringify!($t), case::<$t> as fn(&str, &mut Rng, bool, &mut Out))),*] };
}
fn main() {
    let a = args();
    quiet_panics();
    galloc::quarantine(false);
    let mut out = Out::new(&a.out, &a.suite);
    let cases = cases![
        SString, BoxedStr, ArcStr, Str<'static>, Slice<'static, u8>,
        SVec<P>, BoxedSlice<P>, ArcSlice<P>, SVec<SString>, SVec<Str<'static>>, SVec<u8>, BoxedSlice<BoxedStr>, ArcSlice<ArcStr>, SVec<SVec<P>>, SVec<Slice<'static, u8>>,
        BoxedSlice<SVec<P>>, ArcSlice<BoxedSlice<P>>, SVec<SOption<P>>, SVec<SResult<P, SString>>, ArcSlice<SOption<SString>>,
        SOption<P>, SOption<SString>, SOption<BoxedStr>, SOption<NonMaxU8>, SOption<NonXU16<7>>, SOption<SVec<P>>, SOption<u8>, SOption<Str<'static>>, SOption<ArcStr>, SOption<NonMaxU128>,
        SResult<P, SString>, SResult<SString, P>, SResult<u8, SVec<P>>, SResult<BoxedStr, NonMaxU8>, SResult<u8, u8>, SResult<SVec<SString>, Str<'static>>, SResult<SVec<P>, SVec<P>>,
        NonMaxU8, NonMaxU16, NonMaxU32, NonMaxU64, NonMaxU128, NonXU8<0>, NonXU8<7>, NonXU8<255>, NonXU16<0>, NonXU16<300>, NonXU32<0>, NonXU32<4294967295>, NonXU64<5>, NonXU64<18446744073709551615>, NonXU128<1>,
        SVec<NonMaxU8>, SVec<NonXU32<9>>,
    ];
    let rounds = if a.thorough { 3000 } else { 250 };
    let mut rng = Rng::new(a.seed);
    for n in 0..rounds {
        for (name, f) in &cases {
            tok::reset();
            f(name, &mut rng, n % 2 == 1, &mut out);
        }
        tok::reset();
        lent(&mut rng, &mut out);
    }
    out.finish();
}
