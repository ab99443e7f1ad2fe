#!/usr/bin/env python3
"""Writes harness/src/bin/lifetimes.rs: probes, one a line, of which the compiler refuses those that mustn't be."""
import re
P = []
def probe(ty, kind, how, src):
    P.append((ty, kind, how, src))
def both(ty, kind):
    ty = re.sub(r"\bE\b", "&'x u8", ty)
    for how, f, t in (("shrink", "'b", "'a"), ("grow", "'a", "'b")):
        probe(ty, kind, how, f"pub fn NAME<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: {ty.replace(chr(39) + 'x', f)}) -> {ty.replace(chr(39) + 'x', t)} {{ x }}")
for t in ("SVec<E>", "SBox<E>", "BoxedSlice<E>", "SingleOrVec<E>", "SOption<E>", "SResult<E, u8>", "SResult<u8, E>", "IntoIter<E, DefaultAllocator>", "stabby_abi::Tuple<E, u8>", "SVec<SOption<E>>", "EnumOf<E>",
          "stabby::Dyn<'x, SBox<()>, V>", "SVec<Str<'x>>", "SOption<Slice<'x, u8>>"):
    both(t, "own")
for t in ("Arc<E>", "Weak<E>", "ArcSlice<E>", "WeakSlice<E>", "ArcBTreeSet<E>", "ArcBTreeMap<E, u8>", "ArcBTreeMap<u8, E>", "stabby::Dyn<'x, Arc<()>, V>"):
    both(t, "shared")
for t in ("Slice<'v, E>", "Slice<'x, u8>", "Str<'x>", "SliceMut<'x, u8>", "StrMut<'x>", "stabby::DynRef<'x, V>", "stabby::Dyn<'x, &'x mut (), V>", "RefAs<'x, u8, u8>", "MutAs<'x, u8, u8>"):
    both(t, "ref")
for t in ("SliceMut<'v, E>", "Drain<'v, E, DefaultAllocator>", "stabby_abi::alloc::vec::DoubleEndedDrain<'v, E, DefaultAllocator>", "stabby_abi::alloc::single_or_vec::IterMut<'v, E, DefaultAllocator>", "stabby_abi::alloc::single_or_vec::SliceGuardMut<'v, E, DefaultAllocator>",
          "OkGuard<'v, E, u8>", "ErrGuard<'v, u8, E>", "&'v mut SVec<E>", "&'v mut SOption<E>", "MutAs<'v, E, E>"):
    both(t, "mut")
for t in ("AtomicArc<E, DefaultAllocator>", "&'v AtomicArc<E, DefaultAllocator>", "AtomicArcBTreeSet<E, false, 5>", "&'v AtomicArcBTreeSet<E, false, 5>"):
    both(t, "cell")
# what is got from a borrowed thing doesn't outlive the borrow
for ty, f, t, e in (
        ("SVec<u8>", "&'a SVec<u8>", "&'b [u8]", "&x[..]"),
        ("SVec<u8>", "&'a mut SVec<u8>", "&'b mut [u8]", "&mut x[..]"),
        ("SVec<u8>", "&'a mut SVec<u8>", "Drain<'b, u8, DefaultAllocator>", "x.drain(..)"),
        ("SBox<u8>", "&'a SBox<u8>", "&'b u8", "&**x"),
        ("SBox<u8>", "&'a mut SBox<u8>", "&'b mut u8", "&mut **x"),
        ("BoxedSlice<u8>", "&'a BoxedSlice<u8>", "&'b [u8]", "&x[..]"),
        ("SString", "&'a SString", "&'b str", "&x[..]"),
        ("SString", "&'a SString", "&'b str", "x.as_str()"),
        ("ArcStr", "&'a ArcStr", "&'b str", "&x[..]"),
        ("BoxedStr", "&'a BoxedStr", "&'b str", "&x[..]"),
        ("SingleOrVec<u8>", "&'a SingleOrVec<u8>", "&'b [u8]", "&x[..]"),
        ("Arc<u8>", "&'a Arc<u8>", "&'b u8", "&**x"),
        ("Arc<u8>", "&'a mut Arc<u8>", "core::option::Option<&'b mut u8>", "Arc::get_mut(x)"),
        ("Arc<u8>", "&'a mut Arc<u8>", "&'b mut u8", "Arc::make_mut(x)"),
        ("ArcSlice<u8>", "&'a ArcSlice<u8>", "&'b [u8]", "&x[..]"),
        ("ArcSlice<u8>", "&'a mut ArcSlice<u8>", "&'b [u8]", "x.as_slice()"),
        ("ArcBTreeSet<u8>", "&'a ArcBTreeSet<u8>", "core::option::Option<&'b u8>", "x.get(&1)"),
        ("ArcBTreeMap<u8, u8>", "&'a ArcBTreeMap<u8, u8>", "core::option::Option<&'b u8>", "x.get(&1)"),
        ("SOption<u8>", "&'a SOption<u8>", "core::option::Option<&'b u8>", "x.as_ref()"),
        ("SResult<u8, u8>", "&'a SResult<u8, u8>", "core::result::Result<&'b u8, &'b u8>", "x.as_ref()"),
        ("SResult<u8, u8>", "&'a SResult<u8, u8>", "core::option::Option<&'b u8>", "x.ok_ref()"),
        ("SResult<u8, u8>", "&'a SResult<u8, u8>", "core::option::Option<&'b u8>", "x.err_ref()"),
        ("SliceMut<'b, u8>", "&'a SliceMut<'b, u8>", "&'b [u8]", "&x[..]"),
        ("SliceMut<'b, u8>", "&'a mut SliceMut<'b, u8>", "&'b mut [u8]", "&mut x[..]"),
        ("StrMut<'b>", "&'a mut StrMut<'b>", "&'b mut str", "&mut x[..]"),
        ("Slice<'a, u8>", "Slice<'a, u8>", "&'b [u8]", "x.as_slice()"),
        ("Slice<'a, u8>", "Slice<'a, u8>", "&'b [u8]", "x.into()"),
        ("Slice<'a, u8>", "&'a [u8]", "Slice<'b, u8>", "x.into()"),
        ("SliceMut<'a, u8>", "&'a mut [u8]", "SliceMut<'b, u8>", "x.into()"),
        ("SliceMut<'a, u8>", "SliceMut<'a, u8>", "Slice<'b, u8>", "x.into()"),
        ("SliceMut<'a, u8>", "SliceMut<'a, u8>", "&'b mut [u8]", "x.into()"),
        ("Str<'a>", "Str<'a>", "&'b str", "x.as_str()"),
        ("Str<'a>", "&'a str", "Str<'b>", "x.into()"),
        ("StrMut<'a>", "&'a mut str", "StrMut<'b>", "x.into()"),
        ("StrMut<'a>", "StrMut<'a>", "Str<'b>", "x.into()"),
        ("Dyn", "&'a X", "stabby::DynRef<'b, V>", "x.into()"),
        ("Dyn", "&'a mut X", "stabby::Dyn<'b, &'b mut (), V>", "x.into()"),
        ("Dyn", "SBox<Of<'a>>", "stabby::Dyn<'b, SBox<()>, V>", "x.into()"),
        ("Dyn", "Arc<Of<'a>>", "stabby::Dyn<'b, Arc<()>, V>", "x.into()"),
        ("Dyn", "&'a stabby::Dyn<'b, SBox<()>, V>", "stabby::DynRef<'b, V>", "x.as_ref()"),
        ("Dyn", "&'a mut stabby::Dyn<'b, SBox<()>, V>", "stabby::Dyn<'b, &'b mut (), V>", "x.as_mut()"),
        ("Dyn", "&'a stabby::Dyn<'b, SBox<()>, V>", "core::option::Option<&'b X>", "unsafe { x.downcast_ref::<X>() }"),
        ("Dyn", "stabby::Dyn<'a, Arc<()>, V>", "stabby::Dyn<'b, Weak<()>, V>", "(&x).into()"),
        ("closures", "SBox<Of<'a>>", "Of<'b>", "SBox::into_inner(x)"),
        ("SVec<Of>", "SVec<Of<'a>>", "core::option::Option<Of<'b>>", "{ let mut x = x; x.pop() }")):
    probe(ty, "ref", "grow", f"pub fn NAME<'a, 'b: 'a>(x: {f}) -> {t} {{ {e} }}")
HEAD = '''//! Probes of lifetimes, generated by tools/genlives.py: the compiler refuses those that mustn't compile.
#![allow(dead_code, unused, clippy::all)]
use stabby_abi::alloc::boxed::{Box as SBox, BoxedSlice, BoxedStr};
use stabby_abi::alloc::collections::arc_btree::{ArcBTreeMap, ArcBTreeSet, AtomicArcBTreeSet};
use stabby_abi::alloc::single_or_vec::SingleOrVec;
use stabby_abi::alloc::string::String as SString;
use stabby_abi::alloc::sync::{Arc, ArcSlice, ArcStr, AtomicArc, Weak, WeakSlice};
use stabby_abi::alloc::vec::{Drain, IntoIter, Vec as SVec};
use stabby_abi::alloc::DefaultAllocator;
use stabby_abi::as_mut::{MutAs, RefAs};
use stabby_abi::option::Option as SOption;
use stabby_abi::result::{ErrGuard, OkGuard, Result as SResult};
use stabby_abi::slice::{Slice, SliceMut};
use stabby_abi::str::{Str, StrMut};
#[stabby::stabby]
pub trait Tr {
    extern "C" fn tr(&self) -> u32;
}
#[stabby::stabby]
pub struct X(u32);
impl Tr for X { extern "C" fn tr(&self) -> u32 { self.0 } }
#[stabby::stabby]
pub struct Of<'x>(&'x u8);
impl Tr for Of<'_> { extern "C" fn tr(&self) -> u32 { *self.0 as u32 } }
#[stabby::stabby]
#[repr(stabby)]
pub enum EnumOf<T> {
    A(T),
    B(u8),
}
type V = stabby::vtable!(Tr);
fn main() {}
'''
import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "bin", "lifetimes.rs"), "w") as f:
    f.write(HEAD)
    for n, (ty, kind, how, src) in enumerate(P):
        f.write(f"{src.replace('NAME', f'p{n}')} //\t{ty}\t{kind}\t{how}\n")
