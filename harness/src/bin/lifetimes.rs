//! Probes of lifetimes, generated by tools/genlives.py: the compiler refuses those that mustn't compile.
#![allow(dead_code, unused, clippy::all)]
use stabby_abi::alloc::boxed::{Box as SBox, BoxedSlice, BoxedStr};
use stabby_abi::alloc::collections::arc_btree::{ArcBTreeMap, ArcBTreeSet, AtomicArcBTreeSet};
use stabby_abi::alloc::single_or_vec::SingleOrVec;
use stabby_abi::alloc::string::String as SString;
use stabby_abi::alloc::sync::{Arc, ArcSlice, ArcStr, AtomicArc, Weak, WeakSlice};
use stabby_abi::alloc::vec::{Drain, IntoIter, Vec as SVec};
use stabby_abi::alloc::DefaultAllocator;
use stabby_abi::as_mut::{MutAs, RefAs};
use stabby_abi::option::Option as SOption;
use stabby_abi::result::{ErrGuard, OkGuard, Result as SResult};
use stabby_abi::slice::{Slice, SliceMut};
use stabby_abi::str::{Str, StrMut};
#[stabby::stabby]
pub trait Tr {
    extern "C" fn tr(&self) -> u32;
}
#[stabby::stabby]
pub struct X(u32);
impl Tr for X { extern "C" fn tr(&self) -> u32 { self.0 } }
#[stabby::stabby]
pub struct Of<'x>(&'x u8);
impl Tr for Of<'_> { extern "C" fn tr(&self) -> u32 { *self.0 as u32 } }
#[stabby::stabby]
#[repr(stabby)]
pub enum EnumOf<T> {
    A(T),
    B(u8),
}
type V = stabby::vtable!(Tr);
fn main() {}
pub fn p0<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: SVec<&'b u8>) -> SVec<&'a u8> { x } //	SVec<&'x u8>	own	shrink
pub fn p1<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: SVec<&'a u8>) -> SVec<&'b u8> { x } //	SVec<&'x u8>	own	grow
pub fn p2<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: SBox<&'b u8>) -> SBox<&'a u8> { x } //	SBox<&'x u8>	own	shrink
pub fn p3<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: SBox<&'a u8>) -> SBox<&'b u8> { x } //	SBox<&'x u8>	own	grow
pub fn p4<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: BoxedSlice<&'b u8>) -> BoxedSlice<&'a u8> { x } //	BoxedSlice<&'x u8>	own	shrink
pub fn p5<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: BoxedSlice<&'a u8>) -> BoxedSlice<&'b u8> { x } //	BoxedSlice<&'x u8>	own	grow
pub fn p6<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: SingleOrVec<&'b u8>) -> SingleOrVec<&'a u8> { x } //	SingleOrVec<&'x u8>	own	shrink
pub fn p7<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: SingleOrVec<&'a u8>) -> SingleOrVec<&'b u8> { x } //	SingleOrVec<&'x u8>	own	grow
pub fn p8<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: SOption<&'b u8>) -> SOption<&'a u8> { x } //	SOption<&'x u8>	own	shrink
pub fn p9<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: SOption<&'a u8>) -> SOption<&'b u8> { x } //	SOption<&'x u8>	own	grow
pub fn p10<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: SResult<&'b u8, u8>) -> SResult<&'a u8, u8> { x } //	SResult<&'x u8, u8>	own	shrink
pub fn p11<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: SResult<&'a u8, u8>) -> SResult<&'b u8, u8> { x } //	SResult<&'x u8, u8>	own	grow
pub fn p12<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: SResult<u8, &'b u8>) -> SResult<u8, &'a u8> { x } //	SResult<u8, &'x u8>	own	shrink
pub fn p13<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: SResult<u8, &'a u8>) -> SResult<u8, &'b u8> { x } //	SResult<u8, &'x u8>	own	grow
pub fn p14<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: IntoIter<&'b u8, DefaultAllocator>) -> IntoIter<&'a u8, DefaultAllocator> { x } //	IntoIter<&'x u8, DefaultAllocator>	own	shrink
pub fn p15<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: IntoIter<&'a u8, DefaultAllocator>) -> IntoIter<&'b u8, DefaultAllocator> { x } //	IntoIter<&'x u8, DefaultAllocator>	own	grow
pub fn p16<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: stabby_abi::Tuple<&'b u8, u8>) -> stabby_abi::Tuple<&'a u8, u8> { x } //	stabby_abi::Tuple<&'x u8, u8>	own	shrink
pub fn p17<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: stabby_abi::Tuple<&'a u8, u8>) -> stabby_abi::Tuple<&'b u8, u8> { x } //	stabby_abi::Tuple<&'x u8, u8>	own	grow
pub fn p18<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: SVec<SOption<&'b u8>>) -> SVec<SOption<&'a u8>> { x } //	SVec<SOption<&'x u8>>	own	shrink
pub fn p19<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: SVec<SOption<&'a u8>>) -> SVec<SOption<&'b u8>> { x } //	SVec<SOption<&'x u8>>	own	grow
pub fn p20<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: EnumOf<&'b u8>) -> EnumOf<&'a u8> { x } //	EnumOf<&'x u8>	own	shrink
pub fn p21<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: EnumOf<&'a u8>) -> EnumOf<&'b u8> { x } //	EnumOf<&'x u8>	own	grow
pub fn p22<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: stabby::Dyn<'b, SBox<()>, V>) -> stabby::Dyn<'a, SBox<()>, V> { x } //	stabby::Dyn<'x, SBox<()>, V>	own	shrink
pub fn p23<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: stabby::Dyn<'a, SBox<()>, V>) -> stabby::Dyn<'b, SBox<()>, V> { x } //	stabby::Dyn<'x, SBox<()>, V>	own	grow
pub fn p24<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: SVec<Str<'b>>) -> SVec<Str<'a>> { x } //	SVec<Str<'x>>	own	shrink
pub fn p25<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: SVec<Str<'a>>) -> SVec<Str<'b>> { x } //	SVec<Str<'x>>	own	grow
pub fn p26<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: SOption<Slice<'b, u8>>) -> SOption<Slice<'a, u8>> { x } //	SOption<Slice<'x, u8>>	own	shrink
pub fn p27<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: SOption<Slice<'a, u8>>) -> SOption<Slice<'b, u8>> { x } //	SOption<Slice<'x, u8>>	own	grow
pub fn p28<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: Arc<&'b u8>) -> Arc<&'a u8> { x } //	Arc<&'x u8>	shared	shrink
pub fn p29<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: Arc<&'a u8>) -> Arc<&'b u8> { x } //	Arc<&'x u8>	shared	grow
pub fn p30<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: Weak<&'b u8>) -> Weak<&'a u8> { x } //	Weak<&'x u8>	shared	shrink
pub fn p31<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: Weak<&'a u8>) -> Weak<&'b u8> { x } //	Weak<&'x u8>	shared	grow
pub fn p32<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: ArcSlice<&'b u8>) -> ArcSlice<&'a u8> { x } //	ArcSlice<&'x u8>	shared	shrink
pub fn p33<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: ArcSlice<&'a u8>) -> ArcSlice<&'b u8> { x } //	ArcSlice<&'x u8>	shared	grow
pub fn p34<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: WeakSlice<&'b u8>) -> WeakSlice<&'a u8> { x } //	WeakSlice<&'x u8>	shared	shrink
pub fn p35<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: WeakSlice<&'a u8>) -> WeakSlice<&'b u8> { x } //	WeakSlice<&'x u8>	shared	grow
pub fn p36<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: ArcBTreeSet<&'b u8>) -> ArcBTreeSet<&'a u8> { x } //	ArcBTreeSet<&'x u8>	shared	shrink
pub fn p37<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: ArcBTreeSet<&'a u8>) -> ArcBTreeSet<&'b u8> { x } //	ArcBTreeSet<&'x u8>	shared	grow
pub fn p38<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: ArcBTreeMap<&'b u8, u8>) -> ArcBTreeMap<&'a u8, u8> { x } //	ArcBTreeMap<&'x u8, u8>	shared	shrink
pub fn p39<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: ArcBTreeMap<&'a u8, u8>) -> ArcBTreeMap<&'b u8, u8> { x } //	ArcBTreeMap<&'x u8, u8>	shared	grow
pub fn p40<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: ArcBTreeMap<u8, &'b u8>) -> ArcBTreeMap<u8, &'a u8> { x } //	ArcBTreeMap<u8, &'x u8>	shared	shrink
pub fn p41<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: ArcBTreeMap<u8, &'a u8>) -> ArcBTreeMap<u8, &'b u8> { x } //	ArcBTreeMap<u8, &'x u8>	shared	grow
pub fn p42<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: stabby::Dyn<'b, Arc<()>, V>) -> stabby::Dyn<'a, Arc<()>, V> { x } //	stabby::Dyn<'x, Arc<()>, V>	shared	shrink
pub fn p43<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: stabby::Dyn<'a, Arc<()>, V>) -> stabby::Dyn<'b, Arc<()>, V> { x } //	stabby::Dyn<'x, Arc<()>, V>	shared	grow
pub fn p44<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: Slice<'v, &'b u8>) -> Slice<'v, &'a u8> { x } //	Slice<'v, &'x u8>	ref	shrink
pub fn p45<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: Slice<'v, &'a u8>) -> Slice<'v, &'b u8> { x } //	Slice<'v, &'x u8>	ref	grow
pub fn p46<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: Slice<'b, u8>) -> Slice<'a, u8> { x } //	Slice<'x, u8>	ref	shrink
pub fn p47<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: Slice<'a, u8>) -> Slice<'b, u8> { x } //	Slice<'x, u8>	ref	grow
pub fn p48<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: Str<'b>) -> Str<'a> { x } //	Str<'x>	ref	shrink
pub fn p49<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: Str<'a>) -> Str<'b> { x } //	Str<'x>	ref	grow
pub fn p50<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: SliceMut<'b, u8>) -> SliceMut<'a, u8> { x } //	SliceMut<'x, u8>	ref	shrink
pub fn p51<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: SliceMut<'a, u8>) -> SliceMut<'b, u8> { x } //	SliceMut<'x, u8>	ref	grow
pub fn p52<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: StrMut<'b>) -> StrMut<'a> { x } //	StrMut<'x>	ref	shrink
pub fn p53<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: StrMut<'a>) -> StrMut<'b> { x } //	StrMut<'x>	ref	grow
pub fn p54<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: stabby::DynRef<'b, V>) -> stabby::DynRef<'a, V> { x } //	stabby::DynRef<'x, V>	ref	shrink
pub fn p55<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: stabby::DynRef<'a, V>) -> stabby::DynRef<'b, V> { x } //	stabby::DynRef<'x, V>	ref	grow
pub fn p56<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: stabby::Dyn<'b, &'b mut (), V>) -> stabby::Dyn<'a, &'a mut (), V> { x } //	stabby::Dyn<'x, &'x mut (), V>	ref	shrink
pub fn p57<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: stabby::Dyn<'a, &'a mut (), V>) -> stabby::Dyn<'b, &'b mut (), V> { x } //	stabby::Dyn<'x, &'x mut (), V>	ref	grow
pub fn p58<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: RefAs<'b, u8, u8>) -> RefAs<'a, u8, u8> { x } //	RefAs<'x, u8, u8>	ref	shrink
pub fn p59<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: RefAs<'a, u8, u8>) -> RefAs<'b, u8, u8> { x } //	RefAs<'x, u8, u8>	ref	grow
pub fn p60<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: MutAs<'b, u8, u8>) -> MutAs<'a, u8, u8> { x } //	MutAs<'x, u8, u8>	ref	shrink
pub fn p61<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: MutAs<'a, u8, u8>) -> MutAs<'b, u8, u8> { x } //	MutAs<'x, u8, u8>	ref	grow
pub fn p62<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: SliceMut<'v, &'b u8>) -> SliceMut<'v, &'a u8> { x } //	SliceMut<'v, &'x u8>	mut	shrink
pub fn p63<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: SliceMut<'v, &'a u8>) -> SliceMut<'v, &'b u8> { x } //	SliceMut<'v, &'x u8>	mut	grow
pub fn p64<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: Drain<'v, &'b u8, DefaultAllocator>) -> Drain<'v, &'a u8, DefaultAllocator> { x } //	Drain<'v, &'x u8, DefaultAllocator>	mut	shrink
pub fn p65<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: Drain<'v, &'a u8, DefaultAllocator>) -> Drain<'v, &'b u8, DefaultAllocator> { x } //	Drain<'v, &'x u8, DefaultAllocator>	mut	grow
pub fn p66<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: stabby_abi::alloc::vec::DoubleEndedDrain<'v, &'b u8, DefaultAllocator>) -> stabby_abi::alloc::vec::DoubleEndedDrain<'v, &'a u8, DefaultAllocator> { x } //	stabby_abi::alloc::vec::DoubleEndedDrain<'v, &'x u8, DefaultAllocator>	mut	shrink
pub fn p67<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: stabby_abi::alloc::vec::DoubleEndedDrain<'v, &'a u8, DefaultAllocator>) -> stabby_abi::alloc::vec::DoubleEndedDrain<'v, &'b u8, DefaultAllocator> { x } //	stabby_abi::alloc::vec::DoubleEndedDrain<'v, &'x u8, DefaultAllocator>	mut	grow
pub fn p68<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: stabby_abi::alloc::single_or_vec::IterMut<'v, &'b u8, DefaultAllocator>) -> stabby_abi::alloc::single_or_vec::IterMut<'v, &'a u8, DefaultAllocator> { x } //	stabby_abi::alloc::single_or_vec::IterMut<'v, &'x u8, DefaultAllocator>	mut	shrink
pub fn p69<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: stabby_abi::alloc::single_or_vec::IterMut<'v, &'a u8, DefaultAllocator>) -> stabby_abi::alloc::single_or_vec::IterMut<'v, &'b u8, DefaultAllocator> { x } //	stabby_abi::alloc::single_or_vec::IterMut<'v, &'x u8, DefaultAllocator>	mut	grow
pub fn p70<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: stabby_abi::alloc::single_or_vec::SliceGuardMut<'v, &'b u8, DefaultAllocator>) -> stabby_abi::alloc::single_or_vec::SliceGuardMut<'v, &'a u8, DefaultAllocator> { x } //	stabby_abi::alloc::single_or_vec::SliceGuardMut<'v, &'x u8, DefaultAllocator>	mut	shrink
pub fn p71<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: stabby_abi::alloc::single_or_vec::SliceGuardMut<'v, &'a u8, DefaultAllocator>) -> stabby_abi::alloc::single_or_vec::SliceGuardMut<'v, &'b u8, DefaultAllocator> { x } //	stabby_abi::alloc::single_or_vec::SliceGuardMut<'v, &'x u8, DefaultAllocator>	mut	grow
pub fn p72<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: OkGuard<'v, &'b u8, u8>) -> OkGuard<'v, &'a u8, u8> { x } //	OkGuard<'v, &'x u8, u8>	mut	shrink
pub fn p73<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: OkGuard<'v, &'a u8, u8>) -> OkGuard<'v, &'b u8, u8> { x } //	OkGuard<'v, &'x u8, u8>	mut	grow
pub fn p74<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: ErrGuard<'v, u8, &'b u8>) -> ErrGuard<'v, u8, &'a u8> { x } //	ErrGuard<'v, u8, &'x u8>	mut	shrink
pub fn p75<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: ErrGuard<'v, u8, &'a u8>) -> ErrGuard<'v, u8, &'b u8> { x } //	ErrGuard<'v, u8, &'x u8>	mut	grow
pub fn p76<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: &'v mut SVec<&'b u8>) -> &'v mut SVec<&'a u8> { x } //	&'v mut SVec<&'x u8>	mut	shrink
pub fn p77<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: &'v mut SVec<&'a u8>) -> &'v mut SVec<&'b u8> { x } //	&'v mut SVec<&'x u8>	mut	grow
pub fn p78<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: &'v mut SOption<&'b u8>) -> &'v mut SOption<&'a u8> { x } //	&'v mut SOption<&'x u8>	mut	shrink
pub fn p79<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: &'v mut SOption<&'a u8>) -> &'v mut SOption<&'b u8> { x } //	&'v mut SOption<&'x u8>	mut	grow
pub fn p80<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: MutAs<'v, &'b u8, &'b u8>) -> MutAs<'v, &'a u8, &'a u8> { x } //	MutAs<'v, &'x u8, &'x u8>	mut	shrink
pub fn p81<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: MutAs<'v, &'a u8, &'a u8>) -> MutAs<'v, &'b u8, &'b u8> { x } //	MutAs<'v, &'x u8, &'x u8>	mut	grow
pub fn p82<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: AtomicArc<&'b u8, DefaultAllocator>) -> AtomicArc<&'a u8, DefaultAllocator> { x } //	AtomicArc<&'x u8, DefaultAllocator>	cell	shrink
pub fn p83<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: AtomicArc<&'a u8, DefaultAllocator>) -> AtomicArc<&'b u8, DefaultAllocator> { x } //	AtomicArc<&'x u8, DefaultAllocator>	cell	grow
pub fn p84<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: &'v AtomicArc<&'b u8, DefaultAllocator>) -> &'v AtomicArc<&'a u8, DefaultAllocator> { x } //	&'v AtomicArc<&'x u8, DefaultAllocator>	cell	shrink
pub fn p85<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: &'v AtomicArc<&'a u8, DefaultAllocator>) -> &'v AtomicArc<&'b u8, DefaultAllocator> { x } //	&'v AtomicArc<&'x u8, DefaultAllocator>	cell	grow
pub fn p86<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: AtomicArcBTreeSet<&'b u8, false, 5>) -> AtomicArcBTreeSet<&'a u8, false, 5> { x } //	AtomicArcBTreeSet<&'x u8, false, 5>	cell	shrink
pub fn p87<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: AtomicArcBTreeSet<&'a u8, false, 5>) -> AtomicArcBTreeSet<&'b u8, false, 5> { x } //	AtomicArcBTreeSet<&'x u8, false, 5>	cell	grow
pub fn p88<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: &'v AtomicArcBTreeSet<&'b u8, false, 5>) -> &'v AtomicArcBTreeSet<&'a u8, false, 5> { x } //	&'v AtomicArcBTreeSet<&'x u8, false, 5>	cell	shrink
pub fn p89<'v, 'a: 'v, 'b: 'a>(_: &'v (), x: &'v AtomicArcBTreeSet<&'a u8, false, 5>) -> &'v AtomicArcBTreeSet<&'b u8, false, 5> { x } //	&'v AtomicArcBTreeSet<&'x u8, false, 5>	cell	grow
pub fn p90<'a, 'b: 'a>(x: &'a SVec<u8>) -> &'b [u8] { &x[..] } //	SVec<u8>	ref	grow
pub fn p91<'a, 'b: 'a>(x: &'a mut SVec<u8>) -> &'b mut [u8] { &mut x[..] } //	SVec<u8>	ref	grow
pub fn p92<'a, 'b: 'a>(x: &'a mut SVec<u8>) -> Drain<'b, u8, DefaultAllocator> { x.drain(..) } //	SVec<u8>	ref	grow
pub fn p93<'a, 'b: 'a>(x: &'a SBox<u8>) -> &'b u8 { &**x } //	SBox<u8>	ref	grow
pub fn p94<'a, 'b: 'a>(x: &'a mut SBox<u8>) -> &'b mut u8 { &mut **x } //	SBox<u8>	ref	grow
pub fn p95<'a, 'b: 'a>(x: &'a BoxedSlice<u8>) -> &'b [u8] { &x[..] } //	BoxedSlice<u8>	ref	grow
pub fn p96<'a, 'b: 'a>(x: &'a SString) -> &'b str { &x[..] } //	SString	ref	grow
pub fn p97<'a, 'b: 'a>(x: &'a SString) -> &'b str { x.as_str() } //	SString	ref	grow
pub fn p98<'a, 'b: 'a>(x: &'a ArcStr) -> &'b str { &x[..] } //	ArcStr	ref	grow
pub fn p99<'a, 'b: 'a>(x: &'a BoxedStr) -> &'b str { &x[..] } //	BoxedStr	ref	grow
pub fn p100<'a, 'b: 'a>(x: &'a SingleOrVec<u8>) -> &'b [u8] { &x[..] } //	SingleOrVec<u8>	ref	grow
pub fn p101<'a, 'b: 'a>(x: &'a Arc<u8>) -> &'b u8 { &**x } //	Arc<u8>	ref	grow
pub fn p102<'a, 'b: 'a>(x: &'a mut Arc<u8>) -> core::option::Option<&'b mut u8> { Arc::get_mut(x) } //	Arc<u8>	ref	grow
pub fn p103<'a, 'b: 'a>(x: &'a mut Arc<u8>) -> &'b mut u8 { Arc::make_mut(x) } //	Arc<u8>	ref	grow
pub fn p104<'a, 'b: 'a>(x: &'a ArcSlice<u8>) -> &'b [u8] { &x[..] } //	ArcSlice<u8>	ref	grow
pub fn p105<'a, 'b: 'a>(x: &'a mut ArcSlice<u8>) -> &'b [u8] { x.as_slice() } //	ArcSlice<u8>	ref	grow
pub fn p106<'a, 'b: 'a>(x: &'a ArcBTreeSet<u8>) -> core::option::Option<&'b u8> { x.get(&1) } //	ArcBTreeSet<u8>	ref	grow
pub fn p107<'a, 'b: 'a>(x: &'a ArcBTreeMap<u8, u8>) -> core::option::Option<&'b u8> { x.get(&1) } //	ArcBTreeMap<u8, u8>	ref	grow
pub fn p108<'a, 'b: 'a>(x: &'a SOption<u8>) -> core::option::Option<&'b u8> { x.as_ref() } //	SOption<u8>	ref	grow
pub fn p109<'a, 'b: 'a>(x: &'a SResult<u8, u8>) -> core::result::Result<&'b u8, &'b u8> { x.as_ref() } //	SResult<u8, u8>	ref	grow
pub fn p110<'a, 'b: 'a>(x: &'a SResult<u8, u8>) -> core::option::Option<&'b u8> { x.ok_ref() } //	SResult<u8, u8>	ref	grow
pub fn p111<'a, 'b: 'a>(x: &'a SResult<u8, u8>) -> core::option::Option<&'b u8> { x.err_ref() } //	SResult<u8, u8>	ref	grow
pub fn p112<'a, 'b: 'a>(x: &'a SliceMut<'b, u8>) -> &'b [u8] { &x[..] } //	SliceMut<'b, u8>	ref	grow
pub fn p113<'a, 'b: 'a>(x: &'a mut SliceMut<'b, u8>) -> &'b mut [u8] { &mut x[..] } //	SliceMut<'b, u8>	ref	grow
pub fn p114<'a, 'b: 'a>(x: &'a mut StrMut<'b>) -> &'b mut str { &mut x[..] } //	StrMut<'b>	ref	grow
pub fn p115<'a, 'b: 'a>(x: Slice<'a, u8>) -> &'b [u8] { x.as_slice() } //	Slice<'a, u8>	ref	grow
pub fn p116<'a, 'b: 'a>(x: Slice<'a, u8>) -> &'b [u8] { x.into() } //	Slice<'a, u8>	ref	grow
pub fn p117<'a, 'b: 'a>(x: &'a [u8]) -> Slice<'b, u8> { x.into() } //	Slice<'a, u8>	ref	grow
pub fn p118<'a, 'b: 'a>(x: &'a mut [u8]) -> SliceMut<'b, u8> { x.into() } //	SliceMut<'a, u8>	ref	grow
pub fn p119<'a, 'b: 'a>(x: SliceMut<'a, u8>) -> Slice<'b, u8> { x.into() } //	SliceMut<'a, u8>	ref	grow
pub fn p120<'a, 'b: 'a>(x: SliceMut<'a, u8>) -> &'b mut [u8] { x.into() } //	SliceMut<'a, u8>	ref	grow
pub fn p121<'a, 'b: 'a>(x: Str<'a>) -> &'b str { x.as_str() } //	Str<'a>	ref	grow
pub fn p122<'a, 'b: 'a>(x: &'a str) -> Str<'b> { x.into() } //	Str<'a>	ref	grow
pub fn p123<'a, 'b: 'a>(x: &'a mut str) -> StrMut<'b> { x.into() } //	StrMut<'a>	ref	grow
pub fn p124<'a, 'b: 'a>(x: StrMut<'a>) -> Str<'b> { x.into() } //	StrMut<'a>	ref	grow
pub fn p125<'a, 'b: 'a>(x: &'a X) -> stabby::DynRef<'b, V> { x.into() } //	Dyn	ref	grow
pub fn p126<'a, 'b: 'a>(x: &'a mut X) -> stabby::Dyn<'b, &'b mut (), V> { x.into() } //	Dyn	ref	grow
pub fn p127<'a, 'b: 'a>(x: SBox<Of<'a>>) -> stabby::Dyn<'b, SBox<()>, V> { x.into() } //	Dyn	ref	grow
pub fn p128<'a, 'b: 'a>(x: Arc<Of<'a>>) -> stabby::Dyn<'b, Arc<()>, V> { x.into() } //	Dyn	ref	grow
pub fn p129<'a, 'b: 'a>(x: &'a stabby::Dyn<'b, SBox<()>, V>) -> stabby::DynRef<'b, V> { x.as_ref() } //	Dyn	ref	grow
pub fn p130<'a, 'b: 'a>(x: &'a mut stabby::Dyn<'b, SBox<()>, V>) -> stabby::Dyn<'b, &'b mut (), V> { x.as_mut() } //	Dyn	ref	grow
pub fn p131<'a, 'b: 'a>(x: &'a stabby::Dyn<'b, SBox<()>, V>) -> core::option::Option<&'b X> { unsafe { x.downcast_ref::<X>() } } //	Dyn	ref	grow
pub fn p132<'a, 'b: 'a>(x: stabby::Dyn<'a, Arc<()>, V>) -> stabby::Dyn<'b, Weak<()>, V> { (&x).into() } //	Dyn	ref	grow
pub fn p133<'a, 'b: 'a>(x: SBox<Of<'a>>) -> Of<'b> { SBox::into_inner(x) } //	closures	ref	grow
pub fn p134<'a, 'b: 'a>(x: SVec<Of<'a>>) -> core::option::Option<Of<'b>> { { let mut x = x; x.pop() } } //	SVec<Of>	ref	grow
