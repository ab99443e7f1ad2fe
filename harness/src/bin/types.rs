//! Numbers, truth values and paddings of the type level: everything they compute.
#![allow(clippy::all)]
use stabby_abi::istable::{ForbiddenRange, IBitMask, IForbiddenValues, ISingleForbiddenValue, Or};
use stabby_abi::typenum2::unsigned::{Alignment, Bool, Equal, Greater, IBit, IPowerOf2, IUnsigned, IUnsignedBase, Lesser, NonZero};
use stabby_abi::typenum2::*;
use stabby_abi::{Array, End, IStable, B0, B1};
use std::any::{type_name, TypeId};
use vharness::{args, obj, quiet_panics, Out, Rng, J};
/// The digits of a number, as its type lists them.
fn digits<T: IUnsigned>() -> Vec<i64> {
    let mut d = vec![];
    put::<T>(&mut d, 200);
    d
}
fn put<T: IUnsigned>(d: &mut Vec<i64>, left: usize) {
    // the end is the number that has itself before its last digit
    if type_name::<T>() == type_name::<T::Msb>() || left == 0 {
        return;
    }
    put::<T::Msb>(d, left - 1);
    d.push(<T::Bit as IBit>::BOOL as i64);
}
fn yes<T: IBit>() -> i64 {
    T::BOOL as i64
}
struct Log(Vec<J>);
impl Log {
    fn num<R: IUnsigned>(&mut self, k: &str, a: &[i64], b: &[i64]) {
        self.0.push(obj! {t: "num", k: k, a: a.to_vec(), b: b.to_vec(), r: digits::<R>()});
    }
    fn truth<R: IBit>(&mut self, k: &str, a: &[i64], b: &[i64]) {
        self.0.push(obj! {t: "truth", k: k, a: a.to_vec(), b: b.to_vec(), r: yes::<R>()});
    }
}
fn one<A: IUnsigned>(out: &mut Out, n: i64) where A::Padding: Copy {
    out.begin(&format!("U{n}"));
    let a = digits::<A>();
    let mut l = Log(vec![]);
    l.0.push(obj! {t: "num", k: "self", a: a.clone(), b: Vec::<i64>::new(), r: digits::<A>(), n: n});
    l.num::<A::Increment>("inc", &a, &[]);
    l.num::<A::NextPow2>("bits", &a, &[]);
    l.0.push(obj! {t: "consts", a: a.clone(), r: vec![A::U128 as i64, A::U64 as i64, A::U32 as i64, A::USIZE as i64, A::U16 as i64, A::U8 as i64]});
    out.trace_meta(J::L(vec![]), l.0, J::from(format!("U{n}")));
}
fn nonzero<A: NonZero>(out: &mut Out) {
    let a = digits::<A>();
    out.begin("nonzero");
    let mut l = Log(vec![]);
    l.num::<A::Decrement>("dec", &a, &[]);
    l.num::<<A as NonZero>::TruncateAtRightmostOne>("lowest", &a, &[]);
    l.num::<<A as IUnsigned>::NonZero>("simple", &a, &[]);
    out.trace_meta(J::L(vec![]), l.0, J::from("nonzero"));
}
fn padding<A: IUnsigned>(out: &mut Out) {
    let a = digits::<A>();
    out.begin("padding");
    type P<A> = <A as IUnsigned>::Padding;
    let size = core::mem::size_of::<P<A>>();
    fn mask<M: IBitMask>(size: usize) -> Vec<i64> {
        let all = vec![digits_val::<M::ByteAt<U0>>(), digits_val::<M::ByteAt<U1>>(), digits_val::<M::ByteAt<U2>>(), digits_val::<M::ByteAt<U3>>(), digits_val::<M::ByteAt<U4>>(), digits_val::<M::ByteAt<U5>>(), digits_val::<M::ByteAt<U6>>(), digits_val::<M::ByteAt<U7>>(), digits_val::<M::ByteAt<U8>>(), digits_val::<M::ByteAt<U9>>(), digits_val::<M::ByteAt<U10>>(), digits_val::<M::ByteAt<U11>>(), digits_val::<M::ByteAt<U12>>(), digits_val::<M::ByteAt<U13>>(), digits_val::<M::ByteAt<U14>>(), digits_val::<M::ByteAt<U15>>(), digits_val::<M::ByteAt<U16>>(), digits_val::<M::ByteAt<U17>>(), digits_val::<M::ByteAt<U18>>(), digits_val::<M::ByteAt<U19>>(), digits_val::<M::ByteAt<U20>>(), digits_val::<M::ByteAt<U21>>(), digits_val::<M::ByteAt<U22>>(), digits_val::<M::ByteAt<U23>>(), digits_val::<M::ByteAt<U24>>(), digits_val::<M::ByteAt<U25>>(), digits_val::<M::ByteAt<U26>>(), digits_val::<M::ByteAt<U27>>(), digits_val::<M::ByteAt<U28>>(), digits_val::<M::ByteAt<U29>>(), digits_val::<M::ByteAt<U30>>(), digits_val::<M::ByteAt<U31>>(), digits_val::<M::ByteAt<U32>>(), digits_val::<M::ByteAt<U33>>(), digits_val::<M::ByteAt<U34>>()];
        all[..size.min(all.len())].to_vec()
    }
    let (u, m) = (mask::<<P<A> as IStable>::UnusedBits>(size), mask::<A::PaddingBitMask>(size));
    let d = vec![digits_val::<<P<A> as IStable>::Size>(), digits_val::<<P<A> as IStable>::Align>()];
    let r = vec![size as i64, core::mem::align_of::<P<A>>() as i64];
    out.trace_meta(J::L(vec![]), vec![obj! {t: "padding", a: a, r: r, d: d, u: u, m: m}], J::from("padding"));
}
fn digits_val<T: IUnsigned>() -> i64 {
    digits::<T>().into_iter().fold(0, |n, d| n * 2 + d)
}
fn array<A: IUnsigned, T: IStable>(out: &mut Out) {
    let a = digits::<A>();
    out.begin("array");
    type Of<A, T> = <A as IUnsignedBase>::Array<T>;
    let r = vec![core::mem::size_of::<Of<A, T>>() as i64, core::mem::align_of::<Of<A, T>>() as i64];
    let d = vec![digits_val::<<Of<A, T> as IStable>::Size>(), digits_val::<<Of<A, T> as IStable>::Align>()];
    out.trace_meta(J::L(vec![]), vec![obj! {t: "array", a: a, s: core::mem::size_of::<T>(), al: core::mem::align_of::<T>(), r: r, d: d}], J::from(format!("array of {}", type_name::<T>())));
}
fn two<A: IUnsigned, B: IUnsigned, const MUL: bool>(out: &mut Out) {
    let (a, b) = (digits::<A>(), digits::<B>());
    let label = format!("{a:?} {b:?}");
    out.begin(&label);
    let mut l = Log(vec![]);
    l.num::<A::BitAnd<B>>("and", &a, &b);
    l.num::<A::BitOr<B>>("or", &a, &b);
    l.num::<A::Add<B>>("add", &a, &b);
    l.num::<A::AbsSub<B>>("sub", &a, &b);
    l.num::<<A as IUnsigned>::Min<B>>("min", &a, &b);
    l.num::<<A as IUnsigned>::Max<B>>("max", &a, &b);
    l.truth::<A::Equal<B>>("eq", &a, &b);
    l.truth::<A::NotEqual<B>>("ne", &a, &b);
    l.truth::<A::Greater<B>>("gt", &a, &b);
    l.truth::<A::GreaterOrEq<B>>("ge", &a, &b);
    l.truth::<A::Smaller<B>>("lt", &a, &b);
    l.truth::<A::SmallerOrEq<B>>("le", &a, &b);
    out.trace_meta(J::L(vec![]), l.0, J::from(label));
}
fn cmp<A: IUnsigned, B: IUnsigned>(out: &mut Out) where A::Cmp<B>: 'static {
    let (a, b) = (digits::<A>(), digits::<B>());
    let label = format!("{a:?} against {b:?}");
    out.begin(&label);
    let mut l = Log(vec![]);
    l.num::<A::Truncate<B>>("trunc", &a, &b);
    l.num::<A::Mul<B>>("mul", &a, &b);
    let c = TypeId::of::<A::Cmp<B>>();
    let r = if c == TypeId::of::<Equal>() { "equal" } else if c == TypeId::of::<Greater>() { "greater" } else if c == TypeId::of::<Lesser>() { "lesser" } else { "none" };
    l.0.push(obj! {t: "cmp", k: "cmp", a: a.clone(), b: b.clone(), r: r});
    out.trace_meta(J::L(vec![]), l.0, J::from(label));
}
fn pow<A: IUnsigned, P: IPowerOf2>(out: &mut Out) {
    let (a, b) = (digits::<A>(), digits::<P>());
    let label = format!("{a:?} by {b:?}");
    out.begin(&label);
    let mut l = Log(vec![]);
    l.num::<A::Mod<P>>("mod", &a, &b);
    l.num::<P::Modulate<A>>("mod", &a, &b);
    l.num::<P::Divide<A>>("divide", &a, &b);
    l.num::<A::NextMultipleOf<P>>("up", &a, &b);
    out.trace_meta(J::L(vec![]), l.0, J::from(label));
}
fn pows<P: IPowerOf2, Q: IPowerOf2>(out: &mut Out) {
    let (a, b) = (digits::<P>(), digits::<Q>());
    out.begin("powers");
    let mut l = Log(vec![]);
    l.num::<P::Log2>("log2", &a, &[]);
    l.num::<<P as IPowerOf2>::Min<Q>>("pmin", &a, &b);
    l.num::<<P as IPowerOf2>::Max<Q>>("pmax", &a, &b);
    out.trace_meta(J::L(vec![]), l.0, J::from("powers"));
}
fn alignments<P: Alignment, Q: Alignment>(out: &mut Out) {
    let (a, b) = (digits::<P>(), digits::<Q>());
    out.begin("alignments");
    let mut l = Log(vec![]);
    l.num::<<P as Alignment>::Max<Q>>("pmax", &a, &b);
    // a type of that size and alignment
    let r = vec![core::mem::size_of::<P::AsUint>() as i64, core::mem::align_of::<P::AsUint>() as i64];
    let d = vec![digits_val::<<P::AsUint as IStable>::Size>(), digits_val::<<P::AsUint as IStable>::Align>()];
    let n = digits_val::<P>();
    l.0.push(obj! {t: "array", a: vec![1i64], s: n, al: n, r: r, d: d});
    out.trace_meta(J::L(vec![]), l.0, J::from("alignments"));
}

fn list(l: &[Vec<i64>]) -> J {
    J::L(l.iter().map(|x| J::from(x.clone())).collect())
}
fn seen<M: IBitMask>() -> Vec<i64> {
    vec![digits_val::<M::ByteAt<U0>>(), digits_val::<M::ByteAt<U1>>(), digits_val::<M::ByteAt<U2>>(), digits_val::<M::ByteAt<U3>>(), digits_val::<M::ByteAt<U4>>(), digits_val::<M::ByteAt<U5>>(), digits_val::<M::ByteAt<U6>>(), digits_val::<M::ByteAt<U7>>(), digits_val::<M::ByteAt<U8>>()]
}
fn masks<M: IBitMask, N: IBitMask>(out: &mut Out, m: Vec<Vec<i64>>, n: Vec<Vec<i64>>, disjoint: bool) where M::ExtractedBitMask: 'static {
    let label = format!("masks {m:?} {n:?}");
    out.begin(&label);
    let mut l = vec![];
    l.push(obj! {t: "mask", k: "self", m: list(&m), n: list(&n), r: seen::<M>()});
    l.push(obj! {t: "mask", k: "and", m: list(&m), n: list(&n), r: seen::<M::BitAnd<N>>()});
    if disjoint {
        l.push(obj! {t: "mask", k: "or", m: list(&m), n: list(&n), r: seen::<M::BitOr<N>>()});
    }
    l.push(obj! {t: "mask", k: "shift", m: list(&m), n: list(&[vec![2, 0]]), r: seen::<M::Shift<U2>>()});
    l.push(obj! {t: "mask", k: "free", m: list(&m), n: list(&n), r: vec![yes::<M::HasFreeByteAt<U0>>(), yes::<M::HasFreeByteAt<U1>>(), yes::<M::HasFreeByteAt<U2>>(), yes::<M::HasFreeByteAt<U3>>(), yes::<M::HasFreeByteAt<U4>>(), yes::<M::HasFreeByteAt<U5>>(), yes::<M::HasFreeByteAt<U6>>(), yes::<M::HasFreeByteAt<U7>>(), yes::<M::HasFreeByteAt<U8>>()]});
    if !m.is_empty() {
        l.push(obj! {t: "extract", m: list(&m), o: digits_val::<M::ExtractedBitByteOffset>(), b: digits_val::<M::ExtractedBitMask>(), r: seen::<M::ExtractBit>()});
    }
    out.trace_meta(J::L(vec![]), l, J::from(label));
}
/// What a single forbidden value is, from the name of its type: `Array<offset, value, rest>`.
fn single(name: &str) -> Vec<Vec<i64>> {
    fn args(s: &str) -> Vec<&str> {
        let (mut depth, mut from, mut l) = (0, 0, vec![]);
        for (i, c) in s.char_indices() {
            match c {
                '<' => depth += 1,
                '>' => depth -= 1,
                ',' if depth == 0 => {
                    l.push(s[from..i].trim());
                    from = i + 1;
                }
                _ => {}
            }
        }
        l.push(s[from..].trim());
        l
    }
    fn number(s: &str) -> i64 {
        match s.split_once('<') {
            None => 0,
            Some((_, rest)) => {
                let a = args(&rest[..rest.len() - 1]);
                let bit = a[1].ends_with("B1") || a[1].ends_with("Bool<true>");
                2 * number(a[0]) + bit as i64
            }
        }
    }
    match name.split_once('<') {
        None => vec![],
        Some((_, rest)) => {
            let a = args(&rest[..rest.len() - 1]);
            let mut l = vec![vec![number(a[0]), number(a[1])]];
            l.extend(single(a[2]));
            l
        }
    }
}
type Set = Vec<(&'static str, Vec<Vec<i64>>)>;
fn sets(s: &Set) -> J {
    J::L(s.iter().map(|(k, l)| obj! {k: *k, l: list(l)}).collect())
}
fn fv<F: IForbiddenValues, G: IForbiddenValues, M: IBitMask>(out: &mut Out, rng: &mut Rng, f: Set, g: Set, m: Vec<Vec<i64>>) {
    let label = format!("forbidden {f:?} {g:?} {m:?}");
    out.begin(&label);
    let mut l = vec![];
    l.push(obj! {t: "select", f: sets(&f), m: list(&m), r: list(&single(type_name::<<F::SelectFrom<M> as ISingleForbiddenValue>::Resolve>()))});
    l.push(obj! {t: "selectone", f: sets(&f), r: list(&single(type_name::<<F::SelectOne as ISingleForbiddenValue>::Resolve>()))});
    for _ in 0..12 {
        // bytes that may well be forbidden
        let mut b = [0u8; 16];
        b.iter_mut().for_each(|b| *b = *rng.pick(&[0, 1, 2, 255, 170, 100, 253, 254, 99]));
        let (s, by) = if rng.chance(1, 2) { (&f, 0) } else { (&g, 0) };
        if !s.is_empty() {
            let (k, x) = rng.pick(&s[..]);
            let shift = by + 2 * rng.below(2);
            for (i, p) in x.iter().enumerate() {
                if *k == "all" || i == 0 || rng.chance(1, 2) {
                    b[p[0] as usize + shift] = (p[1] + rng.below(3) as i64 * rng.below(2) as i64) as u8;
                }
            }
        }
        let bj: Vec<i64> = b.iter().map(|b| *b as i64).collect();
        // SAFETY: all bytes are initialised, and the sets look at the first 8.
        unsafe {
            let p = b.as_ptr();
            l.push(obj! {t: "invalid", f: sets(&f), by: 0, b: bj.clone(), r: F::is_invalid(p) as i64});
            l.push(obj! {t: "invalid", f: sets(&f), by: 2, b: bj.clone(), r: <F::Shift<U2> as IForbiddenValues>::is_invalid(p) as i64});
            let mut both = f.clone();
            both.extend(g.clone());
            l.push(obj! {t: "invalid", f: sets(&both), by: 0, b: bj.clone(), r: <F::Or<G> as IForbiddenValues>::is_invalid(p) as i64});
        }
    }
    out.trace_meta(J::L(vec![]), l, J::from(label));
}
fn logic<A: IBit, B: IBit, C: IBit>(out: &mut Out) {
    let (a, b, c) = (yes::<A>(), yes::<B>(), yes::<C>());
    out.begin("logic");
    let mut l = vec![];
    let mut p = |k: &str, r: i64| l.push(obj! {t: "logic", k: k, a: a, b: b, c: c, r: r});
    p("and", yes::<A::And<B>>());
    p("or", yes::<A::Or<B>>());
    p("not", yes::<A::Not>());
    p("nand", yes::<A::Nand<B>>());
    p("xor", yes::<A::Xor<B>>());
    p("equals", yes::<A::Equals<B>>());
    p("sum", yes::<A::AdderSum<B, C>>());
    p("carry", yes::<A::AdderCarry<B, C>>());
    p("diff", yes::<A::SuberSum<B, C>>());
    p("borrow", yes::<A::SuberCarry<B, C>>());
    p("ternary", yes::<A::BTernary<B, C>>());
    let num = |d: Vec<i64>| (d == [1]) as i64;
    p("ternary", num(digits::<A::UTernary<B::UTernary<U1, U0>, C::UTernary<U1, U0>>>()));
    p("ternary", num(digits::<A::NzTernary<B::NzTernary<U1, U3>, C::NzTernary<U1, U3>>>()));
    p("ternary", num(digits::<A::PTernary<B::PTernary<U1, U4>, C::PTernary<U1, U4>>>()));
    p("ternary", (core::mem::size_of::<A::StabTernary<B::StabTernary<u8, u16>, C::StabTernary<u8, u16>>>() == 1) as i64);
    out.trace_meta(J::L(vec![]), l, J::from("logic"));
}
fn ones_0(o: &mut Out) {
    one::<U0>(o, 0);
    one::<U1>(o, 1);
    one::<U2>(o, 2);
    one::<U3>(o, 3);
    one::<U4>(o, 4);
    one::<U5>(o, 5);
    one::<U6>(o, 6);
    one::<U7>(o, 7);
    one::<U8>(o, 8);
    one::<U9>(o, 9);
    one::<U10>(o, 10);
    one::<U11>(o, 11);
    one::<U12>(o, 12);
    one::<U13>(o, 13);
    one::<U14>(o, 14);
    one::<U15>(o, 15);
    one::<U16>(o, 16);
    one::<U17>(o, 17);
    one::<U23>(o, 23);
    one::<U31>(o, 31);
    one::<U32>(o, 32);
    one::<U33>(o, 33);
    one::<U63>(o, 63);
    one::<U64>(o, 64);
    one::<U100>(o, 100);
    one::<U127>(o, 127);
    one::<U128>(o, 128);
    one::<U170>(o, 170);
    one::<U255>(o, 255);
    one::<U256>(o, 256);
    one::<U257>(o, 257);
    one::<U511>(o, 511);
    one::<U512>(o, 512);
    one::<U513>(o, 513);
    one::<U1000>(o, 1000);
    one::<U2pow10>(o, 1024);
    one::<U2pow16>(o, 65536);
    one::<U2pow20>(o, 1048576);
    one::<Ux2A>(o, 42);
    one::<Ub101010>(o, 42);
    one::<U10pow3>(o, 1000);
    one::<Ux3E8>(o, 1000);
}
fn nonzeros_0(o: &mut Out) {
    nonzero::<U1>(o);
    nonzero::<U2>(o);
    nonzero::<U3>(o);
    nonzero::<U4>(o);
    nonzero::<U5>(o);
    nonzero::<U6>(o);
    nonzero::<U7>(o);
    nonzero::<U8>(o);
    nonzero::<U9>(o);
    nonzero::<U10>(o);
    nonzero::<U11>(o);
    nonzero::<U12>(o);
    nonzero::<U13>(o);
    nonzero::<U14>(o);
    nonzero::<U15>(o);
    nonzero::<U16>(o);
    nonzero::<U17>(o);
    nonzero::<U23>(o);
    nonzero::<U31>(o);
    nonzero::<U32>(o);
    nonzero::<U33>(o);
    nonzero::<U63>(o);
    nonzero::<U64>(o);
    nonzero::<U100>(o);
    nonzero::<U127>(o);
    nonzero::<U128>(o);
    nonzero::<U170>(o);
    nonzero::<U255>(o);
    nonzero::<U256>(o);
    nonzero::<U257>(o);
    nonzero::<U511>(o);
    nonzero::<U512>(o);
    nonzero::<U513>(o);
    nonzero::<U1000>(o);
}
fn paddings_0(o: &mut Out) {
    padding::<U0>(o);
    padding::<U1>(o);
    padding::<U2>(o);
    padding::<U3>(o);
    padding::<U4>(o);
    padding::<U5>(o);
    padding::<U6>(o);
    padding::<U7>(o);
    padding::<U8>(o);
    padding::<U9>(o);
    padding::<U10>(o);
    padding::<U11>(o);
    padding::<U12>(o);
    padding::<U13>(o);
    padding::<U14>(o);
    padding::<U15>(o);
    padding::<U16>(o);
    padding::<U17>(o);
    padding::<U31>(o);
    padding::<U32>(o);
    padding::<U33>(o);
}
fn arrays_0(o: &mut Out) {
    array::<U0, u8>(o);
    array::<U0, u16>(o);
    array::<U0, u64>(o);
    array::<U0, stabby_abi::Tuple<u16, u8>>(o);
    array::<U0, core::num::NonZeroU32>(o);
    array::<U1, u8>(o);
    array::<U1, u16>(o);
    array::<U1, u64>(o);
    array::<U1, stabby_abi::Tuple<u16, u8>>(o);
    array::<U1, core::num::NonZeroU32>(o);
    array::<U2, u8>(o);
    array::<U2, u16>(o);
    array::<U2, u64>(o);
    array::<U2, stabby_abi::Tuple<u16, u8>>(o);
    array::<U2, core::num::NonZeroU32>(o);
    array::<U3, u8>(o);
    array::<U3, u16>(o);
    array::<U3, u64>(o);
    array::<U3, stabby_abi::Tuple<u16, u8>>(o);
    array::<U3, core::num::NonZeroU32>(o);
    array::<U4, u8>(o);
    array::<U4, u16>(o);
    array::<U4, u64>(o);
    array::<U4, stabby_abi::Tuple<u16, u8>>(o);
    array::<U4, core::num::NonZeroU32>(o);
    array::<U5, u8>(o);
    array::<U5, u16>(o);
    array::<U5, u64>(o);
    array::<U5, stabby_abi::Tuple<u16, u8>>(o);
    array::<U5, core::num::NonZeroU32>(o);
    array::<U6, u8>(o);
    array::<U6, u16>(o);
    array::<U6, u64>(o);
    array::<U6, stabby_abi::Tuple<u16, u8>>(o);
    array::<U6, core::num::NonZeroU32>(o);
    array::<U7, u8>(o);
    array::<U7, u16>(o);
    array::<U7, u64>(o);
    array::<U7, stabby_abi::Tuple<u16, u8>>(o);
    array::<U7, core::num::NonZeroU32>(o);
    array::<U8, u8>(o);
    array::<U8, u16>(o);
    array::<U8, u64>(o);
    array::<U8, stabby_abi::Tuple<u16, u8>>(o);
    array::<U8, core::num::NonZeroU32>(o);
    array::<U9, u8>(o);
    array::<U9, u16>(o);
    array::<U9, u64>(o);
    array::<U9, stabby_abi::Tuple<u16, u8>>(o);
    array::<U9, core::num::NonZeroU32>(o);
    array::<U10, u8>(o);
    array::<U10, u16>(o);
    array::<U10, u64>(o);
    array::<U10, stabby_abi::Tuple<u16, u8>>(o);
    array::<U10, core::num::NonZeroU32>(o);
    array::<U11, u8>(o);
    array::<U11, u16>(o);
    array::<U11, u64>(o);
    array::<U11, stabby_abi::Tuple<u16, u8>>(o);
    array::<U11, core::num::NonZeroU32>(o);
}
fn arrays_1(o: &mut Out) {
    array::<U12, u8>(o);
    array::<U12, u16>(o);
    array::<U12, u64>(o);
    array::<U12, stabby_abi::Tuple<u16, u8>>(o);
    array::<U12, core::num::NonZeroU32>(o);
    array::<U13, u8>(o);
    array::<U13, u16>(o);
    array::<U13, u64>(o);
    array::<U13, stabby_abi::Tuple<u16, u8>>(o);
    array::<U13, core::num::NonZeroU32>(o);
    array::<U14, u8>(o);
    array::<U14, u16>(o);
    array::<U14, u64>(o);
    array::<U14, stabby_abi::Tuple<u16, u8>>(o);
    array::<U14, core::num::NonZeroU32>(o);
    array::<U15, u8>(o);
    array::<U15, u16>(o);
    array::<U15, u64>(o);
    array::<U15, stabby_abi::Tuple<u16, u8>>(o);
    array::<U15, core::num::NonZeroU32>(o);
    array::<U16, u8>(o);
    array::<U16, u16>(o);
    array::<U16, u64>(o);
    array::<U16, stabby_abi::Tuple<u16, u8>>(o);
    array::<U16, core::num::NonZeroU32>(o);
    array::<U17, u8>(o);
    array::<U17, u16>(o);
    array::<U17, u64>(o);
    array::<U17, stabby_abi::Tuple<u16, u8>>(o);
    array::<U17, core::num::NonZeroU32>(o);
    array::<U31, u8>(o);
    array::<U31, u16>(o);
    array::<U31, u64>(o);
    array::<U31, stabby_abi::Tuple<u16, u8>>(o);
    array::<U31, core::num::NonZeroU32>(o);
    array::<U33, u8>(o);
    array::<U33, u16>(o);
    array::<U33, u64>(o);
    array::<U33, stabby_abi::Tuple<u16, u8>>(o);
    array::<U33, core::num::NonZeroU32>(o);
    array::<U100, u8>(o);
    array::<U100, u16>(o);
    array::<U100, u64>(o);
    array::<U100, stabby_abi::Tuple<u16, u8>>(o);
    array::<U100, core::num::NonZeroU32>(o);
}
fn twos_0(o: &mut Out) {
    two::<U0, U0, false>(o);
    two::<U0, U1, false>(o);
    two::<U0, U2, false>(o);
    two::<U0, U3, false>(o);
    two::<U0, U5, false>(o);
    two::<U0, U6, false>(o);
    two::<U0, U7, false>(o);
    two::<U0, U8, false>(o);
    two::<U0, U12, false>(o);
    two::<U0, U15, false>(o);
    two::<U0, U16, false>(o);
    two::<U0, U31, false>(o);
    two::<U0, U33, false>(o);
    two::<U0, U64, false>(o);
    two::<U0, U100, false>(o);
    two::<U0, U255, false>(o);
    two::<U0, U256, false>(o);
    two::<U0, U1000, false>(o);
    two::<U1, U0, false>(o);
    two::<U1, U1, false>(o);
    two::<U1, U2, false>(o);
    two::<U1, U3, false>(o);
    two::<U1, U5, false>(o);
    two::<U1, U6, false>(o);
    two::<U1, U7, false>(o);
    two::<U1, U8, false>(o);
    two::<U1, U12, false>(o);
    two::<U1, U15, false>(o);
    two::<U1, U16, false>(o);
    two::<U1, U31, false>(o);
    two::<U1, U33, false>(o);
    two::<U1, U64, false>(o);
    two::<U1, U100, false>(o);
    two::<U1, U255, false>(o);
    two::<U1, U256, false>(o);
    two::<U1, U1000, false>(o);
    two::<U2, U0, false>(o);
    two::<U2, U1, false>(o);
    two::<U2, U2, false>(o);
    two::<U2, U3, false>(o);
    two::<U2, U5, false>(o);
    two::<U2, U6, false>(o);
    two::<U2, U7, false>(o);
    two::<U2, U8, false>(o);
    two::<U2, U12, false>(o);
    two::<U2, U15, false>(o);
    two::<U2, U16, false>(o);
    two::<U2, U31, false>(o);
    two::<U2, U33, false>(o);
    two::<U2, U64, false>(o);
    two::<U2, U100, false>(o);
    two::<U2, U255, false>(o);
    two::<U2, U256, false>(o);
    two::<U2, U1000, false>(o);
    two::<U3, U0, false>(o);
    two::<U3, U1, false>(o);
    two::<U3, U2, false>(o);
    two::<U3, U3, false>(o);
    two::<U3, U5, false>(o);
    two::<U3, U6, false>(o);
}
fn twos_1(o: &mut Out) {
    two::<U3, U7, false>(o);
    two::<U3, U8, false>(o);
    two::<U3, U12, false>(o);
    two::<U3, U15, false>(o);
    two::<U3, U16, false>(o);
    two::<U3, U31, false>(o);
    two::<U3, U33, false>(o);
    two::<U3, U64, false>(o);
    two::<U3, U100, false>(o);
    two::<U3, U255, false>(o);
    two::<U3, U256, false>(o);
    two::<U3, U1000, false>(o);
    two::<U5, U0, false>(o);
    two::<U5, U1, false>(o);
    two::<U5, U2, false>(o);
    two::<U5, U3, false>(o);
    two::<U5, U5, false>(o);
    two::<U5, U6, false>(o);
    two::<U5, U7, false>(o);
    two::<U5, U8, false>(o);
    two::<U5, U12, false>(o);
    two::<U5, U15, false>(o);
    two::<U5, U16, false>(o);
    two::<U5, U31, false>(o);
    two::<U5, U33, false>(o);
    two::<U5, U64, false>(o);
    two::<U5, U100, false>(o);
    two::<U5, U255, false>(o);
    two::<U5, U256, false>(o);
    two::<U5, U1000, false>(o);
    two::<U6, U0, false>(o);
    two::<U6, U1, false>(o);
    two::<U6, U2, false>(o);
    two::<U6, U3, false>(o);
    two::<U6, U5, false>(o);
    two::<U6, U6, false>(o);
    two::<U6, U7, false>(o);
    two::<U6, U8, false>(o);
    two::<U6, U12, false>(o);
    two::<U6, U15, false>(o);
    two::<U6, U16, false>(o);
    two::<U6, U31, false>(o);
    two::<U6, U33, false>(o);
    two::<U6, U64, false>(o);
    two::<U6, U100, false>(o);
    two::<U6, U255, false>(o);
    two::<U6, U256, false>(o);
    two::<U6, U1000, false>(o);
    two::<U7, U0, false>(o);
    two::<U7, U1, false>(o);
    two::<U7, U2, false>(o);
    two::<U7, U3, false>(o);
    two::<U7, U5, false>(o);
    two::<U7, U6, false>(o);
    two::<U7, U7, false>(o);
    two::<U7, U8, false>(o);
    two::<U7, U12, false>(o);
    two::<U7, U15, false>(o);
    two::<U7, U16, false>(o);
    two::<U7, U31, false>(o);
}
fn twos_2(o: &mut Out) {
    two::<U7, U33, false>(o);
    two::<U7, U64, false>(o);
    two::<U7, U100, false>(o);
    two::<U7, U255, false>(o);
    two::<U7, U256, false>(o);
    two::<U7, U1000, false>(o);
    two::<U8, U0, false>(o);
    two::<U8, U1, false>(o);
    two::<U8, U2, false>(o);
    two::<U8, U3, false>(o);
    two::<U8, U5, false>(o);
    two::<U8, U6, false>(o);
    two::<U8, U7, false>(o);
    two::<U8, U8, false>(o);
    two::<U8, U12, false>(o);
    two::<U8, U15, false>(o);
    two::<U8, U16, false>(o);
    two::<U8, U31, false>(o);
    two::<U8, U33, false>(o);
    two::<U8, U64, false>(o);
    two::<U8, U100, false>(o);
    two::<U8, U255, false>(o);
    two::<U8, U256, false>(o);
    two::<U8, U1000, false>(o);
    two::<U12, U0, false>(o);
    two::<U12, U1, false>(o);
    two::<U12, U2, false>(o);
    two::<U12, U3, false>(o);
    two::<U12, U5, false>(o);
    two::<U12, U6, false>(o);
    two::<U12, U7, false>(o);
    two::<U12, U8, false>(o);
    two::<U12, U12, false>(o);
    two::<U12, U15, false>(o);
    two::<U12, U16, false>(o);
    two::<U12, U31, false>(o);
    two::<U12, U33, false>(o);
    two::<U12, U64, false>(o);
    two::<U12, U100, false>(o);
    two::<U12, U255, false>(o);
    two::<U12, U256, false>(o);
    two::<U12, U1000, false>(o);
    two::<U15, U0, false>(o);
    two::<U15, U1, false>(o);
    two::<U15, U2, false>(o);
    two::<U15, U3, false>(o);
    two::<U15, U5, false>(o);
    two::<U15, U6, false>(o);
    two::<U15, U7, false>(o);
    two::<U15, U8, false>(o);
    two::<U15, U12, false>(o);
    two::<U15, U15, false>(o);
    two::<U15, U16, false>(o);
    two::<U15, U31, false>(o);
    two::<U15, U33, false>(o);
    two::<U15, U64, false>(o);
    two::<U15, U100, false>(o);
    two::<U15, U255, false>(o);
    two::<U15, U256, false>(o);
    two::<U15, U1000, false>(o);
}
fn twos_3(o: &mut Out) {
    two::<U16, U0, false>(o);
    two::<U16, U1, false>(o);
    two::<U16, U2, false>(o);
    two::<U16, U3, false>(o);
    two::<U16, U5, false>(o);
    two::<U16, U6, false>(o);
    two::<U16, U7, false>(o);
    two::<U16, U8, false>(o);
    two::<U16, U12, false>(o);
    two::<U16, U15, false>(o);
    two::<U16, U16, false>(o);
    two::<U16, U31, false>(o);
    two::<U16, U33, false>(o);
    two::<U16, U64, false>(o);
    two::<U16, U100, false>(o);
    two::<U16, U255, false>(o);
    two::<U16, U256, false>(o);
    two::<U16, U1000, false>(o);
    two::<U31, U0, false>(o);
    two::<U31, U1, false>(o);
    two::<U31, U2, false>(o);
    two::<U31, U3, false>(o);
    two::<U31, U5, false>(o);
    two::<U31, U6, false>(o);
    two::<U31, U7, false>(o);
    two::<U31, U8, false>(o);
    two::<U31, U12, false>(o);
    two::<U31, U15, false>(o);
    two::<U31, U16, false>(o);
    two::<U31, U31, false>(o);
    two::<U31, U33, false>(o);
    two::<U31, U64, false>(o);
    two::<U31, U100, false>(o);
    two::<U31, U255, false>(o);
    two::<U31, U256, false>(o);
    two::<U31, U1000, false>(o);
    two::<U33, U0, false>(o);
    two::<U33, U1, false>(o);
    two::<U33, U2, false>(o);
    two::<U33, U3, false>(o);
    two::<U33, U5, false>(o);
    two::<U33, U6, false>(o);
    two::<U33, U7, false>(o);
    two::<U33, U8, false>(o);
    two::<U33, U12, false>(o);
    two::<U33, U15, false>(o);
    two::<U33, U16, false>(o);
    two::<U33, U31, false>(o);
    two::<U33, U33, false>(o);
    two::<U33, U64, false>(o);
    two::<U33, U100, false>(o);
    two::<U33, U255, false>(o);
    two::<U33, U256, false>(o);
    two::<U33, U1000, false>(o);
    two::<U64, U0, false>(o);
    two::<U64, U1, false>(o);
    two::<U64, U2, false>(o);
    two::<U64, U3, false>(o);
    two::<U64, U5, false>(o);
    two::<U64, U6, false>(o);
}
fn twos_4(o: &mut Out) {
    two::<U64, U7, false>(o);
    two::<U64, U8, false>(o);
    two::<U64, U12, false>(o);
    two::<U64, U15, false>(o);
    two::<U64, U16, false>(o);
    two::<U64, U31, false>(o);
    two::<U64, U33, false>(o);
    two::<U64, U64, false>(o);
    two::<U64, U100, false>(o);
    two::<U64, U255, false>(o);
    two::<U64, U256, false>(o);
    two::<U64, U1000, false>(o);
    two::<U100, U0, false>(o);
    two::<U100, U1, false>(o);
    two::<U100, U2, false>(o);
    two::<U100, U3, false>(o);
    two::<U100, U5, false>(o);
    two::<U100, U6, false>(o);
    two::<U100, U7, false>(o);
    two::<U100, U8, false>(o);
    two::<U100, U12, false>(o);
    two::<U100, U15, false>(o);
    two::<U100, U16, false>(o);
    two::<U100, U31, false>(o);
    two::<U100, U33, false>(o);
    two::<U100, U64, false>(o);
    two::<U100, U100, false>(o);
    two::<U100, U255, false>(o);
    two::<U100, U256, false>(o);
    two::<U100, U1000, false>(o);
    two::<U255, U0, false>(o);
    two::<U255, U1, false>(o);
    two::<U255, U2, false>(o);
    two::<U255, U3, false>(o);
    two::<U255, U5, false>(o);
    two::<U255, U6, false>(o);
    two::<U255, U7, false>(o);
    two::<U255, U8, false>(o);
    two::<U255, U12, false>(o);
    two::<U255, U15, false>(o);
    two::<U255, U16, false>(o);
    two::<U255, U31, false>(o);
    two::<U255, U33, false>(o);
    two::<U255, U64, false>(o);
    two::<U255, U100, false>(o);
    two::<U255, U255, false>(o);
    two::<U255, U256, false>(o);
    two::<U255, U1000, false>(o);
    two::<U256, U0, false>(o);
    two::<U256, U1, false>(o);
    two::<U256, U2, false>(o);
    two::<U256, U3, false>(o);
    two::<U256, U5, false>(o);
    two::<U256, U6, false>(o);
    two::<U256, U7, false>(o);
    two::<U256, U8, false>(o);
    two::<U256, U12, false>(o);
    two::<U256, U15, false>(o);
    two::<U256, U16, false>(o);
    two::<U256, U31, false>(o);
}
fn twos_5(o: &mut Out) {
    two::<U256, U33, false>(o);
    two::<U256, U64, false>(o);
    two::<U256, U100, false>(o);
    two::<U256, U255, false>(o);
    two::<U256, U256, false>(o);
    two::<U256, U1000, false>(o);
    two::<U1000, U0, false>(o);
    two::<U1000, U1, false>(o);
    two::<U1000, U2, false>(o);
    two::<U1000, U3, false>(o);
    two::<U1000, U5, false>(o);
    two::<U1000, U6, false>(o);
    two::<U1000, U7, false>(o);
    two::<U1000, U8, false>(o);
    two::<U1000, U12, false>(o);
    two::<U1000, U15, false>(o);
    two::<U1000, U16, false>(o);
    two::<U1000, U31, false>(o);
    two::<U1000, U33, false>(o);
    two::<U1000, U64, false>(o);
    two::<U1000, U100, false>(o);
    two::<U1000, U255, false>(o);
    two::<U1000, U256, false>(o);
    two::<U1000, U1000, false>(o);
}
fn cmps_0(o: &mut Out) {
    cmp::<U0, U0>(o);
    cmp::<U0, U1>(o);
    cmp::<U0, U2>(o);
    cmp::<U0, U3>(o);
    cmp::<U0, U4>(o);
    cmp::<U0, U5>(o);
    cmp::<U0, U6>(o);
    cmp::<U0, U7>(o);
    cmp::<U0, U8>(o);
    cmp::<U0, U10>(o);
    cmp::<U0, U13>(o);
    cmp::<U0, U16>(o);
    cmp::<U0, U21>(o);
    cmp::<U1, U0>(o);
    cmp::<U1, U1>(o);
    cmp::<U1, U2>(o);
    cmp::<U1, U3>(o);
    cmp::<U1, U4>(o);
    cmp::<U1, U5>(o);
    cmp::<U1, U6>(o);
    cmp::<U1, U7>(o);
    cmp::<U1, U8>(o);
    cmp::<U1, U10>(o);
    cmp::<U1, U13>(o);
    cmp::<U1, U16>(o);
    cmp::<U1, U21>(o);
    cmp::<U2, U0>(o);
    cmp::<U2, U1>(o);
    cmp::<U2, U2>(o);
    cmp::<U2, U3>(o);
    cmp::<U2, U4>(o);
    cmp::<U2, U5>(o);
    cmp::<U2, U6>(o);
    cmp::<U2, U7>(o);
    cmp::<U2, U8>(o);
    cmp::<U2, U10>(o);
    cmp::<U2, U13>(o);
    cmp::<U2, U16>(o);
    cmp::<U2, U21>(o);
    cmp::<U3, U0>(o);
    cmp::<U3, U1>(o);
    cmp::<U3, U2>(o);
    cmp::<U3, U3>(o);
    cmp::<U3, U4>(o);
    cmp::<U3, U5>(o);
    cmp::<U3, U6>(o);
    cmp::<U3, U7>(o);
    cmp::<U3, U8>(o);
    cmp::<U3, U10>(o);
    cmp::<U3, U13>(o);
    cmp::<U3, U16>(o);
    cmp::<U3, U21>(o);
    cmp::<U4, U0>(o);
    cmp::<U4, U1>(o);
    cmp::<U4, U2>(o);
    cmp::<U4, U3>(o);
    cmp::<U4, U4>(o);
    cmp::<U4, U5>(o);
    cmp::<U4, U6>(o);
    cmp::<U4, U7>(o);
}
fn cmps_1(o: &mut Out) {
    cmp::<U4, U8>(o);
    cmp::<U4, U10>(o);
    cmp::<U4, U13>(o);
    cmp::<U4, U16>(o);
    cmp::<U4, U21>(o);
    cmp::<U5, U0>(o);
    cmp::<U5, U1>(o);
    cmp::<U5, U2>(o);
    cmp::<U5, U3>(o);
    cmp::<U5, U4>(o);
    cmp::<U5, U5>(o);
    cmp::<U5, U6>(o);
    cmp::<U5, U7>(o);
    cmp::<U5, U8>(o);
    cmp::<U5, U10>(o);
    cmp::<U5, U13>(o);
    cmp::<U5, U16>(o);
    cmp::<U5, U21>(o);
    cmp::<U6, U0>(o);
    cmp::<U6, U1>(o);
    cmp::<U6, U2>(o);
    cmp::<U6, U3>(o);
    cmp::<U6, U4>(o);
    cmp::<U6, U5>(o);
    cmp::<U6, U6>(o);
    cmp::<U6, U7>(o);
    cmp::<U6, U8>(o);
    cmp::<U6, U10>(o);
    cmp::<U6, U13>(o);
    cmp::<U6, U16>(o);
    cmp::<U6, U21>(o);
    cmp::<U7, U0>(o);
    cmp::<U7, U1>(o);
    cmp::<U7, U2>(o);
    cmp::<U7, U3>(o);
    cmp::<U7, U4>(o);
    cmp::<U7, U5>(o);
    cmp::<U7, U6>(o);
    cmp::<U7, U7>(o);
    cmp::<U7, U8>(o);
    cmp::<U7, U10>(o);
    cmp::<U7, U13>(o);
    cmp::<U7, U16>(o);
    cmp::<U7, U21>(o);
    cmp::<U8, U0>(o);
    cmp::<U8, U1>(o);
    cmp::<U8, U2>(o);
    cmp::<U8, U3>(o);
    cmp::<U8, U4>(o);
    cmp::<U8, U5>(o);
    cmp::<U8, U6>(o);
    cmp::<U8, U7>(o);
    cmp::<U8, U8>(o);
    cmp::<U8, U10>(o);
    cmp::<U8, U13>(o);
    cmp::<U8, U16>(o);
    cmp::<U8, U21>(o);
    cmp::<U10, U0>(o);
    cmp::<U10, U1>(o);
    cmp::<U10, U2>(o);
}
fn cmps_2(o: &mut Out) {
    cmp::<U10, U3>(o);
    cmp::<U10, U4>(o);
    cmp::<U10, U5>(o);
    cmp::<U10, U6>(o);
    cmp::<U10, U7>(o);
    cmp::<U10, U8>(o);
    cmp::<U10, U10>(o);
    cmp::<U10, U13>(o);
    cmp::<U10, U16>(o);
    cmp::<U10, U21>(o);
    cmp::<U13, U0>(o);
    cmp::<U13, U1>(o);
    cmp::<U13, U2>(o);
    cmp::<U13, U3>(o);
    cmp::<U13, U4>(o);
    cmp::<U13, U5>(o);
    cmp::<U13, U6>(o);
    cmp::<U13, U7>(o);
    cmp::<U13, U8>(o);
    cmp::<U13, U10>(o);
    cmp::<U13, U13>(o);
    cmp::<U13, U16>(o);
    cmp::<U13, U21>(o);
    cmp::<U16, U0>(o);
    cmp::<U16, U1>(o);
    cmp::<U16, U2>(o);
    cmp::<U16, U3>(o);
    cmp::<U16, U4>(o);
    cmp::<U16, U5>(o);
    cmp::<U16, U6>(o);
    cmp::<U16, U7>(o);
    cmp::<U16, U8>(o);
    cmp::<U16, U10>(o);
    cmp::<U16, U13>(o);
    cmp::<U16, U16>(o);
    cmp::<U16, U21>(o);
    cmp::<U21, U0>(o);
    cmp::<U21, U1>(o);
    cmp::<U21, U2>(o);
    cmp::<U21, U3>(o);
    cmp::<U21, U4>(o);
    cmp::<U21, U5>(o);
    cmp::<U21, U6>(o);
    cmp::<U21, U7>(o);
    cmp::<U21, U8>(o);
    cmp::<U21, U10>(o);
    cmp::<U21, U13>(o);
    cmp::<U21, U16>(o);
    cmp::<U21, U21>(o);
}
fn byps_0(o: &mut Out) {
    pow::<U0, U1>(o);
    pow::<U0, U2>(o);
    pow::<U0, U4>(o);
    pow::<U0, U8>(o);
    pow::<U0, U16>(o);
    pow::<U0, U64>(o);
    pow::<U0, U256>(o);
    pow::<U1, U1>(o);
    pow::<U1, U2>(o);
    pow::<U1, U4>(o);
    pow::<U1, U8>(o);
    pow::<U1, U16>(o);
    pow::<U1, U64>(o);
    pow::<U1, U256>(o);
    pow::<U2, U1>(o);
    pow::<U2, U2>(o);
    pow::<U2, U4>(o);
    pow::<U2, U8>(o);
    pow::<U2, U16>(o);
    pow::<U2, U64>(o);
    pow::<U2, U256>(o);
    pow::<U3, U1>(o);
    pow::<U3, U2>(o);
    pow::<U3, U4>(o);
    pow::<U3, U8>(o);
    pow::<U3, U16>(o);
    pow::<U3, U64>(o);
    pow::<U3, U256>(o);
    pow::<U4, U1>(o);
    pow::<U4, U2>(o);
    pow::<U4, U4>(o);
    pow::<U4, U8>(o);
    pow::<U4, U16>(o);
    pow::<U4, U64>(o);
    pow::<U4, U256>(o);
    pow::<U5, U1>(o);
    pow::<U5, U2>(o);
    pow::<U5, U4>(o);
    pow::<U5, U8>(o);
    pow::<U5, U16>(o);
    pow::<U5, U64>(o);
    pow::<U5, U256>(o);
    pow::<U6, U1>(o);
    pow::<U6, U2>(o);
    pow::<U6, U4>(o);
    pow::<U6, U8>(o);
    pow::<U6, U16>(o);
    pow::<U6, U64>(o);
    pow::<U6, U256>(o);
    pow::<U7, U1>(o);
    pow::<U7, U2>(o);
    pow::<U7, U4>(o);
    pow::<U7, U8>(o);
    pow::<U7, U16>(o);
    pow::<U7, U64>(o);
    pow::<U7, U256>(o);
    pow::<U8, U1>(o);
    pow::<U8, U2>(o);
    pow::<U8, U4>(o);
    pow::<U8, U8>(o);
}
fn byps_1(o: &mut Out) {
    pow::<U8, U16>(o);
    pow::<U8, U64>(o);
    pow::<U8, U256>(o);
    pow::<U9, U1>(o);
    pow::<U9, U2>(o);
    pow::<U9, U4>(o);
    pow::<U9, U8>(o);
    pow::<U9, U16>(o);
    pow::<U9, U64>(o);
    pow::<U9, U256>(o);
    pow::<U10, U1>(o);
    pow::<U10, U2>(o);
    pow::<U10, U4>(o);
    pow::<U10, U8>(o);
    pow::<U10, U16>(o);
    pow::<U10, U64>(o);
    pow::<U10, U256>(o);
    pow::<U11, U1>(o);
    pow::<U11, U2>(o);
    pow::<U11, U4>(o);
    pow::<U11, U8>(o);
    pow::<U11, U16>(o);
    pow::<U11, U64>(o);
    pow::<U11, U256>(o);
    pow::<U12, U1>(o);
    pow::<U12, U2>(o);
    pow::<U12, U4>(o);
    pow::<U12, U8>(o);
    pow::<U12, U16>(o);
    pow::<U12, U64>(o);
    pow::<U12, U256>(o);
    pow::<U13, U1>(o);
    pow::<U13, U2>(o);
    pow::<U13, U4>(o);
    pow::<U13, U8>(o);
    pow::<U13, U16>(o);
    pow::<U13, U64>(o);
    pow::<U13, U256>(o);
    pow::<U14, U1>(o);
    pow::<U14, U2>(o);
    pow::<U14, U4>(o);
    pow::<U14, U8>(o);
    pow::<U14, U16>(o);
    pow::<U14, U64>(o);
    pow::<U14, U256>(o);
    pow::<U15, U1>(o);
    pow::<U15, U2>(o);
    pow::<U15, U4>(o);
    pow::<U15, U8>(o);
    pow::<U15, U16>(o);
    pow::<U15, U64>(o);
    pow::<U15, U256>(o);
    pow::<U16, U1>(o);
    pow::<U16, U2>(o);
    pow::<U16, U4>(o);
    pow::<U16, U8>(o);
    pow::<U16, U16>(o);
    pow::<U16, U64>(o);
    pow::<U16, U256>(o);
    pow::<U17, U1>(o);
}
fn byps_2(o: &mut Out) {
    pow::<U17, U2>(o);
    pow::<U17, U4>(o);
    pow::<U17, U8>(o);
    pow::<U17, U16>(o);
    pow::<U17, U64>(o);
    pow::<U17, U256>(o);
    pow::<U23, U1>(o);
    pow::<U23, U2>(o);
    pow::<U23, U4>(o);
    pow::<U23, U8>(o);
    pow::<U23, U16>(o);
    pow::<U23, U64>(o);
    pow::<U23, U256>(o);
    pow::<U31, U1>(o);
    pow::<U31, U2>(o);
    pow::<U31, U4>(o);
    pow::<U31, U8>(o);
    pow::<U31, U16>(o);
    pow::<U31, U64>(o);
    pow::<U31, U256>(o);
    pow::<U32, U1>(o);
    pow::<U32, U2>(o);
    pow::<U32, U4>(o);
    pow::<U32, U8>(o);
    pow::<U32, U16>(o);
    pow::<U32, U64>(o);
    pow::<U32, U256>(o);
    pow::<U33, U1>(o);
    pow::<U33, U2>(o);
    pow::<U33, U4>(o);
    pow::<U33, U8>(o);
    pow::<U33, U16>(o);
    pow::<U33, U64>(o);
    pow::<U33, U256>(o);
    pow::<U63, U1>(o);
    pow::<U63, U2>(o);
    pow::<U63, U4>(o);
    pow::<U63, U8>(o);
    pow::<U63, U16>(o);
    pow::<U63, U64>(o);
    pow::<U63, U256>(o);
    pow::<U64, U1>(o);
    pow::<U64, U2>(o);
    pow::<U64, U4>(o);
    pow::<U64, U8>(o);
    pow::<U64, U16>(o);
    pow::<U64, U64>(o);
    pow::<U64, U256>(o);
    pow::<U100, U1>(o);
    pow::<U100, U2>(o);
    pow::<U100, U4>(o);
    pow::<U100, U8>(o);
    pow::<U100, U16>(o);
    pow::<U100, U64>(o);
    pow::<U100, U256>(o);
    pow::<U127, U1>(o);
    pow::<U127, U2>(o);
    pow::<U127, U4>(o);
    pow::<U127, U8>(o);
    pow::<U127, U16>(o);
}
fn byps_3(o: &mut Out) {
    pow::<U127, U64>(o);
    pow::<U127, U256>(o);
    pow::<U128, U1>(o);
    pow::<U128, U2>(o);
    pow::<U128, U4>(o);
    pow::<U128, U8>(o);
    pow::<U128, U16>(o);
    pow::<U128, U64>(o);
    pow::<U128, U256>(o);
    pow::<U170, U1>(o);
    pow::<U170, U2>(o);
    pow::<U170, U4>(o);
    pow::<U170, U8>(o);
    pow::<U170, U16>(o);
    pow::<U170, U64>(o);
    pow::<U170, U256>(o);
    pow::<U255, U1>(o);
    pow::<U255, U2>(o);
    pow::<U255, U4>(o);
    pow::<U255, U8>(o);
    pow::<U255, U16>(o);
    pow::<U255, U64>(o);
    pow::<U255, U256>(o);
    pow::<U256, U1>(o);
    pow::<U256, U2>(o);
    pow::<U256, U4>(o);
    pow::<U256, U8>(o);
    pow::<U256, U16>(o);
    pow::<U256, U64>(o);
    pow::<U256, U256>(o);
    pow::<U257, U1>(o);
    pow::<U257, U2>(o);
    pow::<U257, U4>(o);
    pow::<U257, U8>(o);
    pow::<U257, U16>(o);
    pow::<U257, U64>(o);
    pow::<U257, U256>(o);
    pow::<U511, U1>(o);
    pow::<U511, U2>(o);
    pow::<U511, U4>(o);
    pow::<U511, U8>(o);
    pow::<U511, U16>(o);
    pow::<U511, U64>(o);
    pow::<U511, U256>(o);
    pow::<U512, U1>(o);
    pow::<U512, U2>(o);
    pow::<U512, U4>(o);
    pow::<U512, U8>(o);
    pow::<U512, U16>(o);
    pow::<U512, U64>(o);
    pow::<U512, U256>(o);
    pow::<U513, U1>(o);
    pow::<U513, U2>(o);
    pow::<U513, U4>(o);
    pow::<U513, U8>(o);
    pow::<U513, U16>(o);
    pow::<U513, U64>(o);
    pow::<U513, U256>(o);
    pow::<U1000, U1>(o);
    pow::<U1000, U2>(o);
}
fn byps_4(o: &mut Out) {
    pow::<U1000, U4>(o);
    pow::<U1000, U8>(o);
    pow::<U1000, U16>(o);
    pow::<U1000, U64>(o);
    pow::<U1000, U256>(o);
}
fn powss_0(o: &mut Out) {
    pows::<U1, U1>(o);
    pows::<U1, U2>(o);
    pows::<U1, U4>(o);
    pows::<U1, U8>(o);
    pows::<U1, U16>(o);
    pows::<U1, U32>(o);
    pows::<U1, U64>(o);
    pows::<U1, U128>(o);
    pows::<U1, U256>(o);
    pows::<U1, U512>(o);
    pows::<U2, U1>(o);
    pows::<U2, U2>(o);
    pows::<U2, U4>(o);
    pows::<U2, U8>(o);
    pows::<U2, U16>(o);
    pows::<U2, U32>(o);
    pows::<U2, U64>(o);
    pows::<U2, U128>(o);
    pows::<U2, U256>(o);
    pows::<U2, U512>(o);
    pows::<U4, U1>(o);
    pows::<U4, U2>(o);
    pows::<U4, U4>(o);
    pows::<U4, U8>(o);
    pows::<U4, U16>(o);
    pows::<U4, U32>(o);
    pows::<U4, U64>(o);
    pows::<U4, U128>(o);
    pows::<U4, U256>(o);
    pows::<U4, U512>(o);
    pows::<U8, U1>(o);
    pows::<U8, U2>(o);
    pows::<U8, U4>(o);
    pows::<U8, U8>(o);
    pows::<U8, U16>(o);
    pows::<U8, U32>(o);
    pows::<U8, U64>(o);
    pows::<U8, U128>(o);
    pows::<U8, U256>(o);
    pows::<U8, U512>(o);
    pows::<U16, U1>(o);
    pows::<U16, U2>(o);
    pows::<U16, U4>(o);
    pows::<U16, U8>(o);
    pows::<U16, U16>(o);
    pows::<U16, U32>(o);
    pows::<U16, U64>(o);
    pows::<U16, U128>(o);
    pows::<U16, U256>(o);
    pows::<U16, U512>(o);
    pows::<U32, U1>(o);
    pows::<U32, U2>(o);
    pows::<U32, U4>(o);
    pows::<U32, U8>(o);
    pows::<U32, U16>(o);
    pows::<U32, U32>(o);
    pows::<U32, U64>(o);
    pows::<U32, U128>(o);
    pows::<U32, U256>(o);
    pows::<U32, U512>(o);
}
fn powss_1(o: &mut Out) {
    pows::<U64, U1>(o);
    pows::<U64, U2>(o);
    pows::<U64, U4>(o);
    pows::<U64, U8>(o);
    pows::<U64, U16>(o);
    pows::<U64, U32>(o);
    pows::<U64, U64>(o);
    pows::<U64, U128>(o);
    pows::<U64, U256>(o);
    pows::<U64, U512>(o);
    pows::<U128, U1>(o);
    pows::<U128, U2>(o);
    pows::<U128, U4>(o);
    pows::<U128, U8>(o);
    pows::<U128, U16>(o);
    pows::<U128, U32>(o);
    pows::<U128, U64>(o);
    pows::<U128, U128>(o);
    pows::<U128, U256>(o);
    pows::<U128, U512>(o);
    pows::<U256, U1>(o);
    pows::<U256, U2>(o);
    pows::<U256, U4>(o);
    pows::<U256, U8>(o);
    pows::<U256, U16>(o);
    pows::<U256, U32>(o);
    pows::<U256, U64>(o);
    pows::<U256, U128>(o);
    pows::<U256, U256>(o);
    pows::<U256, U512>(o);
    pows::<U512, U1>(o);
    pows::<U512, U2>(o);
    pows::<U512, U4>(o);
    pows::<U512, U8>(o);
    pows::<U512, U16>(o);
    pows::<U512, U32>(o);
    pows::<U512, U64>(o);
    pows::<U512, U128>(o);
    pows::<U512, U256>(o);
    pows::<U512, U512>(o);
}
fn aligns_0(o: &mut Out) {
    alignments::<U1, U1>(o);
    alignments::<U1, U2>(o);
    alignments::<U1, U4>(o);
    alignments::<U1, U8>(o);
    alignments::<U1, U16>(o);
    alignments::<U1, U32>(o);
    alignments::<U1, U64>(o);
    alignments::<U1, U128>(o);
    alignments::<U1, U256>(o);
    alignments::<U1, U512>(o);
    alignments::<U1, U1024>(o);
    alignments::<U2, U1>(o);
    alignments::<U2, U2>(o);
    alignments::<U2, U4>(o);
    alignments::<U2, U8>(o);
    alignments::<U2, U16>(o);
    alignments::<U2, U32>(o);
    alignments::<U2, U64>(o);
    alignments::<U2, U128>(o);
    alignments::<U2, U256>(o);
    alignments::<U2, U512>(o);
    alignments::<U2, U1024>(o);
    alignments::<U4, U4>(o);
    alignments::<U8, U1>(o);
    alignments::<U8, U2>(o);
    alignments::<U8, U4>(o);
    alignments::<U8, U8>(o);
    alignments::<U8, U16>(o);
    alignments::<U8, U32>(o);
    alignments::<U8, U64>(o);
    alignments::<U8, U128>(o);
    alignments::<U8, U256>(o);
    alignments::<U8, U512>(o);
    alignments::<U8, U1024>(o);
    alignments::<U16, U1>(o);
    alignments::<U16, U2>(o);
    alignments::<U16, U4>(o);
    alignments::<U16, U8>(o);
    alignments::<U16, U16>(o);
    alignments::<U16, U32>(o);
    alignments::<U16, U64>(o);
    alignments::<U16, U128>(o);
    alignments::<U16, U256>(o);
    alignments::<U16, U512>(o);
    alignments::<U16, U1024>(o);
    alignments::<U32, U1>(o);
    alignments::<U32, U2>(o);
    alignments::<U32, U4>(o);
    alignments::<U32, U8>(o);
    alignments::<U32, U16>(o);
    alignments::<U32, U32>(o);
    alignments::<U32, U64>(o);
    alignments::<U32, U128>(o);
    alignments::<U32, U256>(o);
    alignments::<U32, U512>(o);
    alignments::<U32, U1024>(o);
    alignments::<U64, U64>(o);
    alignments::<U128, U128>(o);
    alignments::<U256, U256>(o);
    alignments::<U512, U512>(o);
}
fn aligns_1(o: &mut Out) {
    alignments::<U1024, U1>(o);
    alignments::<U1024, U2>(o);
    alignments::<U1024, U4>(o);
    alignments::<U1024, U8>(o);
    alignments::<U1024, U16>(o);
    alignments::<U1024, U32>(o);
    alignments::<U1024, U64>(o);
    alignments::<U1024, U128>(o);
    alignments::<U1024, U256>(o);
    alignments::<U1024, U512>(o);
    alignments::<U1024, U1024>(o);
}
fn logics_0(o: &mut Out) {
    logic::<B0, B0, B0>(o);
    logic::<B0, B0, B1>(o);
    logic::<B0, B0, Bool<false>>(o);
    logic::<B0, B0, Bool<true>>(o);
    logic::<B0, B1, B0>(o);
    logic::<B0, B1, B1>(o);
    logic::<B0, B1, Bool<false>>(o);
    logic::<B0, B1, Bool<true>>(o);
    logic::<B0, Bool<false>, B0>(o);
    logic::<B0, Bool<false>, B1>(o);
    logic::<B0, Bool<false>, Bool<false>>(o);
    logic::<B0, Bool<false>, Bool<true>>(o);
    logic::<B0, Bool<true>, B0>(o);
    logic::<B0, Bool<true>, B1>(o);
    logic::<B0, Bool<true>, Bool<false>>(o);
    logic::<B0, Bool<true>, Bool<true>>(o);
    logic::<B1, B0, B0>(o);
    logic::<B1, B0, B1>(o);
    logic::<B1, B0, Bool<false>>(o);
    logic::<B1, B0, Bool<true>>(o);
    logic::<B1, B1, B0>(o);
    logic::<B1, B1, B1>(o);
    logic::<B1, B1, Bool<false>>(o);
    logic::<B1, B1, Bool<true>>(o);
    logic::<B1, Bool<false>, B0>(o);
    logic::<B1, Bool<false>, B1>(o);
    logic::<B1, Bool<false>, Bool<false>>(o);
    logic::<B1, Bool<false>, Bool<true>>(o);
    logic::<B1, Bool<true>, B0>(o);
    logic::<B1, Bool<true>, B1>(o);
    logic::<B1, Bool<true>, Bool<false>>(o);
    logic::<B1, Bool<true>, Bool<true>>(o);
    logic::<Bool<false>, B0, B0>(o);
    logic::<Bool<false>, B0, B1>(o);
    logic::<Bool<false>, B0, Bool<false>>(o);
    logic::<Bool<false>, B0, Bool<true>>(o);
    logic::<Bool<false>, B1, B0>(o);
    logic::<Bool<false>, B1, B1>(o);
    logic::<Bool<false>, B1, Bool<false>>(o);
    logic::<Bool<false>, B1, Bool<true>>(o);
    logic::<Bool<false>, Bool<false>, B0>(o);
    logic::<Bool<false>, Bool<false>, B1>(o);
    logic::<Bool<false>, Bool<false>, Bool<false>>(o);
    logic::<Bool<false>, Bool<false>, Bool<true>>(o);
    logic::<Bool<false>, Bool<true>, B0>(o);
    logic::<Bool<false>, Bool<true>, B1>(o);
    logic::<Bool<false>, Bool<true>, Bool<false>>(o);
    logic::<Bool<false>, Bool<true>, Bool<true>>(o);
    logic::<Bool<true>, B0, B0>(o);
    logic::<Bool<true>, B0, B1>(o);
    logic::<Bool<true>, B0, Bool<false>>(o);
    logic::<Bool<true>, B0, Bool<true>>(o);
    logic::<Bool<true>, B1, B0>(o);
    logic::<Bool<true>, B1, B1>(o);
    logic::<Bool<true>, B1, Bool<false>>(o);
    logic::<Bool<true>, B1, Bool<true>>(o);
    logic::<Bool<true>, Bool<false>, B0>(o);
    logic::<Bool<true>, Bool<false>, B1>(o);
    logic::<Bool<true>, Bool<false>, Bool<false>>(o);
    logic::<Bool<true>, Bool<false>, Bool<true>>(o);
}
fn logics_1(o: &mut Out) {
    logic::<Bool<true>, Bool<true>, B0>(o);
    logic::<Bool<true>, Bool<true>, B1>(o);
    logic::<Bool<true>, Bool<true>, Bool<false>>(o);
    logic::<Bool<true>, Bool<true>, Bool<true>>(o);
}
fn maskss_0(o: &mut Out) {
    masks::<Array<U0, Ux18, Array<U4, Ux80, End>>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, vec![vec![0, 24], vec![4, 128]], vec![vec![0, 255], vec![1, 255], vec![2, 255]], false);
    masks::<Array<U0, Ux18, Array<U4, Ux80, End>>, Array<U5, UxFF, End>>(o, vec![vec![0, 24], vec![4, 128]], vec![vec![5, 255]], true);
    masks::<Array<U3, Ux18, End>, End>(o, vec![vec![3, 24]], vec![], true);
    masks::<Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>, Array<U0, Ux18, Array<U4, Ux80, End>>>(o, vec![vec![1, 127], vec![2, 254], vec![5, 255]], vec![vec![0, 24], vec![4, 128]], true);
    masks::<End, Array<U2, Ux7F, Array<U5, Ux7F, End>>>(o, vec![], vec![vec![2, 127], vec![5, 127]], true);
    masks::<End, Array<U0, Ux18, Array<U1, Ux1, Array<U5, UxF0, End>>>>(o, vec![], vec![vec![0, 24], vec![1, 1], vec![5, 240]], true);
    masks::<Array<U0, UxFF, Array<U4, Ux18, End>>, End>(o, vec![vec![0, 255], vec![4, 24]], vec![], true);
    masks::<Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, vec![vec![1, 127], vec![2, 254], vec![5, 255]], vec![vec![0, 255], vec![1, 255], vec![2, 255]], false);
    masks::<End, Array<U0, Ux18, Array<U1, Ux1, Array<U5, UxF0, End>>>>(o, vec![], vec![vec![0, 24], vec![1, 1], vec![5, 240]], true);
    masks::<End, Array<U2, UxFF, End>>(o, vec![], vec![vec![2, 255]], true);
    masks::<Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>, End>(o, vec![vec![1, 127], vec![2, 254], vec![5, 255]], vec![], true);
    masks::<Array<U1, UxFF, Array<U3, UxFF, End>>, End>(o, vec![vec![1, 255], vec![3, 255]], vec![], true);
    masks::<End, Array<U0, UxFF, Array<U1, Ux18, Array<U3, UxFE, End>>>>(o, vec![], vec![vec![0, 255], vec![1, 24], vec![3, 254]], true);
    masks::<Array<U3, UxF, Array<U4, Ux7F, End>>, End>(o, vec![vec![3, 15], vec![4, 127]], vec![], true);
    masks::<Array<U3, Ux18, End>, End>(o, vec![vec![3, 24]], vec![], true);
    masks::<End, End>(o, vec![], vec![], true);
    masks::<Array<U0, Ux18, Array<U1, Ux1, Array<U5, UxF0, End>>>, End>(o, vec![vec![0, 24], vec![1, 1], vec![5, 240]], vec![], true);
    masks::<Array<U2, Ux7F, Array<U5, Ux7F, End>>, End>(o, vec![vec![2, 127], vec![5, 127]], vec![], true);
    masks::<Array<U2, UxFF, End>, Array<U2, UxFF, End>>(o, vec![vec![2, 255]], vec![vec![2, 255]], false);
    masks::<Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>, Array<U3, Ux18, End>>(o, vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]], vec![vec![3, 24]], false);
    masks::<Array<U0, Ux18, Array<U4, Ux80, End>>, Array<U0, UxFF, Array<U1, Ux18, Array<U3, UxFE, End>>>>(o, vec![vec![0, 24], vec![4, 128]], vec![vec![0, 255], vec![1, 24], vec![3, 254]], false);
    masks::<End, Array<U2, UxFF, End>>(o, vec![], vec![vec![2, 255]], true);
    masks::<Array<U5, Ux80, End>, Array<U5, UxFF, End>>(o, vec![vec![5, 128]], vec![vec![5, 255]], false);
    masks::<End, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, vec![], vec![vec![0, 255], vec![1, 255], vec![2, 255]], true);
    masks::<End, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>>(o, vec![], vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]], true);
    masks::<Array<U5, Ux80, End>, Array<U5, UxFF, End>>(o, vec![vec![5, 128]], vec![vec![5, 255]], false);
    masks::<End, End>(o, vec![], vec![], true);
    masks::<End, Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>>(o, vec![], vec![vec![1, 127], vec![2, 254], vec![5, 255]], true);
    masks::<Array<U2, UxFF, End>, End>(o, vec![vec![2, 255]], vec![], true);
    masks::<End, Array<U0, Ux18, Array<U4, Ux80, End>>>(o, vec![], vec![vec![0, 24], vec![4, 128]], true);
    masks::<Array<U0, UxFF, Array<U1, Ux18, Array<U3, UxFE, End>>>, End>(o, vec![vec![0, 255], vec![1, 24], vec![3, 254]], vec![], true);
    masks::<End, Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>>(o, vec![], vec![vec![1, 127], vec![2, 254], vec![5, 255]], true);
    masks::<End, Array<U1, UxFF, Array<U3, UxFF, End>>>(o, vec![], vec![vec![1, 255], vec![3, 255]], true);
    masks::<Array<U3, Ux18, End>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, vec![vec![3, 24]], vec![vec![0, 255], vec![1, 255], vec![2, 255]], true);
    masks::<End, Array<U0, UxFF, Array<U1, Ux18, Array<U3, UxFE, End>>>>(o, vec![], vec![vec![0, 255], vec![1, 24], vec![3, 254]], true);
    masks::<Array<U5, UxFF, End>, Array<U0, Ux18, Array<U1, Ux1, Array<U5, UxF0, End>>>>(o, vec![vec![5, 255]], vec![vec![0, 24], vec![1, 1], vec![5, 240]], false);
    masks::<Array<U1, UxFF, Array<U3, UxFF, End>>, End>(o, vec![vec![1, 255], vec![3, 255]], vec![], true);
    masks::<End, Array<U5, Ux80, End>>(o, vec![], vec![vec![5, 128]], true);
    masks::<End, Array<U3, UxF, Array<U4, Ux7F, End>>>(o, vec![], vec![vec![3, 15], vec![4, 127]], true);
    masks::<End, Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>>(o, vec![], vec![vec![0, 240], vec![1, 24], vec![4, 1]], true);
    masks::<End, End>(o, vec![], vec![], true);
    masks::<Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>, Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>>(o, vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]], vec![vec![2, 15], vec![3, 240], vec![4, 128]], false);
    masks::<Array<U3, UxF, Array<U4, Ux7F, End>>, Array<U0, UxFF, Array<U4, Ux18, End>>>(o, vec![vec![3, 15], vec![4, 127]], vec![vec![0, 255], vec![4, 24]], false);
    masks::<Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>, Array<U2, Ux7F, Array<U5, Ux7F, End>>>(o, vec![vec![1, 127], vec![2, 254], vec![5, 255]], vec![vec![2, 127], vec![5, 127]], false);
    masks::<End, End>(o, vec![], vec![], true);
    masks::<Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>, End>(o, vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]], vec![], true);
    masks::<Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>, Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>>(o, vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]], vec![vec![1, 127], vec![2, 254], vec![5, 255]], false);
    masks::<Array<U0, UxFF, End>, Array<U5, Ux80, End>>(o, vec![vec![0, 255]], vec![vec![5, 128]], true);
    masks::<Array<U2, UxFF, End>, Array<U2, UxFF, End>>(o, vec![vec![2, 255]], vec![vec![2, 255]], false);
    masks::<Array<U2, UxFF, End>, Array<U2, UxFF, End>>(o, vec![vec![2, 255]], vec![vec![2, 255]], false);
    masks::<End, Array<U3, Ux18, End>>(o, vec![], vec![vec![3, 24]], true);
    masks::<Array<U0, UxFF, Array<U4, Ux18, End>>, Array<U2, UxFF, End>>(o, vec![vec![0, 255], vec![4, 24]], vec![vec![2, 255]], true);
    masks::<End, End>(o, vec![], vec![], true);
    masks::<Array<U0, Ux18, Array<U4, Ux80, End>>, End>(o, vec![vec![0, 24], vec![4, 128]], vec![], true);
    masks::<End, Array<U0, UxFF, Array<U1, Ux18, Array<U3, UxFE, End>>>>(o, vec![], vec![vec![0, 255], vec![1, 24], vec![3, 254]], true);
    masks::<End, Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>>(o, vec![], vec![vec![0, 240], vec![1, 24], vec![4, 1]], true);
    masks::<Array<U3, UxF, Array<U4, Ux7F, End>>, End>(o, vec![vec![3, 15], vec![4, 127]], vec![], true);
    masks::<End, Array<U1, UxFF, Array<U3, UxFF, End>>>(o, vec![], vec![vec![1, 255], vec![3, 255]], true);
    masks::<End, End>(o, vec![], vec![], true);
    masks::<Array<U5, Ux80, End>, End>(o, vec![vec![5, 128]], vec![], true);
}
fn maskss_1(o: &mut Out) {
    masks::<End, Array<U3, UxF, Array<U4, Ux7F, End>>>(o, vec![], vec![vec![3, 15], vec![4, 127]], true);
    masks::<Array<U1, UxFF, Array<U3, UxFF, End>>, Array<U0, Ux18, Array<U4, Ux80, End>>>(o, vec![vec![1, 255], vec![3, 255]], vec![vec![0, 24], vec![4, 128]], true);
    masks::<Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>, End>(o, vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]], vec![], true);
    masks::<Array<U3, UxF, Array<U4, Ux7F, End>>, Array<U2, UxFF, End>>(o, vec![vec![3, 15], vec![4, 127]], vec![vec![2, 255]], true);
    masks::<End, Array<U0, UxFF, Array<U4, Ux18, End>>>(o, vec![], vec![vec![0, 255], vec![4, 24]], true);
    masks::<Array<U5, UxFF, End>, End>(o, vec![vec![5, 255]], vec![], true);
    masks::<Array<U3, UxF, Array<U4, Ux7F, End>>, End>(o, vec![vec![3, 15], vec![4, 127]], vec![], true);
    masks::<Array<U3, Ux18, End>, End>(o, vec![vec![3, 24]], vec![], true);
    masks::<End, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>>(o, vec![], vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]], true);
    masks::<Array<U3, Ux18, End>, End>(o, vec![vec![3, 24]], vec![], true);
    masks::<Array<U3, Ux18, End>, Array<U3, Ux18, End>>(o, vec![vec![3, 24]], vec![vec![3, 24]], false);
    masks::<Array<U0, Ux18, Array<U1, Ux1, Array<U5, UxF0, End>>>, Array<U0, Ux18, Array<U4, Ux80, End>>>(o, vec![vec![0, 24], vec![1, 1], vec![5, 240]], vec![vec![0, 24], vec![4, 128]], false);
    masks::<End, End>(o, vec![], vec![], true);
    masks::<Array<U2, Ux7F, Array<U5, Ux7F, End>>, Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>>(o, vec![vec![2, 127], vec![5, 127]], vec![vec![0, 240], vec![1, 24], vec![4, 1]], true);
    masks::<Array<U2, Ux7F, Array<U5, Ux7F, End>>, Array<U5, UxFF, End>>(o, vec![vec![2, 127], vec![5, 127]], vec![vec![5, 255]], false);
    masks::<Array<U3, Ux18, End>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, vec![vec![3, 24]], vec![vec![0, 255], vec![1, 255], vec![2, 255]], true);
    masks::<End, Array<U0, UxFF, Array<U1, Ux18, Array<U3, UxFE, End>>>>(o, vec![], vec![vec![0, 255], vec![1, 24], vec![3, 254]], true);
    masks::<Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>, Array<U1, UxFF, Array<U3, UxFF, End>>>(o, vec![vec![2, 15], vec![3, 240], vec![4, 128]], vec![vec![1, 255], vec![3, 255]], false);
    masks::<End, Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>>(o, vec![], vec![vec![2, 15], vec![3, 240], vec![4, 128]], true);
    masks::<End, End>(o, vec![], vec![], true);
    masks::<End, Array<U5, Ux80, End>>(o, vec![], vec![vec![5, 128]], true);
    masks::<Array<U1, UxFF, Array<U3, UxFF, End>>, End>(o, vec![vec![1, 255], vec![3, 255]], vec![], true);
    masks::<Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>, Array<U0, Ux18, Array<U1, Ux1, Array<U5, UxF0, End>>>>(o, vec![vec![2, 15], vec![3, 240], vec![4, 128]], vec![vec![0, 24], vec![1, 1], vec![5, 240]], true);
    masks::<Array<U0, UxFF, Array<U4, Ux18, End>>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>>(o, vec![vec![0, 255], vec![4, 24]], vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]], false);
    masks::<Array<U0, Ux18, Array<U4, Ux80, End>>, End>(o, vec![vec![0, 24], vec![4, 128]], vec![], true);
    masks::<Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>, Array<U5, UxFF, End>>(o, vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]], vec![vec![5, 255]], false);
    masks::<Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>, End>(o, vec![vec![2, 15], vec![3, 240], vec![4, 128]], vec![], true);
    masks::<Array<U0, UxFF, Array<U1, Ux18, Array<U3, UxFE, End>>>, End>(o, vec![vec![0, 255], vec![1, 24], vec![3, 254]], vec![], true);
    masks::<End, End>(o, vec![], vec![], true);
    masks::<Array<U5, Ux80, End>, Array<U5, Ux80, End>>(o, vec![vec![5, 128]], vec![vec![5, 128]], false);
    masks::<End, Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>>(o, vec![], vec![vec![2, 15], vec![3, 240], vec![4, 128]], true);
    masks::<Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>, Array<U0, UxFF, Array<U4, Ux18, End>>>(o, vec![vec![0, 240], vec![1, 24], vec![4, 1]], vec![vec![0, 255], vec![4, 24]], false);
    masks::<End, Array<U3, UxF, Array<U4, Ux7F, End>>>(o, vec![], vec![vec![3, 15], vec![4, 127]], true);
    masks::<Array<U0, UxFF, End>, Array<U0, UxFF, End>>(o, vec![vec![0, 255]], vec![vec![0, 255]], false);
    masks::<End, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>>(o, vec![], vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]], true);
    masks::<End, Array<U0, UxFF, End>>(o, vec![], vec![vec![0, 255]], true);
    masks::<End, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, vec![], vec![vec![0, 255], vec![1, 255], vec![2, 255]], true);
    masks::<Array<U2, UxFF, End>, Array<U2, Ux7F, Array<U5, Ux7F, End>>>(o, vec![vec![2, 255]], vec![vec![2, 127], vec![5, 127]], false);
    masks::<Array<U0, UxFF, End>, End>(o, vec![vec![0, 255]], vec![], true);
    masks::<End, Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>>(o, vec![], vec![vec![2, 15], vec![3, 240], vec![4, 128]], true);
    masks::<Array<U3, Ux18, End>, End>(o, vec![vec![3, 24]], vec![], true);
    masks::<Array<U2, Ux7F, Array<U5, Ux7F, End>>, Array<U1, UxFF, Array<U3, UxFF, End>>>(o, vec![vec![2, 127], vec![5, 127]], vec![vec![1, 255], vec![3, 255]], true);
    masks::<Array<U1, UxFF, Array<U3, UxFF, End>>, Array<U0, UxFF, End>>(o, vec![vec![1, 255], vec![3, 255]], vec![vec![0, 255]], true);
    masks::<Array<U5, UxFF, End>, Array<U3, Ux18, End>>(o, vec![vec![5, 255]], vec![vec![3, 24]], true);
    masks::<Array<U5, UxFF, End>, End>(o, vec![vec![5, 255]], vec![], true);
    masks::<End, Array<U3, UxF, Array<U4, Ux7F, End>>>(o, vec![], vec![vec![3, 15], vec![4, 127]], true);
    masks::<End, End>(o, vec![], vec![], true);
    masks::<Array<U0, UxFF, End>, Array<U2, Ux7F, Array<U5, Ux7F, End>>>(o, vec![vec![0, 255]], vec![vec![2, 127], vec![5, 127]], true);
    masks::<End, End>(o, vec![], vec![], true);
    masks::<Array<U0, Ux18, Array<U4, Ux80, End>>, End>(o, vec![vec![0, 24], vec![4, 128]], vec![], true);
    masks::<End, End>(o, vec![], vec![], true);
    masks::<Array<U3, Ux18, End>, End>(o, vec![vec![3, 24]], vec![], true);
    masks::<Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>, End>(o, vec![vec![0, 240], vec![1, 24], vec![4, 1]], vec![], true);
    masks::<Array<U3, Ux18, End>, Array<U3, UxF, Array<U4, Ux7F, End>>>(o, vec![vec![3, 24]], vec![vec![3, 15], vec![4, 127]], false);
    masks::<Array<U3, UxF, Array<U4, Ux7F, End>>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, vec![vec![3, 15], vec![4, 127]], vec![vec![0, 255], vec![1, 255], vec![2, 255]], true);
    masks::<Array<U1, UxFF, Array<U3, UxFF, End>>, Array<U3, Ux18, End>>(o, vec![vec![1, 255], vec![3, 255]], vec![vec![3, 24]], false);
    masks::<Array<U0, UxFF, Array<U4, Ux18, End>>, End>(o, vec![vec![0, 255], vec![4, 24]], vec![], true);
    masks::<Array<U0, UxFF, End>, Array<U0, UxFF, Array<U4, Ux18, End>>>(o, vec![vec![0, 255]], vec![vec![0, 255], vec![4, 24]], false);
    masks::<Array<U0, Ux18, Array<U4, Ux80, End>>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, vec![vec![0, 24], vec![4, 128]], vec![vec![0, 255], vec![1, 255], vec![2, 255]], false);
    masks::<Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>, End>(o, vec![vec![1, 127], vec![2, 254], vec![5, 255]], vec![], true);
}
fn fvs_0(o: &mut Out, r: &mut Rng) {
    fv::<Array<U3, Ux1, End>, Or<ForbiddenRange<U100, U219, U3>, ForbiddenRange<U1, U45, U1>>, Array<U1, UxFF, Array<U3, UxFF, End>>>(o, r, vec![("all", vec![vec![3, 1]])], vec![("range", vec![vec![3, 100], vec![3, 219]]), ("range", vec![vec![1, 1], vec![1, 45]])], vec![vec![1, 255], vec![3, 255]]);
    fv::<Or<Array<U4, UxAA, End>, Array<U1, UxAA, Array<U4, Ux1, End>>>, End, Array<U0, UxFF, End>>(o, r, vec![("all", vec![vec![4, 170]]), ("all", vec![vec![1, 170], vec![4, 1]])], vec![], vec![vec![0, 255]]);
    fv::<Array<U3, Ux1, End>, ForbiddenRange<U2, U57, U2>, Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>>(o, r, vec![("all", vec![vec![3, 1]])], vec![("range", vec![vec![2, 2], vec![2, 57]])], vec![vec![2, 15], vec![3, 240], vec![4, 128]]);
    fv::<Or<ForbiddenRange<U100, U134, U0>, Array<U3, UxAA, Array<U4, Ux1, Array<U5, UxAA, End>>>>, Or<Array<U4, Ux0, End>, ForbiddenRange<U1, U123, U4>>, Array<U2, Ux7F, Array<U5, Ux7F, End>>>(o, r, vec![("range", vec![vec![0, 100], vec![0, 134]]), ("all", vec![vec![3, 170], vec![4, 1], vec![5, 170]])], vec![("all", vec![vec![4, 0]]), ("range", vec![vec![4, 1], vec![4, 123]])], vec![vec![2, 127], vec![5, 127]]);
    fv::<Or<End, Array<U0, Ux1, Array<U4, Ux1, Array<U5, Ux2, End>>>>, End, End>(o, r, vec![("all", vec![vec![0, 1], vec![4, 1], vec![5, 2]])], vec![], vec![]);
    fv::<Array<U3, Ux2, End>, Array<U5, Ux2, End>, End>(o, r, vec![("all", vec![vec![3, 2]])], vec![("all", vec![vec![5, 2]])], vec![]);
    fv::<Array<U5, UxAA, End>, Array<U1, UxFF, Array<U4, Ux1, End>>, End>(o, r, vec![("all", vec![vec![5, 170]])], vec![("all", vec![vec![1, 255], vec![4, 1]])], vec![]);
    fv::<Or<Or<End, ForbiddenRange<U2, U203, U0>>, ForbiddenRange<U2, U39, U2>>, Array<U5, Ux0, End>, Array<U2, UxFF, End>>(o, r, vec![("range", vec![vec![0, 2], vec![0, 203]]), ("range", vec![vec![2, 2], vec![2, 39]])], vec![("all", vec![vec![5, 0]])], vec![vec![2, 255]]);
    fv::<ForbiddenRange<U1, U43, U5>, Or<Array<U2, Ux2, End>, Or<Array<U0, Ux2, Array<U3, UxAA, Array<U5, UxAA, End>>>, Array<U1, Ux0, End>>>, Array<U0, Ux18, Array<U4, Ux80, End>>>(o, r, vec![("range", vec![vec![5, 1], vec![5, 43]])], vec![("all", vec![vec![2, 2]]), ("all", vec![vec![0, 2], vec![3, 170], vec![5, 170]]), ("all", vec![vec![1, 0]])], vec![vec![0, 24], vec![4, 128]]);
    fv::<Or<End, ForbiddenRange<U1, U211, U3>>, Array<U1, UxAA, Array<U3, UxAA, End>>, End>(o, r, vec![("range", vec![vec![3, 1], vec![3, 211]])], vec![("all", vec![vec![1, 170], vec![3, 170]])], vec![]);
    fv::<Or<Or<Array<U3, Ux0, End>, ForbiddenRange<U0, U206, U2>>, Or<ForbiddenRange<U0, U117, U0>, Array<U1, Ux0, Array<U4, UxAA, End>>>>, Array<U2, Ux0, End>, Array<U0, UxFF, Array<U1, Ux18, Array<U3, UxFE, End>>>>(o, r, vec![("all", vec![vec![3, 0]]), ("range", vec![vec![2, 0], vec![2, 206]]), ("range", vec![vec![0, 0], vec![0, 117]]), ("all", vec![vec![1, 0], vec![4, 170]])], vec![("all", vec![vec![2, 0]])], vec![vec![0, 255], vec![1, 24], vec![3, 254]]);
    fv::<Or<Or<Array<U3, Ux1, Array<U4, Ux2, End>>, ForbiddenRange<U2, U12, U0>>, End>, Array<U0, UxFF, Array<U1, UxFF, Array<U3, UxAA, End>>>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, r, vec![("all", vec![vec![3, 1], vec![4, 2]]), ("range", vec![vec![0, 2], vec![0, 12]])], vec![("all", vec![vec![0, 255], vec![1, 255], vec![3, 170]])], vec![vec![0, 255], vec![1, 255], vec![2, 255]]);
    fv::<Array<U1, Ux1, Array<U5, Ux2, End>>, Or<Array<U3, Ux2, End>, Array<U0, Ux2, End>>, End>(o, r, vec![("all", vec![vec![1, 1], vec![5, 2]])], vec![("all", vec![vec![3, 2]]), ("all", vec![vec![0, 2]])], vec![]);
    fv::<Or<Or<Array<U1, Ux2, Array<U4, Ux0, End>>, ForbiddenRange<U100, U101, U2>>, Or<Array<U0, Ux2, Array<U1, Ux1, End>>, ForbiddenRange<U100, U122, U3>>>, Or<ForbiddenRange<U0, U24, U2>, ForbiddenRange<U254, U255, U3>>, Array<U1, UxFF, Array<U3, UxFF, End>>>(o, r, vec![("all", vec![vec![1, 2], vec![4, 0]]), ("range", vec![vec![2, 100], vec![2, 101]]), ("all", vec![vec![0, 2], vec![1, 1]]), ("range", vec![vec![3, 100], vec![3, 122]])], vec![("range", vec![vec![2, 0], vec![2, 24]]), ("range", vec![vec![3, 254], vec![3, 255]])], vec![vec![1, 255], vec![3, 255]]);
    fv::<Or<ForbiddenRange<U254, U255, U5>, Array<U1, Ux2, Array<U2, UxAA, Array<U3, Ux1, End>>>>, End, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, r, vec![("range", vec![vec![5, 254], vec![5, 255]]), ("all", vec![vec![1, 2], vec![2, 170], vec![3, 1]])], vec![], vec![vec![0, 255], vec![1, 255], vec![2, 255]]);
    fv::<Array<U1, UxAA, Array<U4, UxAA, Array<U5, UxAA, End>>>, Array<U0, Ux0, End>, End>(o, r, vec![("all", vec![vec![1, 170], vec![4, 170], vec![5, 170]])], vec![("all", vec![vec![0, 0]])], vec![]);
    fv::<Or<Or<Array<U5, Ux0, End>, Array<U0, Ux0, Array<U2, UxAA, Array<U3, UxAA, End>>>>, Or<Array<U0, Ux1, Array<U2, Ux1, Array<U5, Ux1, End>>>, Array<U0, Ux2, Array<U3, Ux0, Array<U5, UxAA, End>>>>>, ForbiddenRange<U254, U255, U2>, Array<U5, UxFF, End>>(o, r, vec![("all", vec![vec![5, 0]]), ("all", vec![vec![0, 0], vec![2, 170], vec![3, 170]]), ("all", vec![vec![0, 1], vec![2, 1], vec![5, 1]]), ("all", vec![vec![0, 2], vec![3, 0], vec![5, 170]])], vec![("range", vec![vec![2, 254], vec![2, 255]])], vec![vec![5, 255]]);
    fv::<Array<U0, UxFF, End>, End, Array<U5, UxFF, End>>(o, r, vec![("all", vec![vec![0, 255]])], vec![], vec![vec![5, 255]]);
    fv::<ForbiddenRange<U1, U174, U3>, Or<Array<U0, Ux2, Array<U1, Ux0, Array<U4, UxFF, End>>>, End>, End>(o, r, vec![("range", vec![vec![3, 1], vec![3, 174]])], vec![("all", vec![vec![0, 2], vec![1, 0], vec![4, 255]])], vec![]);
    fv::<End, Array<U1, Ux1, Array<U3, Ux0, End>>, End>(o, r, vec![], vec![("all", vec![vec![1, 1], vec![3, 0]])], vec![]);
    fv::<Or<ForbiddenRange<U2, U36, U4>, Array<U5, Ux2, End>>, Or<Array<U1, Ux0, End>, Array<U1, Ux2, Array<U2, UxFF, Array<U3, Ux2, End>>>>, End>(o, r, vec![("range", vec![vec![4, 2], vec![4, 36]]), ("all", vec![vec![5, 2]])], vec![("all", vec![vec![1, 0]]), ("all", vec![vec![1, 2], vec![2, 255], vec![3, 2]])], vec![]);
    fv::<ForbiddenRange<U2, U217, U3>, Or<Array<U2, Ux0, Array<U5, UxFF, End>>, Or<ForbiddenRange<U100, U171, U0>, ForbiddenRange<U2, U165, U1>>>, End>(o, r, vec![("range", vec![vec![3, 2], vec![3, 217]])], vec![("all", vec![vec![2, 0], vec![5, 255]]), ("range", vec![vec![0, 100], vec![0, 171]]), ("range", vec![vec![1, 2], vec![1, 165]])], vec![]);
    fv::<Array<U1, UxFF, Array<U2, Ux0, End>>, Array<U5, Ux0, End>, End>(o, r, vec![("all", vec![vec![1, 255], vec![2, 0]])], vec![("all", vec![vec![5, 0]])], vec![]);
    fv::<Array<U5, Ux2, End>, Or<Array<U3, UxFF, End>, Or<Array<U1, Ux2, Array<U3, UxFF, End>>, Array<U5, Ux1, End>>>, Array<U0, Ux18, Array<U4, Ux80, End>>>(o, r, vec![("all", vec![vec![5, 2]])], vec![("all", vec![vec![3, 255]]), ("all", vec![vec![1, 2], vec![3, 255]]), ("all", vec![vec![5, 1]])], vec![vec![0, 24], vec![4, 128]]);
    fv::<Or<Array<U3, Ux2, End>, Array<U4, Ux1, End>>, Or<Or<Array<U2, Ux1, Array<U4, Ux0, End>>, Array<U1, UxFF, Array<U4, Ux2, Array<U5, Ux2, End>>>>, Array<U1, UxAA, Array<U4, Ux1, End>>>, Array<U0, Ux18, Array<U4, Ux80, End>>>(o, r, vec![("all", vec![vec![3, 2]]), ("all", vec![vec![4, 1]])], vec![("all", vec![vec![2, 1], vec![4, 0]]), ("all", vec![vec![1, 255], vec![4, 2], vec![5, 2]]), ("all", vec![vec![1, 170], vec![4, 1]])], vec![vec![0, 24], vec![4, 128]]);
    fv::<Or<Or<Array<U0, Ux0, Array<U1, UxFF, End>>, Array<U0, Ux0, Array<U3, UxFF, Array<U4, UxAA, End>>>>, Array<U0, Ux1, End>>, Or<Array<U0, Ux0, Array<U4, Ux1, Array<U5, Ux1, End>>>, ForbiddenRange<U2, U249, U1>>, Array<U0, UxFF, Array<U4, Ux18, End>>>(o, r, vec![("all", vec![vec![0, 0], vec![1, 255]]), ("all", vec![vec![0, 0], vec![3, 255], vec![4, 170]]), ("all", vec![vec![0, 1]])], vec![("all", vec![vec![0, 0], vec![4, 1], vec![5, 1]]), ("range", vec![vec![1, 2], vec![1, 249]])], vec![vec![0, 255], vec![4, 24]]);
    fv::<Or<Array<U0, Ux0, End>, Or<ForbiddenRange<U2, U60, U4>, End>>, Array<U1, UxFF, Array<U2, UxAA, End>>, End>(o, r, vec![("all", vec![vec![0, 0]]), ("range", vec![vec![4, 2], vec![4, 60]])], vec![("all", vec![vec![1, 255], vec![2, 170]])], vec![]);
    fv::<ForbiddenRange<U100, U179, U0>, End, Array<U3, Ux18, End>>(o, r, vec![("range", vec![vec![0, 100], vec![0, 179]])], vec![], vec![vec![3, 24]]);
    fv::<Array<U2, Ux1, End>, Array<U3, Ux0, End>, End>(o, r, vec![("all", vec![vec![2, 1]])], vec![("all", vec![vec![3, 0]])], vec![]);
    fv::<Or<Or<ForbiddenRange<U2, U192, U4>, End>, Or<Array<U1, UxFF, End>, Array<U0, UxFF, Array<U4, UxAA, End>>>>, Or<Or<Array<U3, Ux0, End>, Array<U3, Ux0, End>>, ForbiddenRange<U100, U181, U5>>, End>(o, r, vec![("range", vec![vec![4, 2], vec![4, 192]]), ("all", vec![vec![1, 255]]), ("all", vec![vec![0, 255], vec![4, 170]])], vec![("all", vec![vec![3, 0]]), ("all", vec![vec![3, 0]]), ("range", vec![vec![5, 100], vec![5, 181]])], vec![]);
    fv::<Array<U1, UxAA, Array<U5, UxFF, End>>, End, Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>>(o, r, vec![("all", vec![vec![1, 170], vec![5, 255]])], vec![], vec![vec![1, 127], vec![2, 254], vec![5, 255]]);
    fv::<Array<U1, Ux0, Array<U3, Ux0, End>>, End, Array<U0, Ux18, Array<U4, Ux80, End>>>(o, r, vec![("all", vec![vec![1, 0], vec![3, 0]])], vec![], vec![vec![0, 24], vec![4, 128]]);
    fv::<Or<ForbiddenRange<U1, U99, U2>, Array<U0, Ux1, Array<U3, Ux2, Array<U5, UxAA, End>>>>, ForbiddenRange<U2, U191, U3>, Array<U1, UxFF, Array<U3, UxFF, End>>>(o, r, vec![("range", vec![vec![2, 1], vec![2, 99]]), ("all", vec![vec![0, 1], vec![3, 2], vec![5, 170]])], vec![("range", vec![vec![3, 2], vec![3, 191]])], vec![vec![1, 255], vec![3, 255]]);
    fv::<ForbiddenRange<U100, U111, U3>, End, Array<U0, Ux18, Array<U4, Ux80, End>>>(o, r, vec![("range", vec![vec![3, 100], vec![3, 111]])], vec![], vec![vec![0, 24], vec![4, 128]]);
    fv::<ForbiddenRange<U1, U193, U0>, Array<U2, Ux0, Array<U4, Ux2, End>>, Array<U2, Ux7F, Array<U5, Ux7F, End>>>(o, r, vec![("range", vec![vec![0, 1], vec![0, 193]])], vec![("all", vec![vec![2, 0], vec![4, 2]])], vec![vec![2, 127], vec![5, 127]]);
    fv::<Array<U0, UxAA, Array<U2, Ux0, End>>, End, End>(o, r, vec![("all", vec![vec![0, 170], vec![2, 0]])], vec![], vec![]);
    fv::<Or<Array<U2, Ux1, Array<U3, UxFF, Array<U4, Ux1, End>>>, End>, Array<U4, Ux1, End>, Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>>(o, r, vec![("all", vec![vec![2, 1], vec![3, 255], vec![4, 1]])], vec![("all", vec![vec![4, 1]])], vec![vec![0, 240], vec![1, 24], vec![4, 1]]);
    fv::<Array<U4, Ux1, End>, Or<Or<Array<U2, Ux1, Array<U4, UxFF, Array<U5, Ux0, End>>>, ForbiddenRange<U0, U54, U0>>, Or<Array<U1, Ux1, End>, Array<U5, UxAA, End>>>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>>(o, r, vec![("all", vec![vec![4, 1]])], vec![("all", vec![vec![2, 1], vec![4, 255], vec![5, 0]]), ("range", vec![vec![0, 0], vec![0, 54]]), ("all", vec![vec![1, 1]]), ("all", vec![vec![5, 170]])], vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]]);
    fv::<Array<U2, UxAA, Array<U5, Ux2, End>>, Or<ForbiddenRange<U1, U49, U1>, Or<Array<U2, Ux0, End>, Array<U5, Ux0, End>>>, Array<U0, UxFF, Array<U4, Ux18, End>>>(o, r, vec![("all", vec![vec![2, 170], vec![5, 2]])], vec![("range", vec![vec![1, 1], vec![1, 49]]), ("all", vec![vec![2, 0]]), ("all", vec![vec![5, 0]])], vec![vec![0, 255], vec![4, 24]]);
    fv::<Or<End, End>, ForbiddenRange<U100, U196, U0>, Array<U0, Ux18, Array<U1, Ux1, Array<U5, UxF0, End>>>>(o, r, vec![], vec![("range", vec![vec![0, 100], vec![0, 196]])], vec![vec![0, 24], vec![1, 1], vec![5, 240]]);
    fv::<Or<End, Array<U0, Ux2, End>>, ForbiddenRange<U254, U255, U5>, Array<U1, UxFF, Array<U3, UxFF, End>>>(o, r, vec![("all", vec![vec![0, 2]])], vec![("range", vec![vec![5, 254], vec![5, 255]])], vec![vec![1, 255], vec![3, 255]]);
    fv::<Or<Array<U0, Ux2, End>, Or<End, ForbiddenRange<U1, U210, U0>>>, Array<U1, Ux2, Array<U4, Ux0, End>>, End>(o, r, vec![("all", vec![vec![0, 2]]), ("range", vec![vec![0, 1], vec![0, 210]])], vec![("all", vec![vec![1, 2], vec![4, 0]])], vec![]);
    fv::<End, Or<Or<Array<U5, UxAA, End>, ForbiddenRange<U2, U107, U2>>, Array<U2, UxAA, End>>, End>(o, r, vec![], vec![("all", vec![vec![5, 170]]), ("range", vec![vec![2, 2], vec![2, 107]]), ("all", vec![vec![2, 170]])], vec![]);
    fv::<Or<End, Array<U3, UxFF, End>>, Or<End, Array<U3, UxAA, End>>, End>(o, r, vec![("all", vec![vec![3, 255]])], vec![("all", vec![vec![3, 170]])], vec![]);
    fv::<Or<Or<End, Array<U0, UxAA, Array<U2, Ux1, Array<U4, Ux1, End>>>>, Or<ForbiddenRange<U0, U28, U3>, Array<U2, Ux1, End>>>, ForbiddenRange<U100, U181, U0>, Array<U3, UxF, Array<U4, Ux7F, End>>>(o, r, vec![("all", vec![vec![0, 170], vec![2, 1], vec![4, 1]]), ("range", vec![vec![3, 0], vec![3, 28]]), ("all", vec![vec![2, 1]])], vec![("range", vec![vec![0, 100], vec![0, 181]])], vec![vec![3, 15], vec![4, 127]]);
    fv::<Array<U5, Ux1, End>, Array<U3, Ux1, End>, End>(o, r, vec![("all", vec![vec![5, 1]])], vec![("all", vec![vec![3, 1]])], vec![]);
    fv::<Or<Or<Array<U1, Ux1, End>, Array<U0, UxAA, End>>, Array<U0, UxAA, Array<U3, UxFF, End>>>, Array<U3, Ux2, Array<U5, UxAA, End>>, End>(o, r, vec![("all", vec![vec![1, 1]]), ("all", vec![vec![0, 170]]), ("all", vec![vec![0, 170], vec![3, 255]])], vec![("all", vec![vec![3, 2], vec![5, 170]])], vec![]);
    fv::<Or<Array<U0, UxAA, Array<U1, UxFF, Array<U4, UxFF, End>>>, Or<Array<U1, Ux0, Array<U3, Ux0, Array<U4, Ux1, End>>>, Array<U0, Ux0, Array<U4, Ux1, Array<U5, Ux0, End>>>>>, Array<U0, UxAA, End>, Array<U2, UxFF, End>>(o, r, vec![("all", vec![vec![0, 170], vec![1, 255], vec![4, 255]]), ("all", vec![vec![1, 0], vec![3, 0], vec![4, 1]]), ("all", vec![vec![0, 0], vec![4, 1], vec![5, 0]])], vec![("all", vec![vec![0, 170]])], vec![vec![2, 255]]);
    fv::<Array<U0, UxAA, End>, Array<U1, UxFF, End>, Array<U0, Ux18, Array<U1, Ux1, Array<U5, UxF0, End>>>>(o, r, vec![("all", vec![vec![0, 170]])], vec![("all", vec![vec![1, 255]])], vec![vec![0, 24], vec![1, 1], vec![5, 240]]);
    fv::<Array<U5, Ux1, End>, End, End>(o, r, vec![("all", vec![vec![5, 1]])], vec![], vec![]);
    fv::<ForbiddenRange<U2, U232, U4>, Or<ForbiddenRange<U254, U255, U1>, Array<U2, Ux2, End>>, End>(o, r, vec![("range", vec![vec![4, 2], vec![4, 232]])], vec![("range", vec![vec![1, 254], vec![1, 255]]), ("all", vec![vec![2, 2]])], vec![]);
    fv::<Or<Or<ForbiddenRange<U2, U232, U3>, Array<U4, Ux0, End>>, Array<U0, Ux2, Array<U4, UxAA, Array<U5, UxFF, End>>>>, Array<U1, Ux2, Array<U2, Ux2, Array<U4, Ux0, End>>>, End>(o, r, vec![("range", vec![vec![3, 2], vec![3, 232]]), ("all", vec![vec![4, 0]]), ("all", vec![vec![0, 2], vec![4, 170], vec![5, 255]])], vec![("all", vec![vec![1, 2], vec![2, 2], vec![4, 0]])], vec![]);
    fv::<Or<Array<U2, Ux2, Array<U4, UxAA, End>>, Array<U5, Ux0, End>>, Or<Or<Array<U0, UxFF, Array<U1, Ux1, End>>, ForbiddenRange<U0, U1, U4>>, Or<Array<U3, UxAA, End>, ForbiddenRange<U2, U162, U3>>>, Array<U0, UxFF, Array<U1, Ux18, Array<U3, UxFE, End>>>>(o, r, vec![("all", vec![vec![2, 2], vec![4, 170]]), ("all", vec![vec![5, 0]])], vec![("all", vec![vec![0, 255], vec![1, 1]]), ("range", vec![vec![4, 0], vec![4, 1]]), ("all", vec![vec![3, 170]]), ("range", vec![vec![3, 2], vec![3, 162]])], vec![vec![0, 255], vec![1, 24], vec![3, 254]]);
    fv::<Or<ForbiddenRange<U1, U117, U0>, End>, Or<ForbiddenRange<U2, U250, U0>, End>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, r, vec![("range", vec![vec![0, 1], vec![0, 117]])], vec![("range", vec![vec![0, 2], vec![0, 250]])], vec![vec![0, 255], vec![1, 255], vec![2, 255]]);
    fv::<Array<U3, Ux1, Array<U4, Ux1, Array<U5, Ux0, End>>>, End, Array<U5, Ux80, End>>(o, r, vec![("all", vec![vec![3, 1], vec![4, 1], vec![5, 0]])], vec![], vec![vec![5, 128]]);
    fv::<End, Or<Or<ForbiddenRange<U254, U255, U1>, Array<U1, Ux0, Array<U2, Ux2, Array<U4, Ux0, End>>>>, Array<U0, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>, Array<U0, Ux18, Array<U4, Ux80, End>>>(o, r, vec![], vec![("range", vec![vec![1, 254], vec![1, 255]]), ("all", vec![vec![1, 0], vec![2, 2], vec![4, 0]]), ("all", vec![vec![0, 255], vec![4, 255], vec![5, 255]])], vec![vec![0, 24], vec![4, 128]]);
    fv::<Array<U0, Ux2, End>, Or<End, Or<Array<U0, Ux2, Array<U5, UxAA, End>>, Array<U1, Ux0, Array<U2, UxAA, End>>>>, Array<U1, UxFF, Array<U3, UxFF, End>>>(o, r, vec![("all", vec![vec![0, 2]])], vec![("all", vec![vec![0, 2], vec![5, 170]]), ("all", vec![vec![1, 0], vec![2, 170]])], vec![vec![1, 255], vec![3, 255]]);
    fv::<Or<Array<U1, Ux2, End>, Or<Array<U3, UxFF, Array<U4, UxAA, Array<U5, Ux0, End>>>, Array<U4, Ux2, End>>>, Array<U4, Ux1, End>, End>(o, r, vec![("all", vec![vec![1, 2]]), ("all", vec![vec![3, 255], vec![4, 170], vec![5, 0]]), ("all", vec![vec![4, 2]])], vec![("all", vec![vec![4, 1]])], vec![]);
    fv::<End, Or<ForbiddenRange<U1, U181, U0>, End>, End>(o, r, vec![], vec![("range", vec![vec![0, 1], vec![0, 181]])], vec![]);
    fv::<Array<U5, Ux0, End>, End, End>(o, r, vec![("all", vec![vec![5, 0]])], vec![], vec![]);
}
fn fvs_1(o: &mut Out, r: &mut Rng) {
    fv::<ForbiddenRange<U254, U255, U5>, ForbiddenRange<U1, U54, U0>, End>(o, r, vec![("range", vec![vec![5, 254], vec![5, 255]])], vec![("range", vec![vec![0, 1], vec![0, 54]])], vec![]);
    fv::<End, Array<U5, Ux2, End>, Array<U3, Ux18, End>>(o, r, vec![], vec![("all", vec![vec![5, 2]])], vec![vec![3, 24]]);
    fv::<Or<Or<ForbiddenRange<U2, U89, U3>, Array<U0, Ux2, Array<U2, UxAA, End>>>, Array<U3, Ux0, End>>, Or<Array<U4, UxAA, End>, Or<ForbiddenRange<U2, U46, U3>, End>>, End>(o, r, vec![("range", vec![vec![3, 2], vec![3, 89]]), ("all", vec![vec![0, 2], vec![2, 170]]), ("all", vec![vec![3, 0]])], vec![("all", vec![vec![4, 170]]), ("range", vec![vec![3, 2], vec![3, 46]])], vec![]);
    fv::<Or<ForbiddenRange<U2, U128, U0>, Or<ForbiddenRange<U100, U252, U2>, Array<U2, Ux1, End>>>, ForbiddenRange<U1, U30, U5>, End>(o, r, vec![("range", vec![vec![0, 2], vec![0, 128]]), ("range", vec![vec![2, 100], vec![2, 252]]), ("all", vec![vec![2, 1]])], vec![("range", vec![vec![5, 1], vec![5, 30]])], vec![]);
    fv::<Or<Array<U5, Ux2, End>, Or<Array<U3, Ux0, End>, Array<U1, UxFF, Array<U4, Ux1, Array<U5, UxFF, End>>>>>, Or<Array<U2, UxAA, End>, Or<Array<U1, UxFF, Array<U3, Ux2, End>>, ForbiddenRange<U100, U161, U4>>>, End>(o, r, vec![("all", vec![vec![5, 2]]), ("all", vec![vec![3, 0]]), ("all", vec![vec![1, 255], vec![4, 1], vec![5, 255]])], vec![("all", vec![vec![2, 170]]), ("all", vec![vec![1, 255], vec![3, 2]]), ("range", vec![vec![4, 100], vec![4, 161]])], vec![]);
    fv::<Or<Array<U5, Ux1, End>, Array<U1, Ux2, Array<U5, Ux1, End>>>, Or<Array<U5, Ux0, End>, Or<ForbiddenRange<U2, U190, U2>, ForbiddenRange<U0, U72, U1>>>, Array<U2, UxFF, End>>(o, r, vec![("all", vec![vec![5, 1]]), ("all", vec![vec![1, 2], vec![5, 1]])], vec![("all", vec![vec![5, 0]]), ("range", vec![vec![2, 2], vec![2, 190]]), ("range", vec![vec![1, 0], vec![1, 72]])], vec![vec![2, 255]]);
    fv::<Or<End, Array<U4, Ux2, End>>, Or<Or<Array<U3, UxAA, End>, Array<U5, UxAA, End>>, Array<U3, UxFF, End>>, Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>>(o, r, vec![("all", vec![vec![4, 2]])], vec![("all", vec![vec![3, 170]]), ("all", vec![vec![5, 170]]), ("all", vec![vec![3, 255]])], vec![vec![0, 240], vec![1, 24], vec![4, 1]]);
    fv::<Or<Array<U3, Ux1, End>, Or<Array<U1, Ux0, Array<U2, UxFF, Array<U4, UxFF, End>>>, ForbiddenRange<U2, U142, U1>>>, Or<Array<U0, UxFF, Array<U4, UxAA, End>>, Or<ForbiddenRange<U2, U136, U2>, Array<U5, Ux1, End>>>, Array<U2, UxFF, End>>(o, r, vec![("all", vec![vec![3, 1]]), ("all", vec![vec![1, 0], vec![2, 255], vec![4, 255]]), ("range", vec![vec![1, 2], vec![1, 142]])], vec![("all", vec![vec![0, 255], vec![4, 170]]), ("range", vec![vec![2, 2], vec![2, 136]]), ("all", vec![vec![5, 1]])], vec![vec![2, 255]]);
    fv::<Array<U0, Ux2, Array<U5, Ux2, End>>, Or<End, End>, End>(o, r, vec![("all", vec![vec![0, 2], vec![5, 2]])], vec![], vec![]);
    fv::<Array<U0, Ux2, Array<U1, UxFF, End>>, Array<U3, UxFF, End>, End>(o, r, vec![("all", vec![vec![0, 2], vec![1, 255]])], vec![("all", vec![vec![3, 255]])], vec![]);
    fv::<Or<ForbiddenRange<U1, U122, U5>, ForbiddenRange<U1, U92, U5>>, Array<U1, UxFF, Array<U2, Ux2, Array<U3, Ux1, End>>>, Array<U5, UxFF, End>>(o, r, vec![("range", vec![vec![5, 1], vec![5, 122]]), ("range", vec![vec![5, 1], vec![5, 92]])], vec![("all", vec![vec![1, 255], vec![2, 2], vec![3, 1]])], vec![vec![5, 255]]);
    fv::<Array<U1, Ux0, Array<U3, Ux2, Array<U5, Ux2, End>>>, Or<Or<Array<U5, Ux2, End>, Array<U0, Ux1, Array<U2, UxAA, Array<U5, Ux2, End>>>>, ForbiddenRange<U0, U54, U0>>, Array<U0, UxFF, Array<U4, Ux18, End>>>(o, r, vec![("all", vec![vec![1, 0], vec![3, 2], vec![5, 2]])], vec![("all", vec![vec![5, 2]]), ("all", vec![vec![0, 1], vec![2, 170], vec![5, 2]]), ("range", vec![vec![0, 0], vec![0, 54]])], vec![vec![0, 255], vec![4, 24]]);
    fv::<Or<Array<U1, UxFF, End>, Or<Array<U4, UxAA, End>, ForbiddenRange<U254, U255, U1>>>, Or<Or<End, Array<U4, Ux0, End>>, Or<ForbiddenRange<U100, U243, U0>, Array<U1, UxAA, Array<U3, UxAA, Array<U5, Ux0, End>>>>>, Array<U0, UxFF, Array<U1, Ux18, Array<U3, UxFE, End>>>>(o, r, vec![("all", vec![vec![1, 255]]), ("all", vec![vec![4, 170]]), ("range", vec![vec![1, 254], vec![1, 255]])], vec![("all", vec![vec![4, 0]]), ("range", vec![vec![0, 100], vec![0, 243]]), ("all", vec![vec![1, 170], vec![3, 170], vec![5, 0]])], vec![vec![0, 255], vec![1, 24], vec![3, 254]]);
    fv::<Array<U2, Ux2, Array<U3, UxFF, Array<U5, UxFF, End>>>, Array<U5, Ux2, End>, Array<U0, UxFF, Array<U4, Ux18, End>>>(o, r, vec![("all", vec![vec![2, 2], vec![3, 255], vec![5, 255]])], vec![("all", vec![vec![5, 2]])], vec![vec![0, 255], vec![4, 24]]);
    fv::<ForbiddenRange<U0, U175, U5>, Array<U4, UxFF, End>, Array<U3, Ux18, End>>(o, r, vec![("range", vec![vec![5, 0], vec![5, 175]])], vec![("all", vec![vec![4, 255]])], vec![vec![3, 24]]);
    fv::<ForbiddenRange<U1, U185, U3>, Array<U2, UxAA, Array<U3, UxAA, End>>, End>(o, r, vec![("range", vec![vec![3, 1], vec![3, 185]])], vec![("all", vec![vec![2, 170], vec![3, 170]])], vec![]);
    fv::<ForbiddenRange<U2, U111, U2>, Array<U2, UxFF, Array<U3, Ux2, End>>, Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>>(o, r, vec![("range", vec![vec![2, 2], vec![2, 111]])], vec![("all", vec![vec![2, 255], vec![3, 2]])], vec![vec![2, 15], vec![3, 240], vec![4, 128]]);
    fv::<Array<U1, Ux0, Array<U3, Ux2, End>>, Or<ForbiddenRange<U0, U201, U0>, Or<Array<U3, Ux2, End>, ForbiddenRange<U100, U116, U4>>>, Array<U5, Ux80, End>>(o, r, vec![("all", vec![vec![1, 0], vec![3, 2]])], vec![("range", vec![vec![0, 0], vec![0, 201]]), ("all", vec![vec![3, 2]]), ("range", vec![vec![4, 100], vec![4, 116]])], vec![vec![5, 128]]);
    fv::<Array<U1, Ux0, End>, Array<U0, Ux1, End>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>>(o, r, vec![("all", vec![vec![1, 0]])], vec![("all", vec![vec![0, 1]])], vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]]);
    fv::<End, Array<U2, Ux1, End>, Array<U0, UxFF, End>>(o, r, vec![], vec![("all", vec![vec![2, 1]])], vec![vec![0, 255]]);
    fv::<Or<Array<U3, Ux0, End>, Or<Array<U3, UxAA, End>, Array<U3, Ux0, Array<U4, Ux0, Array<U5, UxFF, End>>>>>, Array<U3, UxFF, End>, Array<U5, Ux80, End>>(o, r, vec![("all", vec![vec![3, 0]]), ("all", vec![vec![3, 170]]), ("all", vec![vec![3, 0], vec![4, 0], vec![5, 255]])], vec![("all", vec![vec![3, 255]])], vec![vec![5, 128]]);
    fv::<Or<ForbiddenRange<U1, U162, U0>, Or<End, Array<U1, Ux0, End>>>, Or<End, ForbiddenRange<U1, U238, U0>>, End>(o, r, vec![("range", vec![vec![0, 1], vec![0, 162]]), ("all", vec![vec![1, 0]])], vec![("range", vec![vec![0, 1], vec![0, 238]])], vec![]);
    fv::<Array<U5, Ux0, End>, Or<Array<U0, Ux0, Array<U5, Ux0, End>>, End>, Array<U0, UxFF, Array<U4, Ux18, End>>>(o, r, vec![("all", vec![vec![5, 0]])], vec![("all", vec![vec![0, 0], vec![5, 0]])], vec![vec![0, 255], vec![4, 24]]);
    fv::<Array<U1, UxFF, Array<U2, UxAA, Array<U5, Ux0, End>>>, Or<Array<U1, Ux0, Array<U4, Ux2, Array<U5, Ux1, End>>>, Array<U2, Ux2, Array<U3, Ux2, Array<U4, Ux0, End>>>>, Array<U3, UxF, Array<U4, Ux7F, End>>>(o, r, vec![("all", vec![vec![1, 255], vec![2, 170], vec![5, 0]])], vec![("all", vec![vec![1, 0], vec![4, 2], vec![5, 1]]), ("all", vec![vec![2, 2], vec![3, 2], vec![4, 0]])], vec![vec![3, 15], vec![4, 127]]);
    fv::<Array<U0, Ux1, Array<U4, UxAA, End>>, Array<U3, UxFF, End>, Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>>(o, r, vec![("all", vec![vec![0, 1], vec![4, 170]])], vec![("all", vec![vec![3, 255]])], vec![vec![1, 127], vec![2, 254], vec![5, 255]]);
    fv::<Or<ForbiddenRange<U100, U173, U5>, End>, Or<Or<Array<U2, Ux1, End>, Array<U2, UxAA, End>>, Array<U0, UxAA, Array<U4, UxAA, End>>>, Array<U3, Ux18, End>>(o, r, vec![("range", vec![vec![5, 100], vec![5, 173]])], vec![("all", vec![vec![2, 1]]), ("all", vec![vec![2, 170]]), ("all", vec![vec![0, 170], vec![4, 170]])], vec![vec![3, 24]]);
    fv::<ForbiddenRange<U1, U81, U4>, End, Array<U2, UxFF, End>>(o, r, vec![("range", vec![vec![4, 1], vec![4, 81]])], vec![], vec![vec![2, 255]]);
    fv::<Or<Or<Array<U0, UxAA, Array<U3, Ux2, Array<U4, Ux0, End>>>, Array<U2, UxFF, Array<U4, UxAA, End>>>, ForbiddenRange<U1, U25, U1>>, ForbiddenRange<U254, U255, U3>, End>(o, r, vec![("all", vec![vec![0, 170], vec![3, 2], vec![4, 0]]), ("all", vec![vec![2, 255], vec![4, 170]]), ("range", vec![vec![1, 1], vec![1, 25]])], vec![("range", vec![vec![3, 254], vec![3, 255]])], vec![]);
    fv::<ForbiddenRange<U0, U237, U3>, Or<Or<Array<U2, UxAA, End>, End>, Or<ForbiddenRange<U1, U255, U4>, Array<U2, Ux0, Array<U3, UxFF, End>>>>, End>(o, r, vec![("range", vec![vec![3, 0], vec![3, 237]])], vec![("all", vec![vec![2, 170]]), ("range", vec![vec![4, 1], vec![4, 255]]), ("all", vec![vec![2, 0], vec![3, 255]])], vec![]);
    fv::<Array<U2, Ux0, End>, Or<Array<U0, Ux0, End>, Array<U0, Ux0, Array<U3, Ux0, Array<U5, Ux2, End>>>>, Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>>(o, r, vec![("all", vec![vec![2, 0]])], vec![("all", vec![vec![0, 0]]), ("all", vec![vec![0, 0], vec![3, 0], vec![5, 2]])], vec![vec![0, 240], vec![1, 24], vec![4, 1]]);
    fv::<Array<U1, Ux2, Array<U3, Ux1, Array<U5, Ux1, End>>>, Or<Array<U4, Ux0, End>, ForbiddenRange<U254, U255, U0>>, End>(o, r, vec![("all", vec![vec![1, 2], vec![3, 1], vec![5, 1]])], vec![("all", vec![vec![4, 0]]), ("range", vec![vec![0, 254], vec![0, 255]])], vec![]);
    fv::<Or<Array<U4, UxFF, Array<U5, Ux0, End>>, Or<Array<U3, Ux1, Array<U5, UxFF, End>>, ForbiddenRange<U0, U120, U5>>>, Array<U1, Ux0, End>, Array<U3, UxF, Array<U4, Ux7F, End>>>(o, r, vec![("all", vec![vec![4, 255], vec![5, 0]]), ("all", vec![vec![3, 1], vec![5, 255]]), ("range", vec![vec![5, 0], vec![5, 120]])], vec![("all", vec![vec![1, 0]])], vec![vec![3, 15], vec![4, 127]]);
    fv::<Array<U3, Ux0, End>, Array<U5, Ux0, End>, End>(o, r, vec![("all", vec![vec![3, 0]])], vec![("all", vec![vec![5, 0]])], vec![]);
    fv::<Array<U3, Ux0, End>, ForbiddenRange<U1, U190, U0>, Array<U0, UxFF, Array<U1, Ux18, Array<U3, UxFE, End>>>>(o, r, vec![("all", vec![vec![3, 0]])], vec![("range", vec![vec![0, 1], vec![0, 190]])], vec![vec![0, 255], vec![1, 24], vec![3, 254]]);
    fv::<Array<U3, Ux1, End>, Or<Or<ForbiddenRange<U2, U88, U1>, ForbiddenRange<U100, U224, U0>>, Or<Array<U4, UxFF, End>, ForbiddenRange<U1, U250, U2>>>, End>(o, r, vec![("all", vec![vec![3, 1]])], vec![("range", vec![vec![1, 2], vec![1, 88]]), ("range", vec![vec![0, 100], vec![0, 224]]), ("all", vec![vec![4, 255]]), ("range", vec![vec![2, 1], vec![2, 250]])], vec![]);
    fv::<Array<U0, UxFF, End>, Or<ForbiddenRange<U2, U39, U5>, End>, Array<U0, UxFF, End>>(o, r, vec![("all", vec![vec![0, 255]])], vec![("range", vec![vec![5, 2], vec![5, 39]])], vec![vec![0, 255]]);
    fv::<Array<U0, Ux1, Array<U2, Ux2, Array<U4, UxFF, End>>>, End, End>(o, r, vec![("all", vec![vec![0, 1], vec![2, 2], vec![4, 255]])], vec![], vec![]);
    fv::<Or<ForbiddenRange<U1, U135, U1>, ForbiddenRange<U0, U213, U0>>, Array<U1, Ux1, Array<U5, UxAA, End>>, Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>>(o, r, vec![("range", vec![vec![1, 1], vec![1, 135]]), ("range", vec![vec![0, 0], vec![0, 213]])], vec![("all", vec![vec![1, 1], vec![5, 170]])], vec![vec![1, 127], vec![2, 254], vec![5, 255]]);
    fv::<Array<U0, Ux0, Array<U1, UxAA, End>>, Or<ForbiddenRange<U2, U88, U2>, Array<U0, UxFF, Array<U3, Ux1, Array<U5, Ux2, End>>>>, End>(o, r, vec![("all", vec![vec![0, 0], vec![1, 170]])], vec![("range", vec![vec![2, 2], vec![2, 88]]), ("all", vec![vec![0, 255], vec![3, 1], vec![5, 2]])], vec![]);
    fv::<Or<Array<U5, Ux2, End>, Array<U3, UxAA, Array<U4, Ux0, End>>>, Or<Array<U3, UxAA, Array<U5, Ux0, End>>, Or<Array<U0, Ux0, Array<U1, Ux1, Array<U4, Ux0, End>>>, ForbiddenRange<U0, U80, U2>>>, Array<U5, Ux80, End>>(o, r, vec![("all", vec![vec![5, 2]]), ("all", vec![vec![3, 170], vec![4, 0]])], vec![("all", vec![vec![3, 170], vec![5, 0]]), ("all", vec![vec![0, 0], vec![1, 1], vec![4, 0]]), ("range", vec![vec![2, 0], vec![2, 80]])], vec![vec![5, 128]]);
    fv::<ForbiddenRange<U0, U238, U5>, ForbiddenRange<U254, U255, U4>, End>(o, r, vec![("range", vec![vec![5, 0], vec![5, 238]])], vec![("range", vec![vec![4, 254], vec![4, 255]])], vec![]);
    fv::<ForbiddenRange<U0, U184, U1>, End, End>(o, r, vec![("range", vec![vec![1, 0], vec![1, 184]])], vec![], vec![]);
    fv::<Or<Array<U0, Ux0, End>, Or<Array<U1, UxAA, End>, Array<U5, UxFF, End>>>, Array<U3, Ux0, End>, End>(o, r, vec![("all", vec![vec![0, 0]]), ("all", vec![vec![1, 170]]), ("all", vec![vec![5, 255]])], vec![("all", vec![vec![3, 0]])], vec![]);
    fv::<Or<Or<Array<U3, Ux0, Array<U4, Ux2, End>>, Array<U1, Ux0, Array<U3, Ux2, End>>>, Or<Array<U4, Ux0, End>, Array<U0, Ux0, Array<U3, UxAA, Array<U4, Ux2, End>>>>>, Array<U4, Ux0, End>, Array<U5, UxFF, End>>(o, r, vec![("all", vec![vec![3, 0], vec![4, 2]]), ("all", vec![vec![1, 0], vec![3, 2]]), ("all", vec![vec![4, 0]]), ("all", vec![vec![0, 0], vec![3, 170], vec![4, 2]])], vec![("all", vec![vec![4, 0]])], vec![vec![5, 255]]);
    fv::<Or<End, Or<End, Array<U0, Ux0, End>>>, Array<U0, UxAA, Array<U3, UxAA, End>>, End>(o, r, vec![("all", vec![vec![0, 0]])], vec![("all", vec![vec![0, 170], vec![3, 170]])], vec![]);
    fv::<Or<Array<U2, Ux1, Array<U4, Ux0, Array<U5, UxAA, End>>>, Or<Array<U5, UxFF, End>, Array<U2, UxFF, Array<U3, Ux2, Array<U4, Ux0, End>>>>>, Or<Or<Array<U0, Ux1, Array<U1, Ux2, Array<U2, UxAA, End>>>, ForbiddenRange<U1, U77, U0>>, ForbiddenRange<U0, U156, U2>>, End>(o, r, vec![("all", vec![vec![2, 1], vec![4, 0], vec![5, 170]]), ("all", vec![vec![5, 255]]), ("all", vec![vec![2, 255], vec![3, 2], vec![4, 0]])], vec![("all", vec![vec![0, 1], vec![1, 2], vec![2, 170]]), ("range", vec![vec![0, 1], vec![0, 77]]), ("range", vec![vec![2, 0], vec![2, 156]])], vec![]);
    fv::<Array<U0, Ux1, Array<U1, UxFF, Array<U2, Ux2, End>>>, ForbiddenRange<U1, U159, U4>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>>(o, r, vec![("all", vec![vec![0, 1], vec![1, 255], vec![2, 2]])], vec![("range", vec![vec![4, 1], vec![4, 159]])], vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]]);
    fv::<Or<ForbiddenRange<U100, U169, U5>, Array<U3, Ux0, End>>, End, End>(o, r, vec![("range", vec![vec![5, 100], vec![5, 169]]), ("all", vec![vec![3, 0]])], vec![], vec![]);
    fv::<ForbiddenRange<U100, U247, U1>, Or<Array<U3, UxFF, End>, ForbiddenRange<U2, U77, U2>>, Array<U2, UxFF, End>>(o, r, vec![("range", vec![vec![1, 100], vec![1, 247]])], vec![("all", vec![vec![3, 255]]), ("range", vec![vec![2, 2], vec![2, 77]])], vec![vec![2, 255]]);
    fv::<Array<U0, UxFF, Array<U3, UxFF, End>>, Or<Array<U1, Ux0, Array<U3, Ux2, Array<U4, Ux2, End>>>, Array<U2, Ux1, End>>, End>(o, r, vec![("all", vec![vec![0, 255], vec![3, 255]])], vec![("all", vec![vec![1, 0], vec![3, 2], vec![4, 2]]), ("all", vec![vec![2, 1]])], vec![]);
    fv::<Array<U0, Ux2, End>, Array<U4, UxFF, Array<U5, UxAA, End>>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, r, vec![("all", vec![vec![0, 2]])], vec![("all", vec![vec![4, 255], vec![5, 170]])], vec![vec![0, 255], vec![1, 255], vec![2, 255]]);
    fv::<Array<U0, UxAA, Array<U2, Ux2, Array<U3, UxFF, End>>>, Array<U0, UxFF, End>, End>(o, r, vec![("all", vec![vec![0, 170], vec![2, 2], vec![3, 255]])], vec![("all", vec![vec![0, 255]])], vec![]);
    fv::<Array<U1, UxFF, End>, Or<Or<Array<U4, Ux0, Array<U5, Ux1, End>>, Array<U2, UxAA, End>>, Or<ForbiddenRange<U2, U213, U4>, Array<U4, Ux2, End>>>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, r, vec![("all", vec![vec![1, 255]])], vec![("all", vec![vec![4, 0], vec![5, 1]]), ("all", vec![vec![2, 170]]), ("range", vec![vec![4, 2], vec![4, 213]]), ("all", vec![vec![4, 2]])], vec![vec![0, 255], vec![1, 255], vec![2, 255]]);
    fv::<Array<U3, Ux1, End>, End, End>(o, r, vec![("all", vec![vec![3, 1]])], vec![], vec![]);
    fv::<Array<U5, UxFF, End>, End, Array<U1, UxFF, Array<U3, UxFF, End>>>(o, r, vec![("all", vec![vec![5, 255]])], vec![], vec![vec![1, 255], vec![3, 255]]);
    fv::<Or<ForbiddenRange<U2, U104, U0>, Array<U1, UxFF, End>>, Array<U4, Ux1, End>, End>(o, r, vec![("range", vec![vec![0, 2], vec![0, 104]]), ("all", vec![vec![1, 255]])], vec![("all", vec![vec![4, 1]])], vec![]);
    fv::<ForbiddenRange<U254, U255, U0>, Or<Or<Array<U0, Ux1, Array<U2, Ux1, Array<U5, Ux2, End>>>, ForbiddenRange<U0, U220, U4>>, End>, End>(o, r, vec![("range", vec![vec![0, 254], vec![0, 255]])], vec![("all", vec![vec![0, 1], vec![2, 1], vec![5, 2]]), ("range", vec![vec![4, 0], vec![4, 220]])], vec![]);
    fv::<Or<Or<End, Array<U3, Ux0, End>>, ForbiddenRange<U0, U41, U4>>, Array<U2, UxFF, Array<U3, Ux0, Array<U5, Ux1, End>>>, Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>>(o, r, vec![("all", vec![vec![3, 0]]), ("range", vec![vec![4, 0], vec![4, 41]])], vec![("all", vec![vec![2, 255], vec![3, 0], vec![5, 1]])], vec![vec![1, 127], vec![2, 254], vec![5, 255]]);
    fv::<Or<ForbiddenRange<U2, U105, U5>, Or<ForbiddenRange<U1, U45, U2>, ForbiddenRange<U2, U104, U4>>>, Or<Or<Array<U0, UxFF, End>, Array<U3, Ux1, End>>, Or<Array<U0, Ux2, Array<U5, Ux1, End>>, ForbiddenRange<U1, U71, U4>>>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, r, vec![("range", vec![vec![5, 2], vec![5, 105]]), ("range", vec![vec![2, 1], vec![2, 45]]), ("range", vec![vec![4, 2], vec![4, 104]])], vec![("all", vec![vec![0, 255]]), ("all", vec![vec![3, 1]]), ("all", vec![vec![0, 2], vec![5, 1]]), ("range", vec![vec![4, 1], vec![4, 71]])], vec![vec![0, 255], vec![1, 255], vec![2, 255]]);
    fv::<Array<U1, Ux2, Array<U2, Ux1, Array<U5, UxFF, End>>>, Or<ForbiddenRange<U100, U230, U1>, Or<ForbiddenRange<U2, U155, U3>, Array<U3, UxAA, End>>>, Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>>(o, r, vec![("all", vec![vec![1, 2], vec![2, 1], vec![5, 255]])], vec![("range", vec![vec![1, 100], vec![1, 230]]), ("range", vec![vec![3, 2], vec![3, 155]]), ("all", vec![vec![3, 170]])], vec![vec![2, 15], vec![3, 240], vec![4, 128]]);
}
fn fvs_2(o: &mut Out, r: &mut Rng) {
    fv::<Or<ForbiddenRange<U254, U255, U4>, Array<U0, Ux2, Array<U1, Ux0, Array<U4, UxFF, End>>>>, Array<U2, Ux1, End>, Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>>(o, r, vec![("range", vec![vec![4, 254], vec![4, 255]]), ("all", vec![vec![0, 2], vec![1, 0], vec![4, 255]])], vec![("all", vec![vec![2, 1]])], vec![vec![1, 127], vec![2, 254], vec![5, 255]]);
    fv::<ForbiddenRange<U2, U209, U4>, ForbiddenRange<U2, U25, U1>, Array<U0, Ux18, Array<U1, Ux1, Array<U5, UxF0, End>>>>(o, r, vec![("range", vec![vec![4, 2], vec![4, 209]])], vec![("range", vec![vec![1, 2], vec![1, 25]])], vec![vec![0, 24], vec![1, 1], vec![5, 240]]);
    fv::<Or<ForbiddenRange<U100, U219, U5>, Array<U2, Ux1, End>>, End, Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>>(o, r, vec![("range", vec![vec![5, 100], vec![5, 219]]), ("all", vec![vec![2, 1]])], vec![], vec![vec![1, 127], vec![2, 254], vec![5, 255]]);
    fv::<Array<U0, UxFF, Array<U1, Ux2, Array<U3, Ux0, End>>>, Or<Or<Array<U3, Ux0, End>, Array<U1, Ux0, Array<U3, UxAA, End>>>, Or<ForbiddenRange<U1, U147, U3>, ForbiddenRange<U100, U248, U2>>>, Array<U1, UxFF, Array<U3, UxFF, End>>>(o, r, vec![("all", vec![vec![0, 255], vec![1, 2], vec![3, 0]])], vec![("all", vec![vec![3, 0]]), ("all", vec![vec![1, 0], vec![3, 170]]), ("range", vec![vec![3, 1], vec![3, 147]]), ("range", vec![vec![2, 100], vec![2, 248]])], vec![vec![1, 255], vec![3, 255]]);
    fv::<Or<Array<U4, UxAA, End>, Array<U0, Ux2, End>>, Or<Array<U3, UxFF, End>, Array<U2, UxAA, End>>, Array<U0, Ux18, Array<U4, Ux80, End>>>(o, r, vec![("all", vec![vec![4, 170]]), ("all", vec![vec![0, 2]])], vec![("all", vec![vec![3, 255]]), ("all", vec![vec![2, 170]])], vec![vec![0, 24], vec![4, 128]]);
    fv::<Or<Array<U4, UxFF, Array<U5, UxAA, End>>, End>, Array<U3, Ux1, End>, End>(o, r, vec![("all", vec![vec![4, 255], vec![5, 170]])], vec![("all", vec![vec![3, 1]])], vec![]);
    fv::<Array<U1, Ux1, Array<U4, Ux1, End>>, ForbiddenRange<U0, U44, U2>, End>(o, r, vec![("all", vec![vec![1, 1], vec![4, 1]])], vec![("range", vec![vec![2, 0], vec![2, 44]])], vec![]);
    fv::<Or<Or<ForbiddenRange<U100, U224, U1>, ForbiddenRange<U100, U135, U5>>, Or<Array<U4, UxAA, End>, Array<U4, UxFF, End>>>, ForbiddenRange<U1, U155, U3>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, r, vec![("range", vec![vec![1, 100], vec![1, 224]]), ("range", vec![vec![5, 100], vec![5, 135]]), ("all", vec![vec![4, 170]]), ("all", vec![vec![4, 255]])], vec![("range", vec![vec![3, 1], vec![3, 155]])], vec![vec![0, 255], vec![1, 255], vec![2, 255]]);
    fv::<Array<U5, Ux2, End>, End, Array<U3, Ux18, End>>(o, r, vec![("all", vec![vec![5, 2]])], vec![], vec![vec![3, 24]]);
    fv::<Or<End, Or<Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxAA, End>>>, ForbiddenRange<U0, U12, U0>>>, Or<Array<U4, Ux2, Array<U5, Ux0, End>>, Array<U1, Ux0, Array<U2, Ux2, Array<U4, Ux0, End>>>>, Array<U0, UxFF, Array<U4, Ux18, End>>>(o, r, vec![("all", vec![vec![0, 255], vec![1, 255], vec![2, 170]]), ("range", vec![vec![0, 0], vec![0, 12]])], vec![("all", vec![vec![4, 2], vec![5, 0]]), ("all", vec![vec![1, 0], vec![2, 2], vec![4, 0]])], vec![vec![0, 255], vec![4, 24]]);
    fv::<Or<Array<U1, Ux0, Array<U5, Ux1, End>>, ForbiddenRange<U100, U138, U2>>, Or<Array<U0, Ux2, End>, Array<U5, Ux2, End>>, Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>>(o, r, vec![("all", vec![vec![1, 0], vec![5, 1]]), ("range", vec![vec![2, 100], vec![2, 138]])], vec![("all", vec![vec![0, 2]]), ("all", vec![vec![5, 2]])], vec![vec![0, 240], vec![1, 24], vec![4, 1]]);
    fv::<Or<Or<Array<U0, Ux0, Array<U1, Ux0, End>>, Array<U0, UxFF, Array<U1, UxFF, Array<U3, Ux1, End>>>>, Array<U1, Ux1, End>>, Or<Or<ForbiddenRange<U0, U218, U3>, ForbiddenRange<U2, U3, U0>>, Array<U0, Ux0, Array<U1, UxAA, Array<U2, UxFF, End>>>>, Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>>(o, r, vec![("all", vec![vec![0, 0], vec![1, 0]]), ("all", vec![vec![0, 255], vec![1, 255], vec![3, 1]]), ("all", vec![vec![1, 1]])], vec![("range", vec![vec![3, 0], vec![3, 218]]), ("range", vec![vec![0, 2], vec![0, 3]]), ("all", vec![vec![0, 0], vec![1, 170], vec![2, 255]])], vec![vec![0, 240], vec![1, 24], vec![4, 1]]);
    fv::<End, End, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, r, vec![], vec![], vec![vec![0, 255], vec![1, 255], vec![2, 255]]);
    fv::<Or<Array<U3, UxAA, End>, Array<U0, UxAA, Array<U2, UxFF, Array<U4, UxFF, End>>>>, Array<U3, UxAA, End>, Array<U3, UxF, Array<U4, Ux7F, End>>>(o, r, vec![("all", vec![vec![3, 170]]), ("all", vec![vec![0, 170], vec![2, 255], vec![4, 255]])], vec![("all", vec![vec![3, 170]])], vec![vec![3, 15], vec![4, 127]]);
    fv::<Or<Array<U2, UxAA, Array<U4, UxAA, End>>, Or<Array<U2, Ux2, End>, Array<U1, UxFF, End>>>, ForbiddenRange<U254, U255, U4>, End>(o, r, vec![("all", vec![vec![2, 170], vec![4, 170]]), ("all", vec![vec![2, 2]]), ("all", vec![vec![1, 255]])], vec![("range", vec![vec![4, 254], vec![4, 255]])], vec![]);
    fv::<Array<U4, UxFF, End>, Or<Or<Array<U1, Ux2, End>, ForbiddenRange<U2, U184, U3>>, Or<Array<U5, UxAA, End>, Array<U0, Ux1, Array<U3, UxAA, Array<U5, UxAA, End>>>>>, Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>>(o, r, vec![("all", vec![vec![4, 255]])], vec![("all", vec![vec![1, 2]]), ("range", vec![vec![3, 2], vec![3, 184]]), ("all", vec![vec![5, 170]]), ("all", vec![vec![0, 1], vec![3, 170], vec![5, 170]])], vec![vec![2, 15], vec![3, 240], vec![4, 128]]);
    fv::<Array<U5, UxAA, End>, Or<Array<U1, UxAA, End>, Or<Array<U3, Ux1, End>, End>>, End>(o, r, vec![("all", vec![vec![5, 170]])], vec![("all", vec![vec![1, 170]]), ("all", vec![vec![3, 1]])], vec![]);
    fv::<End, ForbiddenRange<U2, U33, U5>, End>(o, r, vec![], vec![("range", vec![vec![5, 2], vec![5, 33]])], vec![]);
    fv::<Or<Array<U4, Ux0, End>, Array<U2, Ux2, End>>, Array<U2, Ux0, End>, End>(o, r, vec![("all", vec![vec![4, 0]]), ("all", vec![vec![2, 2]])], vec![("all", vec![vec![2, 0]])], vec![]);
    fv::<Or<Array<U0, Ux0, Array<U2, Ux2, Array<U4, UxAA, End>>>, Or<ForbiddenRange<U1, U67, U2>, Array<U0, Ux0, Array<U3, Ux0, Array<U5, Ux2, End>>>>>, Or<ForbiddenRange<U100, U137, U4>, Array<U0, Ux0, Array<U3, Ux2, End>>>, End>(o, r, vec![("all", vec![vec![0, 0], vec![2, 2], vec![4, 170]]), ("range", vec![vec![2, 1], vec![2, 67]]), ("all", vec![vec![0, 0], vec![3, 0], vec![5, 2]])], vec![("range", vec![vec![4, 100], vec![4, 137]]), ("all", vec![vec![0, 0], vec![3, 2]])], vec![]);
    fv::<Or<Or<End, ForbiddenRange<U254, U255, U3>>, Array<U0, Ux2, Array<U1, Ux2, Array<U3, UxAA, End>>>>, Or<Array<U1, Ux1, End>, Array<U3, UxFF, Array<U4, Ux2, End>>>, Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>>(o, r, vec![("range", vec![vec![3, 254], vec![3, 255]]), ("all", vec![vec![0, 2], vec![1, 2], vec![3, 170]])], vec![("all", vec![vec![1, 1]]), ("all", vec![vec![3, 255], vec![4, 2]])], vec![vec![0, 240], vec![1, 24], vec![4, 1]]);
    fv::<End, Array<U1, UxFF, End>, Array<U3, UxF, Array<U4, Ux7F, End>>>(o, r, vec![], vec![("all", vec![vec![1, 255]])], vec![vec![3, 15], vec![4, 127]]);
    fv::<End, Or<ForbiddenRange<U2, U19, U4>, Array<U5, Ux0, End>>, Array<U5, Ux80, End>>(o, r, vec![], vec![("range", vec![vec![4, 2], vec![4, 19]]), ("all", vec![vec![5, 0]])], vec![vec![5, 128]]);
    fv::<ForbiddenRange<U1, U200, U3>, Array<U1, Ux1, Array<U2, Ux0, End>>, Array<U0, Ux18, Array<U1, Ux1, Array<U5, UxF0, End>>>>(o, r, vec![("range", vec![vec![3, 1], vec![3, 200]])], vec![("all", vec![vec![1, 1], vec![2, 0]])], vec![vec![0, 24], vec![1, 1], vec![5, 240]]);
    fv::<Array<U1, Ux2, Array<U4, UxAA, End>>, Array<U2, UxFF, Array<U5, UxAA, End>>, End>(o, r, vec![("all", vec![vec![1, 2], vec![4, 170]])], vec![("all", vec![vec![2, 255], vec![5, 170]])], vec![]);
    fv::<Array<U1, Ux1, Array<U5, Ux0, End>>, Array<U2, Ux1, Array<U3, UxAA, Array<U5, Ux0, End>>>, End>(o, r, vec![("all", vec![vec![1, 1], vec![5, 0]])], vec![("all", vec![vec![2, 1], vec![3, 170], vec![5, 0]])], vec![]);
    fv::<Or<Or<Array<U0, UxAA, Array<U1, Ux0, End>>, Array<U2, UxFF, Array<U3, Ux0, End>>>, Array<U2, Ux2, End>>, Array<U0, Ux1, Array<U1, Ux0, End>>, Array<U2, UxFF, End>>(o, r, vec![("all", vec![vec![0, 170], vec![1, 0]]), ("all", vec![vec![2, 255], vec![3, 0]]), ("all", vec![vec![2, 2]])], vec![("all", vec![vec![0, 1], vec![1, 0]])], vec![vec![2, 255]]);
    fv::<Or<ForbiddenRange<U254, U255, U1>, Or<End, ForbiddenRange<U0, U208, U4>>>, Or<Or<Array<U5, Ux2, End>, ForbiddenRange<U2, U225, U5>>, End>, Array<U3, Ux18, End>>(o, r, vec![("range", vec![vec![1, 254], vec![1, 255]]), ("range", vec![vec![4, 0], vec![4, 208]])], vec![("all", vec![vec![5, 2]]), ("range", vec![vec![5, 2], vec![5, 225]])], vec![vec![3, 24]]);
    fv::<Or<Array<U3, Ux0, End>, Or<Array<U0, Ux0, Array<U2, Ux2, Array<U3, UxAA, End>>>, Array<U1, Ux0, Array<U2, Ux0, Array<U4, Ux1, End>>>>>, Or<Array<U2, Ux2, Array<U3, UxAA, End>>, Array<U5, UxAA, End>>, End>(o, r, vec![("all", vec![vec![3, 0]]), ("all", vec![vec![0, 0], vec![2, 2], vec![3, 170]]), ("all", vec![vec![1, 0], vec![2, 0], vec![4, 1]])], vec![("all", vec![vec![2, 2], vec![3, 170]]), ("all", vec![vec![5, 170]])], vec![]);
    fv::<Or<ForbiddenRange<U100, U109, U5>, Or<Array<U2, UxAA, Array<U4, UxAA, Array<U5, Ux2, End>>>, ForbiddenRange<U100, U126, U5>>>, Array<U5, Ux1, End>, Array<U2, UxFF, End>>(o, r, vec![("range", vec![vec![5, 100], vec![5, 109]]), ("all", vec![vec![2, 170], vec![4, 170], vec![5, 2]]), ("range", vec![vec![5, 100], vec![5, 126]])], vec![("all", vec![vec![5, 1]])], vec![vec![2, 255]]);
    fv::<ForbiddenRange<U0, U160, U1>, Or<ForbiddenRange<U1, U68, U4>, Or<ForbiddenRange<U1, U137, U0>, Array<U1, UxFF, Array<U2, UxFF, Array<U3, Ux1, End>>>>>, Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>>(o, r, vec![("range", vec![vec![1, 0], vec![1, 160]])], vec![("range", vec![vec![4, 1], vec![4, 68]]), ("range", vec![vec![0, 1], vec![0, 137]]), ("all", vec![vec![1, 255], vec![2, 255], vec![3, 1]])], vec![vec![0, 240], vec![1, 24], vec![4, 1]]);
    fv::<ForbiddenRange<U0, U17, U5>, Array<U0, UxAA, Array<U1, UxFF, End>>, End>(o, r, vec![("range", vec![vec![5, 0], vec![5, 17]])], vec![("all", vec![vec![0, 170], vec![1, 255]])], vec![]);
    fv::<Array<U0, Ux2, End>, End, End>(o, r, vec![("all", vec![vec![0, 2]])], vec![], vec![]);
    fv::<Or<Or<Array<U2, Ux1, Array<U3, UxAA, End>>, Array<U1, Ux2, Array<U2, Ux0, End>>>, Or<Array<U2, UxAA, End>, Array<U1, Ux2, End>>>, End, End>(o, r, vec![("all", vec![vec![2, 1], vec![3, 170]]), ("all", vec![vec![1, 2], vec![2, 0]]), ("all", vec![vec![2, 170]]), ("all", vec![vec![1, 2]])], vec![], vec![]);
    fv::<ForbiddenRange<U1, U241, U2>, Array<U0, Ux1, End>, Array<U0, Ux18, Array<U1, Ux1, Array<U5, UxF0, End>>>>(o, r, vec![("range", vec![vec![2, 1], vec![2, 241]])], vec![("all", vec![vec![0, 1]])], vec![vec![0, 24], vec![1, 1], vec![5, 240]]);
    fv::<Or<ForbiddenRange<U1, U120, U5>, Or<Array<U0, Ux1, Array<U1, Ux0, Array<U2, Ux0, End>>>, Array<U0, Ux0, Array<U4, Ux2, Array<U5, Ux0, End>>>>>, ForbiddenRange<U100, U135, U4>, End>(o, r, vec![("range", vec![vec![5, 1], vec![5, 120]]), ("all", vec![vec![0, 1], vec![1, 0], vec![2, 0]]), ("all", vec![vec![0, 0], vec![4, 2], vec![5, 0]])], vec![("range", vec![vec![4, 100], vec![4, 135]])], vec![]);
    fv::<End, Or<Array<U4, Ux2, End>, Array<U2, Ux1, End>>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>>(o, r, vec![], vec![("all", vec![vec![4, 2]]), ("all", vec![vec![2, 1]])], vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]]);
    fv::<Array<U2, Ux1, End>, End, Array<U5, UxFF, End>>(o, r, vec![("all", vec![vec![2, 1]])], vec![], vec![vec![5, 255]]);
    fv::<End, End, Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>>(o, r, vec![], vec![], vec![vec![2, 15], vec![3, 240], vec![4, 128]]);
    fv::<End, Array<U0, Ux0, Array<U2, UxFF, End>>, Array<U5, Ux80, End>>(o, r, vec![], vec![("all", vec![vec![0, 0], vec![2, 255]])], vec![vec![5, 128]]);
}
fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a.out, &a.suite);
    let mut rng = Rng::new(a.seed);
    ones_0(&mut out);
    nonzeros_0(&mut out);
    paddings_0(&mut out);
    arrays_0(&mut out);
    arrays_1(&mut out);
    twos_0(&mut out);
    twos_1(&mut out);
    twos_2(&mut out);
    twos_3(&mut out);
    twos_4(&mut out);
    twos_5(&mut out);
    cmps_0(&mut out);
    cmps_1(&mut out);
    cmps_2(&mut out);
    byps_0(&mut out);
    byps_1(&mut out);
    byps_2(&mut out);
    byps_3(&mut out);
    byps_4(&mut out);
    powss_0(&mut out);
    powss_1(&mut out);
    aligns_0(&mut out);
    aligns_1(&mut out);
    logics_0(&mut out);
    logics_1(&mut out);
    maskss_0(&mut out);
    maskss_1(&mut out);
    fvs_0(&mut out, &mut rng);
    fvs_1(&mut out, &mut rng);
    fvs_2(&mut out, &mut rng);
    out.finish();
}
