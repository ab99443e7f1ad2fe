"""Generates harness/src/bin/types.rs (U01)."""
nums=list(range(0,18))+[23,31,32,33,63,64,100,127,128,170,255,256,257,511,512,513,1000]
few=[0,1,2,3,5,6,7,8,12,15,16,31,33,64,100,255,256,1000]
big=[0,1,2,3,4,5,6,7,8,10,13,16,21]
pows=[1,2,4,8,16,32,64,128,256,512]
align=[1,2,4,8,16,32,64,128,256,512,1024]
out='''//! Numbers, truth values and paddings of the type level: everything they compute.
#![allow(clippy::all)]
use stabby_abi::istable::{ForbiddenRange, IBitMask, IForbiddenValues, ISingleForbiddenValue, Or};
use stabby_abi::typenum2::unsigned::{Alignment, Bool, Equal, Greater, IBit, IPowerOf2, IUnsigned, IUnsignedBase, Lesser, NonZero};
use stabby_abi::typenum2::*;
use stabby_abi::{Array, End, IStable, B0, B1};
use std::any::{type_name, TypeId};
use vharness::{args, obj, quiet_panics, Out, Rng, J};
/// The digits of a number, as its type lists them.
fn digits<T: IUnsigned>() -> Vec<i64> {
    let mut d = vec![];
    put::<T>(&mut d, 200);
    d
}
fn put<T: IUnsigned>(d: &mut Vec<i64>, left: usize) {
    // the end is the number that has itself before its last digit
    if type_name::<T>() == type_name::<T::Msb>() || left == 0 {
        return;
    }
    put::<T::Msb>(d, left - 1);
    d.push(<T::Bit as IBit>::BOOL as i64);
}
fn yes<T: IBit>() -> i64 {
    T::BOOL as i64
}
struct Log(Vec<J>);
impl Log {
    fn num<R: IUnsigned>(&mut self, k: &str, a: &[i64], b: &[i64]) {
        self.0.push(obj! {t: "num", k: k, a: a.to_vec(), b: b.to_vec(), r: digits::<R>()});
    }
    fn truth<R: IBit>(&mut self, k: &str, a: &[i64], b: &[i64]) {
        self.0.push(obj! {t: "truth", k: k, a: a.to_vec(), b: b.to_vec(), r: yes::<R>()});
    }
}
fn one<A: IUnsigned>(out: &mut Out, n: i64) where A::Padding: Copy {
    out.begin(&format!("U{n}"));
    let a = digits::<A>();
    let mut l = Log(vec![]);
    l.0.push(obj! {t: "num", k: "self", a: a.clone(), b: Vec::<i64>::new(), r: digits::<A>(), n: n});
    l.num::<A::Increment>("inc", &a, &[]);
    l.num::<A::NextPow2>("bits", &a, &[]);
    l.0.push(obj! {t: "consts", a: a.clone(), r: vec![A::U128 as i64, A::U64 as i64, A::U32 as i64, A::USIZE as i64, A::U16 as i64, A::U8 as i64]});
    out.trace_meta(J::L(vec![]), l.0, J::from(format!("U{n}")));
}
fn nonzero<A: NonZero>(out: &mut Out) {
    let a = digits::<A>();
    out.begin("nonzero");
    let mut l = Log(vec![]);
    l.num::<A::Decrement>("dec", &a, &[]);
    l.num::<<A as NonZero>::TruncateAtRightmostOne>("lowest", &a, &[]);
    l.num::<<A as IUnsigned>::NonZero>("simple", &a, &[]);
    out.trace_meta(J::L(vec![]), l.0, J::from("nonzero"));
}
fn padding<A: IUnsigned>(out: &mut Out) {
    let a = digits::<A>();
    out.begin("padding");
    type P<A> = <A as IUnsigned>::Padding;
    let size = core::mem::size_of::<P<A>>();
    fn mask<M: IBitMask>(size: usize) -> Vec<i64> {
        let all = vec![MASKS];
        all[..size.min(all.len())].to_vec()
    }
    let (u, m) = (mask::<<P<A> as IStable>::UnusedBits>(size), mask::<A::PaddingBitMask>(size));
    let d = vec![digits_val::<<P<A> as IStable>::Size>(), digits_val::<<P<A> as IStable>::Align>()];
    let r = vec![size as i64, core::mem::align_of::<P<A>>() as i64];
    out.trace_meta(J::L(vec![]), vec![obj! {t: "padding", a: a, r: r, d: d, u: u, m: m}], J::from("padding"));
}
fn digits_val<T: IUnsigned>() -> i64 {
    digits::<T>().into_iter().fold(0, |n, d| n * 2 + d)
}
fn array<A: IUnsigned, T: IStable>(out: &mut Out) {
    let a = digits::<A>();
    out.begin("array");
    type Of<A, T> = <A as IUnsignedBase>::Array<T>;
    let r = vec![core::mem::size_of::<Of<A, T>>() as i64, core::mem::align_of::<Of<A, T>>() as i64];
    let d = vec![digits_val::<<Of<A, T> as IStable>::Size>(), digits_val::<<Of<A, T> as IStable>::Align>()];
    out.trace_meta(J::L(vec![]), vec![obj! {t: "array", a: a, s: core::mem::size_of::<T>(), al: core::mem::align_of::<T>(), r: r, d: d}], J::from(format!("array of {}", type_name::<T>())));
}
fn two<A: IUnsigned, B: IUnsigned, const MUL: bool>(out: &mut Out) {
    let (a, b) = (digits::<A>(), digits::<B>());
    let label = format!("{a:?} {b:?}");
    out.begin(&label);
    let mut l = Log(vec![]);
    l.num::<A::BitAnd<B>>("and", &a, &b);
    l.num::<A::BitOr<B>>("or", &a, &b);
    l.num::<A::Add<B>>("add", &a, &b);
    l.num::<A::AbsSub<B>>("sub", &a, &b);
    l.num::<<A as IUnsigned>::Min<B>>("min", &a, &b);
    l.num::<<A as IUnsigned>::Max<B>>("max", &a, &b);
    l.truth::<A::Equal<B>>("eq", &a, &b);
    l.truth::<A::NotEqual<B>>("ne", &a, &b);
    l.truth::<A::Greater<B>>("gt", &a, &b);
    l.truth::<A::GreaterOrEq<B>>("ge", &a, &b);
    l.truth::<A::Smaller<B>>("lt", &a, &b);
    l.truth::<A::SmallerOrEq<B>>("le", &a, &b);
    out.trace_meta(J::L(vec![]), l.0, J::from(label));
}
fn cmp<A: IUnsigned, B: IUnsigned>(out: &mut Out) where A::Cmp<B>: 'static {
    let (a, b) = (digits::<A>(), digits::<B>());
    let label = format!("{a:?} against {b:?}");
    out.begin(&label);
    let mut l = Log(vec![]);
    l.num::<A::Truncate<B>>("trunc", &a, &b);
    l.num::<A::Mul<B>>("mul", &a, &b);
    let c = TypeId::of::<A::Cmp<B>>();
    let r = if c == TypeId::of::<Equal>() { "equal" } else if c == TypeId::of::<Greater>() { "greater" } else if c == TypeId::of::<Lesser>() { "lesser" } else { "none" };
    l.0.push(obj! {t: "cmp", k: "cmp", a: a.clone(), b: b.clone(), r: r});
    out.trace_meta(J::L(vec![]), l.0, J::from(label));
}
fn pow<A: IUnsigned, P: IPowerOf2>(out: &mut Out) {
    let (a, b) = (digits::<A>(), digits::<P>());
    let label = format!("{a:?} by {b:?}");
    out.begin(&label);
    let mut l = Log(vec![]);
    l.num::<A::Mod<P>>("mod", &a, &b);
    l.num::<P::Modulate<A>>("mod", &a, &b);
    l.num::<P::Divide<A>>("divide", &a, &b);
    l.num::<A::NextMultipleOf<P>>("up", &a, &b);
    out.trace_meta(J::L(vec![]), l.0, J::from(label));
}
fn pows<P: IPowerOf2, Q: IPowerOf2>(out: &mut Out) {
    let (a, b) = (digits::<P>(), digits::<Q>());
    out.begin("powers");
    let mut l = Log(vec![]);
    l.num::<P::Log2>("log2", &a, &[]);
    l.num::<<P as IPowerOf2>::Min<Q>>("pmin", &a, &b);
    l.num::<<P as IPowerOf2>::Max<Q>>("pmax", &a, &b);
    out.trace_meta(J::L(vec![]), l.0, J::from("powers"));
}
fn alignments<P: Alignment, Q: Alignment>(out: &mut Out) {
    let (a, b) = (digits::<P>(), digits::<Q>());
    out.begin("alignments");
    let mut l = Log(vec![]);
    l.num::<<P as Alignment>::Max<Q>>("pmax", &a, &b);
    // a type of that size and alignment
    let r = vec![core::mem::size_of::<P::AsUint>() as i64, core::mem::align_of::<P::AsUint>() as i64];
    let d = vec![digits_val::<<P::AsUint as IStable>::Size>(), digits_val::<<P::AsUint as IStable>::Align>()];
    let n = digits_val::<P>();
    l.0.push(obj! {t: "array", a: vec![1i64], s: n, al: n, r: r, d: d});
    out.trace_meta(J::L(vec![]), l.0, J::from("alignments"));
}

fn list(l: &[Vec<i64>]) -> J {
    J::L(l.iter().map(|x| J::from(x.clone())).collect())
}
fn seen<M: IBitMask>() -> Vec<i64> {
    vec![digits_val::<M::ByteAt<U0>>(), digits_val::<M::ByteAt<U1>>(), digits_val::<M::ByteAt<U2>>(), digits_val::<M::ByteAt<U3>>(), digits_val::<M::ByteAt<U4>>(), digits_val::<M::ByteAt<U5>>(), digits_val::<M::ByteAt<U6>>(), digits_val::<M::ByteAt<U7>>(), digits_val::<M::ByteAt<U8>>()]
}
fn masks<M: IBitMask, N: IBitMask>(out: &mut Out, m: Vec<Vec<i64>>, n: Vec<Vec<i64>>, disjoint: bool) where M::ExtractedBitMask: 'static {
    let label = format!("masks {m:?} {n:?}");
    out.begin(&label);
    let mut l = vec![];
    l.push(obj! {t: "mask", k: "self", m: list(&m), n: list(&n), r: seen::<M>()});
    l.push(obj! {t: "mask", k: "and", m: list(&m), n: list(&n), r: seen::<M::BitAnd<N>>()});
    if disjoint {
        l.push(obj! {t: "mask", k: "or", m: list(&m), n: list(&n), r: seen::<M::BitOr<N>>()});
    }
    l.push(obj! {t: "mask", k: "shift", m: list(&m), n: list(&[vec![2, 0]]), r: seen::<M::Shift<U2>>()});
    l.push(obj! {t: "mask", k: "free", m: list(&m), n: list(&n), r: vec![yes::<M::HasFreeByteAt<U0>>(), yes::<M::HasFreeByteAt<U1>>(), yes::<M::HasFreeByteAt<U2>>(), yes::<M::HasFreeByteAt<U3>>(), yes::<M::HasFreeByteAt<U4>>(), yes::<M::HasFreeByteAt<U5>>(), yes::<M::HasFreeByteAt<U6>>(), yes::<M::HasFreeByteAt<U7>>(), yes::<M::HasFreeByteAt<U8>>()]});
    if !m.is_empty() {
        l.push(obj! {t: "extract", m: list(&m), o: digits_val::<M::ExtractedBitByteOffset>(), b: digits_val::<M::ExtractedBitMask>(), r: seen::<M::ExtractBit>()});
    }
    out.trace_meta(J::L(vec![]), l, J::from(label));
}
/// What a single forbidden value is, from the name of its type: `Array<offset, value, rest>`.
fn single(name: &str) -> Vec<Vec<i64>> {
    fn args(s: &str) -> Vec<&str> {
        let (mut depth, mut from, mut l) = (0, 0, vec![]);
        for (i, c) in s.char_indices() {
            match c {
                '<' => depth += 1,
                '>' => depth -= 1,
                ',' if depth == 0 => {
                    l.push(s[from..i].trim());
                    from = i + 1;
                }
                _ => {}
            }
        }
        l.push(s[from..].trim());
        l
    }
    fn number(s: &str) -> i64 {
        match s.split_once('<') {
            None => 0,
            Some((_, rest)) => {
                let a = args(&rest[..rest.len() - 1]);
                let bit = a[1].ends_with("B1") || a[1].ends_with("Bool<true>");
                2 * number(a[0]) + bit as i64
            }
        }
    }
    match name.split_once('<') {
        None => vec![],
        Some((_, rest)) => {
            let a = args(&rest[..rest.len() - 1]);
            let mut l = vec![vec![number(a[0]), number(a[1])]];
            l.extend(single(a[2]));
            l
        }
    }
}
type Set = Vec<(&'static str, Vec<Vec<i64>>)>;
fn sets(s: &Set) -> J {
    J::L(s.iter().map(|(k, l)| obj! {k: *k, l: list(l)}).collect())
}
fn fv<F: IForbiddenValues, G: IForbiddenValues, M: IBitMask>(out: &mut Out, rng: &mut Rng, f: Set, g: Set, m: Vec<Vec<i64>>) {
    let label = format!("forbidden {f:?} {g:?} {m:?}");
    out.begin(&label);
    let mut l = vec![];
    l.push(obj! {t: "select", f: sets(&f), m: list(&m), r: list(&single(type_name::<<F::SelectFrom<M> as ISingleForbiddenValue>::Resolve>()))});
    l.push(obj! {t: "selectone", f: sets(&f), r: list(&single(type_name::<<F::SelectOne as ISingleForbiddenValue>::Resolve>()))});
    for _ in 0..12 {
        // bytes that may well be forbidden
        let mut b = [0u8; 16];
        b.iter_mut().for_each(|b| *b = *rng.pick(&[0, 1, 2, 255, 170, 100, 253, 254, 99]));
        let (s, by) = if rng.chance(1, 2) { (&f, 0) } else { (&g, 0) };
        if !s.is_empty() {
            let (k, x) = rng.pick(&s[..]);
            let shift = by + 2 * rng.below(2);
            for (i, p) in x.iter().enumerate() {
                if *k == "all" || i == 0 || rng.chance(1, 2) {
                    b[p[0] as usize + shift] = (p[1] + rng.below(3) as i64 * rng.below(2) as i64) as u8;
                }
            }
        }
        let bj: Vec<i64> = b.iter().map(|b| *b as i64).collect();
        // SAFETY: all bytes are initialised, and the sets look at the first 8.
        unsafe {
            let p = b.as_ptr();
            l.push(obj! {t: "invalid", f: sets(&f), by: 0, b: bj.clone(), r: F::is_invalid(p) as i64});
            l.push(obj! {t: "invalid", f: sets(&f), by: 2, b: bj.clone(), r: <F::Shift<U2> as IForbiddenValues>::is_invalid(p) as i64});
            let mut both = f.clone();
            both.extend(g.clone());
            l.push(obj! {t: "invalid", f: sets(&both), by: 0, b: bj.clone(), r: <F::Or<G> as IForbiddenValues>::is_invalid(p) as i64});
        }
    }
    out.trace_meta(J::L(vec![]), l, J::from(label));
}
fn logic<A: IBit, B: IBit, C: IBit>(out: &mut Out) {
    let (a, b, c) = (yes::<A>(), yes::<B>(), yes::<C>());
    out.begin("logic");
    let mut l = vec![];
    let mut p = |k: &str, r: i64| l.push(obj! {t: "logic", k: k, a: a, b: b, c: c, r: r});
    p("and", yes::<A::And<B>>());
    p("or", yes::<A::Or<B>>());
    p("not", yes::<A::Not>());
    p("nand", yes::<A::Nand<B>>());
    p("xor", yes::<A::Xor<B>>());
    p("equals", yes::<A::Equals<B>>());
    p("sum", yes::<A::AdderSum<B, C>>());
    p("carry", yes::<A::AdderCarry<B, C>>());
    p("diff", yes::<A::SuberSum<B, C>>());
    p("borrow", yes::<A::SuberCarry<B, C>>());
    p("ternary", yes::<A::BTernary<B, C>>());
    let num = |d: Vec<i64>| (d == [1]) as i64;
    p("ternary", num(digits::<A::UTernary<B::UTernary<U1, U0>, C::UTernary<U1, U0>>>()));
    p("ternary", num(digits::<A::NzTernary<B::NzTernary<U1, U3>, C::NzTernary<U1, U3>>>()));
    p("ternary", num(digits::<A::PTernary<B::PTernary<U1, U4>, C::PTernary<U1, U4>>>()));
    p("ternary", (core::mem::size_of::<A::StabTernary<B::StabTernary<u8, u16>, C::StabTernary<u8, u16>>>() == 1) as i64);
    out.trace_meta(J::L(vec![]), l, J::from("logic"));
}
'''
def calls(fn, items, per=60, rng=False):
    """Split into functions, as one with thousands of calls is slow to compile."""
    global out
    names=[]
    for i in range(0,len(items),per):
        nm=f"{fn}_{i//per}"; names.append(nm)
        out+=f"fn {nm}(o: &mut Out{", r: &mut Rng" if rng else ""}) {{\n"+''.join(f"    {x}\n" for x in items[i:i+per])+"}\n"
    return ''.join(f"    {n}(&mut out{', &mut rng' if rng else ''});\n" for n in names)
m=''
m+=calls('ones',[f"one::<U{n}>(o, {n});" for n in nums]+[f"one::<U2pow{k}>(o, {2**k});" for k in (10,16,20)]+["one::<Ux2A>(o, 42);","one::<Ub101010>(o, 42);","one::<U10pow3>(o, 1000);","one::<Ux3E8>(o, 1000);"])
m+=calls('nonzeros',[f"nonzero::<U{n}>(o);" for n in nums if n])
m+=calls('paddings',[f"padding::<U{n}>(o);" for n in list(range(0,18))+[31,32,33]])
T=['u8','u16','u64','(u16, u8)'.replace('(u16, u8)','stabby_abi::Tuple<u16, u8>'),'core::num::NonZeroU32']
m+=calls('arrays',[f"array::<U{n}, {t}>(o);" for n in list(range(0,18))+[31,33,100] for t in T])
m+=calls('twos',[f"two::<U{a}, U{b}, false>(o);" for a in few for b in few])
m+=calls('cmps',[f"cmp::<U{a}, U{b}>(o);" for a in big for b in big])
m+=calls('byps',[f"pow::<U{a}, U{b}>(o);" for a in nums for b in pows if b in (1,2,4,8,16,64,256)])
m+=calls('powss',[f"pows::<U{a}, U{b}>(o);" for a in pows for b in pows])
m+=calls('aligns',[f"alignments::<U{a}, U{b}>(o);" for a in align for b in align if a in (1,2,8,16,32,1024) or a==b])
bits=['B0','B1','Bool<false>','Bool<true>']
m+=calls('logics',[f"logic::<{a}, {b}, {c}>(o);" for a in bits for b in bits for c in bits])
mc=['masks::<Array<U0, Ux18, Array<U4, Ux80, End>>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, vec![vec![0, 24], vec![4, 128]], vec![vec![0, 255], vec![1, 255], vec![2, 255]], false);', 'masks::<Array<U0, Ux18, Array<U4, Ux80, End>>, Array<U5, UxFF, End>>(o, vec![vec![0, 24], vec![4, 128]], vec![vec![5, 255]], true);', 'masks::<Array<U3, Ux18, End>, End>(o, vec![vec![3, 24]], vec![], true);', 'masks::<Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>, Array<U0, Ux18, Array<U4, Ux80, End>>>(o, vec![vec![1, 127], vec![2, 254], vec![5, 255]], vec![vec![0, 24], vec![4, 128]], true);', 'masks::<End, Array<U2, Ux7F, Array<U5, Ux7F, End>>>(o, vec![], vec![vec![2, 127], vec![5, 127]], true);', 'masks::<End, Array<U0, Ux18, Array<U1, Ux1, Array<U5, UxF0, End>>>>(o, vec![], vec![vec![0, 24], vec![1, 1], vec![5, 240]], true);', 'masks::<Array<U0, UxFF, Array<U4, Ux18, End>>, End>(o, vec![vec![0, 255], vec![4, 24]], vec![], true);', 'masks::<Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, vec![vec![1, 127], vec![2, 254], vec![5, 255]], vec![vec![0, 255], vec![1, 255], vec![2, 255]], false);', 'masks::<End, Array<U0, Ux18, Array<U1, Ux1, Array<U5, UxF0, End>>>>(o, vec![], vec![vec![0, 24], vec![1, 1], vec![5, 240]], true);', 'masks::<End, Array<U2, UxFF, End>>(o, vec![], vec![vec![2, 255]], true);', 'masks::<Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>, End>(o, vec![vec![1, 127], vec![2, 254], vec![5, 255]], vec![], true);', 'masks::<Array<U1, UxFF, Array<U3, UxFF, End>>, End>(o, vec![vec![1, 255], vec![3, 255]], vec![], true);', 'masks::<End, Array<U0, UxFF, Array<U1, Ux18, Array<U3, UxFE, End>>>>(o, vec![], vec![vec![0, 255], vec![1, 24], vec![3, 254]], true);', 'masks::<Array<U3, UxF, Array<U4, Ux7F, End>>, End>(o, vec![vec![3, 15], vec![4, 127]], vec![], true);', 'masks::<Array<U3, Ux18, End>, End>(o, vec![vec![3, 24]], vec![], true);', 'masks::<End, End>(o, vec![], vec![], true);', 'masks::<Array<U0, Ux18, Array<U1, Ux1, Array<U5, UxF0, End>>>, End>(o, vec![vec![0, 24], vec![1, 1], vec![5, 240]], vec![], true);', 'masks::<Array<U2, Ux7F, Array<U5, Ux7F, End>>, End>(o, vec![vec![2, 127], vec![5, 127]], vec![], true);', 'masks::<Array<U2, UxFF, End>, Array<U2, UxFF, End>>(o, vec![vec![2, 255]], vec![vec![2, 255]], false);', 'masks::<Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>, Array<U3, Ux18, End>>(o, vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]], vec![vec![3, 24]], false);', 'masks::<Array<U0, Ux18, Array<U4, Ux80, End>>, Array<U0, UxFF, Array<U1, Ux18, Array<U3, UxFE, End>>>>(o, vec![vec![0, 24], vec![4, 128]], vec![vec![0, 255], vec![1, 24], vec![3, 254]], false);', 'masks::<End, Array<U2, UxFF, End>>(o, vec![], vec![vec![2, 255]], true);', 'masks::<Array<U5, Ux80, End>, Array<U5, UxFF, End>>(o, vec![vec![5, 128]], vec![vec![5, 255]], false);', 'masks::<End, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, vec![], vec![vec![0, 255], vec![1, 255], vec![2, 255]], true);', 'masks::<End, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>>(o, vec![], vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]], true);', 'masks::<Array<U5, Ux80, End>, Array<U5, UxFF, End>>(o, vec![vec![5, 128]], vec![vec![5, 255]], false);', 'masks::<End, End>(o, vec![], vec![], true);', 'masks::<End, Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>>(o, vec![], vec![vec![1, 127], vec![2, 254], vec![5, 255]], true);', 'masks::<Array<U2, UxFF, End>, End>(o, vec![vec![2, 255]], vec![], true);', 'masks::<End, Array<U0, Ux18, Array<U4, Ux80, End>>>(o, vec![], vec![vec![0, 24], vec![4, 128]], true);', 'masks::<Array<U0, UxFF, Array<U1, Ux18, Array<U3, UxFE, End>>>, End>(o, vec![vec![0, 255], vec![1, 24], vec![3, 254]], vec![], true);', 'masks::<End, Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>>(o, vec![], vec![vec![1, 127], vec![2, 254], vec![5, 255]], true);', 'masks::<End, Array<U1, UxFF, Array<U3, UxFF, End>>>(o, vec![], vec![vec![1, 255], vec![3, 255]], true);', 'masks::<Array<U3, Ux18, End>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, vec![vec![3, 24]], vec![vec![0, 255], vec![1, 255], vec![2, 255]], true);', 'masks::<End, Array<U0, UxFF, Array<U1, Ux18, Array<U3, UxFE, End>>>>(o, vec![], vec![vec![0, 255], vec![1, 24], vec![3, 254]], true);', 'masks::<Array<U5, UxFF, End>, Array<U0, Ux18, Array<U1, Ux1, Array<U5, UxF0, End>>>>(o, vec![vec![5, 255]], vec![vec![0, 24], vec![1, 1], vec![5, 240]], false);', 'masks::<Array<U1, UxFF, Array<U3, UxFF, End>>, End>(o, vec![vec![1, 255], vec![3, 255]], vec![], true);', 'masks::<End, Array<U5, Ux80, End>>(o, vec![], vec![vec![5, 128]], true);', 'masks::<End, Array<U3, UxF, Array<U4, Ux7F, End>>>(o, vec![], vec![vec![3, 15], vec![4, 127]], true);', 'masks::<End, Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>>(o, vec![], vec![vec![0, 240], vec![1, 24], vec![4, 1]], true);', 'masks::<End, End>(o, vec![], vec![], true);', 'masks::<Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>, Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>>(o, vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]], vec![vec![2, 15], vec![3, 240], vec![4, 128]], false);', 'masks::<Array<U3, UxF, Array<U4, Ux7F, End>>, Array<U0, UxFF, Array<U4, Ux18, End>>>(o, vec![vec![3, 15], vec![4, 127]], vec![vec![0, 255], vec![4, 24]], false);', 'masks::<Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>, Array<U2, Ux7F, Array<U5, Ux7F, End>>>(o, vec![vec![1, 127], vec![2, 254], vec![5, 255]], vec![vec![2, 127], vec![5, 127]], false);', 'masks::<End, End>(o, vec![], vec![], true);', 'masks::<Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>, End>(o, vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]], vec![], true);', 'masks::<Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>, Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>>(o, vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]], vec![vec![1, 127], vec![2, 254], vec![5, 255]], false);', 'masks::<Array<U0, UxFF, End>, Array<U5, Ux80, End>>(o, vec![vec![0, 255]], vec![vec![5, 128]], true);', 'masks::<Array<U2, UxFF, End>, Array<U2, UxFF, End>>(o, vec![vec![2, 255]], vec![vec![2, 255]], false);', 'masks::<Array<U2, UxFF, End>, Array<U2, UxFF, End>>(o, vec![vec![2, 255]], vec![vec![2, 255]], false);', 'masks::<End, Array<U3, Ux18, End>>(o, vec![], vec![vec![3, 24]], true);', 'masks::<Array<U0, UxFF, Array<U4, Ux18, End>>, Array<U2, UxFF, End>>(o, vec![vec![0, 255], vec![4, 24]], vec![vec![2, 255]], true);', 'masks::<End, End>(o, vec![], vec![], true);', 'masks::<Array<U0, Ux18, Array<U4, Ux80, End>>, End>(o, vec![vec![0, 24], vec![4, 128]], vec![], true);', 'masks::<End, Array<U0, UxFF, Array<U1, Ux18, Array<U3, UxFE, End>>>>(o, vec![], vec![vec![0, 255], vec![1, 24], vec![3, 254]], true);', 'masks::<End, Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>>(o, vec![], vec![vec![0, 240], vec![1, 24], vec![4, 1]], true);', 'masks::<Array<U3, UxF, Array<U4, Ux7F, End>>, End>(o, vec![vec![3, 15], vec![4, 127]], vec![], true);', 'masks::<End, Array<U1, UxFF, Array<U3, UxFF, End>>>(o, vec![], vec![vec![1, 255], vec![3, 255]], true);', 'masks::<End, End>(o, vec![], vec![], true);', 'masks::<Array<U5, Ux80, End>, End>(o, vec![vec![5, 128]], vec![], true);', 'masks::<End, Array<U3, UxF, Array<U4, Ux7F, End>>>(o, vec![], vec![vec![3, 15], vec![4, 127]], true);', 'masks::<Array<U1, UxFF, Array<U3, UxFF, End>>, Array<U0, Ux18, Array<U4, Ux80, End>>>(o, vec![vec![1, 255], vec![3, 255]], vec![vec![0, 24], vec![4, 128]], true);', 'masks::<Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>, End>(o, vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]], vec![], true);', 'masks::<Array<U3, UxF, Array<U4, Ux7F, End>>, Array<U2, UxFF, End>>(o, vec![vec![3, 15], vec![4, 127]], vec![vec![2, 255]], true);', 'masks::<End, Array<U0, UxFF, Array<U4, Ux18, End>>>(o, vec![], vec![vec![0, 255], vec![4, 24]], true);', 'masks::<Array<U5, UxFF, End>, End>(o, vec![vec![5, 255]], vec![], true);', 'masks::<Array<U3, UxF, Array<U4, Ux7F, End>>, End>(o, vec![vec![3, 15], vec![4, 127]], vec![], true);', 'masks::<Array<U3, Ux18, End>, End>(o, vec![vec![3, 24]], vec![], true);', 'masks::<End, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>>(o, vec![], vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]], true);', 'masks::<Array<U3, Ux18, End>, End>(o, vec![vec![3, 24]], vec![], true);', 'masks::<Array<U3, Ux18, End>, Array<U3, Ux18, End>>(o, vec![vec![3, 24]], vec![vec![3, 24]], false);', 'masks::<Array<U0, Ux18, Array<U1, Ux1, Array<U5, UxF0, End>>>, Array<U0, Ux18, Array<U4, Ux80, End>>>(o, vec![vec![0, 24], vec![1, 1], vec![5, 240]], vec![vec![0, 24], vec![4, 128]], false);', 'masks::<End, End>(o, vec![], vec![], true);', 'masks::<Array<U2, Ux7F, Array<U5, Ux7F, End>>, Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>>(o, vec![vec![2, 127], vec![5, 127]], vec![vec![0, 240], vec![1, 24], vec![4, 1]], true);', 'masks::<Array<U2, Ux7F, Array<U5, Ux7F, End>>, Array<U5, UxFF, End>>(o, vec![vec![2, 127], vec![5, 127]], vec![vec![5, 255]], false);', 'masks::<Array<U3, Ux18, End>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, vec![vec![3, 24]], vec![vec![0, 255], vec![1, 255], vec![2, 255]], true);', 'masks::<End, Array<U0, UxFF, Array<U1, Ux18, Array<U3, UxFE, End>>>>(o, vec![], vec![vec![0, 255], vec![1, 24], vec![3, 254]], true);', 'masks::<Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>, Array<U1, UxFF, Array<U3, UxFF, End>>>(o, vec![vec![2, 15], vec![3, 240], vec![4, 128]], vec![vec![1, 255], vec![3, 255]], false);', 'masks::<End, Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>>(o, vec![], vec![vec![2, 15], vec![3, 240], vec![4, 128]], true);', 'masks::<End, End>(o, vec![], vec![], true);', 'masks::<End, Array<U5, Ux80, End>>(o, vec![], vec![vec![5, 128]], true);', 'masks::<Array<U1, UxFF, Array<U3, UxFF, End>>, End>(o, vec![vec![1, 255], vec![3, 255]], vec![], true);', 'masks::<Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>, Array<U0, Ux18, Array<U1, Ux1, Array<U5, UxF0, End>>>>(o, vec![vec![2, 15], vec![3, 240], vec![4, 128]], vec![vec![0, 24], vec![1, 1], vec![5, 240]], true);', 'masks::<Array<U0, UxFF, Array<U4, Ux18, End>>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>>(o, vec![vec![0, 255], vec![4, 24]], vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]], false);', 'masks::<Array<U0, Ux18, Array<U4, Ux80, End>>, End>(o, vec![vec![0, 24], vec![4, 128]], vec![], true);', 'masks::<Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>, Array<U5, UxFF, End>>(o, vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]], vec![vec![5, 255]], false);', 'masks::<Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>, End>(o, vec![vec![2, 15], vec![3, 240], vec![4, 128]], vec![], true);', 'masks::<Array<U0, UxFF, Array<U1, Ux18, Array<U3, UxFE, End>>>, End>(o, vec![vec![0, 255], vec![1, 24], vec![3, 254]], vec![], true);', 'masks::<End, End>(o, vec![], vec![], true);', 'masks::<Array<U5, Ux80, End>, Array<U5, Ux80, End>>(o, vec![vec![5, 128]], vec![vec![5, 128]], false);', 'masks::<End, Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>>(o, vec![], vec![vec![2, 15], vec![3, 240], vec![4, 128]], true);', 'masks::<Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>, Array<U0, UxFF, Array<U4, Ux18, End>>>(o, vec![vec![0, 240], vec![1, 24], vec![4, 1]], vec![vec![0, 255], vec![4, 24]], false);', 'masks::<End, Array<U3, UxF, Array<U4, Ux7F, End>>>(o, vec![], vec![vec![3, 15], vec![4, 127]], true);', 'masks::<Array<U0, UxFF, End>, Array<U0, UxFF, End>>(o, vec![vec![0, 255]], vec![vec![0, 255]], false);', 'masks::<End, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>>(o, vec![], vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]], true);', 'masks::<End, Array<U0, UxFF, End>>(o, vec![], vec![vec![0, 255]], true);', 'masks::<End, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, vec![], vec![vec![0, 255], vec![1, 255], vec![2, 255]], true);', 'masks::<Array<U2, UxFF, End>, Array<U2, Ux7F, Array<U5, Ux7F, End>>>(o, vec![vec![2, 255]], vec![vec![2, 127], vec![5, 127]], false);', 'masks::<Array<U0, UxFF, End>, End>(o, vec![vec![0, 255]], vec![], true);', 'masks::<End, Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>>(o, vec![], vec![vec![2, 15], vec![3, 240], vec![4, 128]], true);', 'masks::<Array<U3, Ux18, End>, End>(o, vec![vec![3, 24]], vec![], true);', 'masks::<Array<U2, Ux7F, Array<U5, Ux7F, End>>, Array<U1, UxFF, Array<U3, UxFF, End>>>(o, vec![vec![2, 127], vec![5, 127]], vec![vec![1, 255], vec![3, 255]], true);', 'masks::<Array<U1, UxFF, Array<U3, UxFF, End>>, Array<U0, UxFF, End>>(o, vec![vec![1, 255], vec![3, 255]], vec![vec![0, 255]], true);', 'masks::<Array<U5, UxFF, End>, Array<U3, Ux18, End>>(o, vec![vec![5, 255]], vec![vec![3, 24]], true);', 'masks::<Array<U5, UxFF, End>, End>(o, vec![vec![5, 255]], vec![], true);', 'masks::<End, Array<U3, UxF, Array<U4, Ux7F, End>>>(o, vec![], vec![vec![3, 15], vec![4, 127]], true);', 'masks::<End, End>(o, vec![], vec![], true);', 'masks::<Array<U0, UxFF, End>, Array<U2, Ux7F, Array<U5, Ux7F, End>>>(o, vec![vec![0, 255]], vec![vec![2, 127], vec![5, 127]], true);', 'masks::<End, End>(o, vec![], vec![], true);', 'masks::<Array<U0, Ux18, Array<U4, Ux80, End>>, End>(o, vec![vec![0, 24], vec![4, 128]], vec![], true);', 'masks::<End, End>(o, vec![], vec![], true);', 'masks::<Array<U3, Ux18, End>, End>(o, vec![vec![3, 24]], vec![], true);', 'masks::<Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>, End>(o, vec![vec![0, 240], vec![1, 24], vec![4, 1]], vec![], true);', 'masks::<Array<U3, Ux18, End>, Array<U3, UxF, Array<U4, Ux7F, End>>>(o, vec![vec![3, 24]], vec![vec![3, 15], vec![4, 127]], false);', 'masks::<Array<U3, UxF, Array<U4, Ux7F, End>>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, vec![vec![3, 15], vec![4, 127]], vec![vec![0, 255], vec![1, 255], vec![2, 255]], true);', 'masks::<Array<U1, UxFF, Array<U3, UxFF, End>>, Array<U3, Ux18, End>>(o, vec![vec![1, 255], vec![3, 255]], vec![vec![3, 24]], false);', 'masks::<Array<U0, UxFF, Array<U4, Ux18, End>>, End>(o, vec![vec![0, 255], vec![4, 24]], vec![], true);', 'masks::<Array<U0, UxFF, End>, Array<U0, UxFF, Array<U4, Ux18, End>>>(o, vec![vec![0, 255]], vec![vec![0, 255], vec![4, 24]], false);', 'masks::<Array<U0, Ux18, Array<U4, Ux80, End>>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, vec![vec![0, 24], vec![4, 128]], vec![vec![0, 255], vec![1, 255], vec![2, 255]], false);', 'masks::<Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>, End>(o, vec![vec![1, 127], vec![2, 254], vec![5, 255]], vec![], true);']
fc=['fv::<Array<U3, Ux1, End>, Or<ForbiddenRange<U100, U219, U3>, ForbiddenRange<U1, U45, U1>>, Array<U1, UxFF, Array<U3, UxFF, End>>>(o, r, vec![("all", vec![vec![3, 1]])], vec![("range", vec![vec![3, 100], vec![3, 219]]), ("range", vec![vec![1, 1], vec![1, 45]])], vec![vec![1, 255], vec![3, 255]]);', 'fv::<Or<Array<U4, UxAA, End>, Array<U1, UxAA, Array<U4, Ux1, End>>>, End, Array<U0, UxFF, End>>(o, r, vec![("all", vec![vec![4, 170]]), ("all", vec![vec![1, 170], vec![4, 1]])], vec![], vec![vec![0, 255]]);', 'fv::<Array<U3, Ux1, End>, ForbiddenRange<U2, U57, U2>, Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>>(o, r, vec![("all", vec![vec![3, 1]])], vec![("range", vec![vec![2, 2], vec![2, 57]])], vec![vec![2, 15], vec![3, 240], vec![4, 128]]);', 'fv::<Or<ForbiddenRange<U100, U134, U0>, Array<U3, UxAA, Array<U4, Ux1, Array<U5, UxAA, End>>>>, Or<Array<U4, Ux0, End>, ForbiddenRange<U1, U123, U4>>, Array<U2, Ux7F, Array<U5, Ux7F, End>>>(o, r, vec![("range", vec![vec![0, 100], vec![0, 134]]), ("all", vec![vec![3, 170], vec![4, 1], vec![5, 170]])], vec![("all", vec![vec![4, 0]]), ("range", vec![vec![4, 1], vec![4, 123]])], vec![vec![2, 127], vec![5, 127]]);', 'fv::<Or<End, Array<U0, Ux1, Array<U4, Ux1, Array<U5, Ux2, End>>>>, End, End>(o, r, vec![("all", vec![vec![0, 1], vec![4, 1], vec![5, 2]])], vec![], vec![]);', 'fv::<Array<U3, Ux2, End>, Array<U5, Ux2, End>, End>(o, r, vec![("all", vec![vec![3, 2]])], vec![("all", vec![vec![5, 2]])], vec![]);', 'fv::<Array<U5, UxAA, End>, Array<U1, UxFF, Array<U4, Ux1, End>>, End>(o, r, vec![("all", vec![vec![5, 170]])], vec![("all", vec![vec![1, 255], vec![4, 1]])], vec![]);', 'fv::<Or<Or<End, ForbiddenRange<U2, U203, U0>>, ForbiddenRange<U2, U39, U2>>, Array<U5, Ux0, End>, Array<U2, UxFF, End>>(o, r, vec![("range", vec![vec![0, 2], vec![0, 203]]), ("range", vec![vec![2, 2], vec![2, 39]])], vec![("all", vec![vec![5, 0]])], vec![vec![2, 255]]);', 'fv::<ForbiddenRange<U1, U43, U5>, Or<Array<U2, Ux2, End>, Or<Array<U0, Ux2, Array<U3, UxAA, Array<U5, UxAA, End>>>, Array<U1, Ux0, End>>>, Array<U0, Ux18, Array<U4, Ux80, End>>>(o, r, vec![("range", vec![vec![5, 1], vec![5, 43]])], vec![("all", vec![vec![2, 2]]), ("all", vec![vec![0, 2], vec![3, 170], vec![5, 170]]), ("all", vec![vec![1, 0]])], vec![vec![0, 24], vec![4, 128]]);', 'fv::<Or<End, ForbiddenRange<U1, U211, U3>>, Array<U1, UxAA, Array<U3, UxAA, End>>, End>(o, r, vec![("range", vec![vec![3, 1], vec![3, 211]])], vec![("all", vec![vec![1, 170], vec![3, 170]])], vec![]);', 'fv::<Or<Or<Array<U3, Ux0, End>, ForbiddenRange<U0, U206, U2>>, Or<ForbiddenRange<U0, U117, U0>, Array<U1, Ux0, Array<U4, UxAA, End>>>>, Array<U2, Ux0, End>, Array<U0, UxFF, Array<U1, Ux18, Array<U3, UxFE, End>>>>(o, r, vec![("all", vec![vec![3, 0]]), ("range", vec![vec![2, 0], vec![2, 206]]), ("range", vec![vec![0, 0], vec![0, 117]]), ("all", vec![vec![1, 0], vec![4, 170]])], vec![("all", vec![vec![2, 0]])], vec![vec![0, 255], vec![1, 24], vec![3, 254]]);', 'fv::<Or<Or<Array<U3, Ux1, Array<U4, Ux2, End>>, ForbiddenRange<U2, U12, U0>>, End>, Array<U0, UxFF, Array<U1, UxFF, Array<U3, UxAA, End>>>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, r, vec![("all", vec![vec![3, 1], vec![4, 2]]), ("range", vec![vec![0, 2], vec![0, 12]])], vec![("all", vec![vec![0, 255], vec![1, 255], vec![3, 170]])], vec![vec![0, 255], vec![1, 255], vec![2, 255]]);', 'fv::<Array<U1, Ux1, Array<U5, Ux2, End>>, Or<Array<U3, Ux2, End>, Array<U0, Ux2, End>>, End>(o, r, vec![("all", vec![vec![1, 1], vec![5, 2]])], vec![("all", vec![vec![3, 2]]), ("all", vec![vec![0, 2]])], vec![]);', 'fv::<Or<Or<Array<U1, Ux2, Array<U4, Ux0, End>>, ForbiddenRange<U100, U101, U2>>, Or<Array<U0, Ux2, Array<U1, Ux1, End>>, ForbiddenRange<U100, U122, U3>>>, Or<ForbiddenRange<U0, U24, U2>, ForbiddenRange<U254, U255, U3>>, Array<U1, UxFF, Array<U3, UxFF, End>>>(o, r, vec![("all", vec![vec![1, 2], vec![4, 0]]), ("range", vec![vec![2, 100], vec![2, 101]]), ("all", vec![vec![0, 2], vec![1, 1]]), ("range", vec![vec![3, 100], vec![3, 122]])], vec![("range", vec![vec![2, 0], vec![2, 24]]), ("range", vec![vec![3, 254], vec![3, 255]])], vec![vec![1, 255], vec![3, 255]]);', 'fv::<Or<ForbiddenRange<U254, U255, U5>, Array<U1, Ux2, Array<U2, UxAA, Array<U3, Ux1, End>>>>, End, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, r, vec![("range", vec![vec![5, 254], vec![5, 255]]), ("all", vec![vec![1, 2], vec![2, 170], vec![3, 1]])], vec![], vec![vec![0, 255], vec![1, 255], vec![2, 255]]);', 'fv::<Array<U1, UxAA, Array<U4, UxAA, Array<U5, UxAA, End>>>, Array<U0, Ux0, End>, End>(o, r, vec![("all", vec![vec![1, 170], vec![4, 170], vec![5, 170]])], vec![("all", vec![vec![0, 0]])], vec![]);', 'fv::<Or<Or<Array<U5, Ux0, End>, Array<U0, Ux0, Array<U2, UxAA, Array<U3, UxAA, End>>>>, Or<Array<U0, Ux1, Array<U2, Ux1, Array<U5, Ux1, End>>>, Array<U0, Ux2, Array<U3, Ux0, Array<U5, UxAA, End>>>>>, ForbiddenRange<U254, U255, U2>, Array<U5, UxFF, End>>(o, r, vec![("all", vec![vec![5, 0]]), ("all", vec![vec![0, 0], vec![2, 170], vec![3, 170]]), ("all", vec![vec![0, 1], vec![2, 1], vec![5, 1]]), ("all", vec![vec![0, 2], vec![3, 0], vec![5, 170]])], vec![("range", vec![vec![2, 254], vec![2, 255]])], vec![vec![5, 255]]);', 'fv::<Array<U0, UxFF, End>, End, Array<U5, UxFF, End>>(o, r, vec![("all", vec![vec![0, 255]])], vec![], vec![vec![5, 255]]);', 'fv::<ForbiddenRange<U1, U174, U3>, Or<Array<U0, Ux2, Array<U1, Ux0, Array<U4, UxFF, End>>>, End>, End>(o, r, vec![("range", vec![vec![3, 1], vec![3, 174]])], vec![("all", vec![vec![0, 2], vec![1, 0], vec![4, 255]])], vec![]);', 'fv::<End, Array<U1, Ux1, Array<U3, Ux0, End>>, End>(o, r, vec![], vec![("all", vec![vec![1, 1], vec![3, 0]])], vec![]);', 'fv::<Or<ForbiddenRange<U2, U36, U4>, Array<U5, Ux2, End>>, Or<Array<U1, Ux0, End>, Array<U1, Ux2, Array<U2, UxFF, Array<U3, Ux2, End>>>>, End>(o, r, vec![("range", vec![vec![4, 2], vec![4, 36]]), ("all", vec![vec![5, 2]])], vec![("all", vec![vec![1, 0]]), ("all", vec![vec![1, 2], vec![2, 255], vec![3, 2]])], vec![]);', 'fv::<ForbiddenRange<U2, U217, U3>, Or<Array<U2, Ux0, Array<U5, UxFF, End>>, Or<ForbiddenRange<U100, U171, U0>, ForbiddenRange<U2, U165, U1>>>, End>(o, r, vec![("range", vec![vec![3, 2], vec![3, 217]])], vec![("all", vec![vec![2, 0], vec![5, 255]]), ("range", vec![vec![0, 100], vec![0, 171]]), ("range", vec![vec![1, 2], vec![1, 165]])], vec![]);', 'fv::<Array<U1, UxFF, Array<U2, Ux0, End>>, Array<U5, Ux0, End>, End>(o, r, vec![("all", vec![vec![1, 255], vec![2, 0]])], vec![("all", vec![vec![5, 0]])], vec![]);', 'fv::<Array<U5, Ux2, End>, Or<Array<U3, UxFF, End>, Or<Array<U1, Ux2, Array<U3, UxFF, End>>, Array<U5, Ux1, End>>>, Array<U0, Ux18, Array<U4, Ux80, End>>>(o, r, vec![("all", vec![vec![5, 2]])], vec![("all", vec![vec![3, 255]]), ("all", vec![vec![1, 2], vec![3, 255]]), ("all", vec![vec![5, 1]])], vec![vec![0, 24], vec![4, 128]]);', 'fv::<Or<Array<U3, Ux2, End>, Array<U4, Ux1, End>>, Or<Or<Array<U2, Ux1, Array<U4, Ux0, End>>, Array<U1, UxFF, Array<U4, Ux2, Array<U5, Ux2, End>>>>, Array<U1, UxAA, Array<U4, Ux1, End>>>, Array<U0, Ux18, Array<U4, Ux80, End>>>(o, r, vec![("all", vec![vec![3, 2]]), ("all", vec![vec![4, 1]])], vec![("all", vec![vec![2, 1], vec![4, 0]]), ("all", vec![vec![1, 255], vec![4, 2], vec![5, 2]]), ("all", vec![vec![1, 170], vec![4, 1]])], vec![vec![0, 24], vec![4, 128]]);', 'fv::<Or<Or<Array<U0, Ux0, Array<U1, UxFF, End>>, Array<U0, Ux0, Array<U3, UxFF, Array<U4, UxAA, End>>>>, Array<U0, Ux1, End>>, Or<Array<U0, Ux0, Array<U4, Ux1, Array<U5, Ux1, End>>>, ForbiddenRange<U2, U249, U1>>, Array<U0, UxFF, Array<U4, Ux18, End>>>(o, r, vec![("all", vec![vec![0, 0], vec![1, 255]]), ("all", vec![vec![0, 0], vec![3, 255], vec![4, 170]]), ("all", vec![vec![0, 1]])], vec![("all", vec![vec![0, 0], vec![4, 1], vec![5, 1]]), ("range", vec![vec![1, 2], vec![1, 249]])], vec![vec![0, 255], vec![4, 24]]);', 'fv::<Or<Array<U0, Ux0, End>, Or<ForbiddenRange<U2, U60, U4>, End>>, Array<U1, UxFF, Array<U2, UxAA, End>>, End>(o, r, vec![("all", vec![vec![0, 0]]), ("range", vec![vec![4, 2], vec![4, 60]])], vec![("all", vec![vec![1, 255], vec![2, 170]])], vec![]);', 'fv::<ForbiddenRange<U100, U179, U0>, End, Array<U3, Ux18, End>>(o, r, vec![("range", vec![vec![0, 100], vec![0, 179]])], vec![], vec![vec![3, 24]]);', 'fv::<Array<U2, Ux1, End>, Array<U3, Ux0, End>, End>(o, r, vec![("all", vec![vec![2, 1]])], vec![("all", vec![vec![3, 0]])], vec![]);', 'fv::<Or<Or<ForbiddenRange<U2, U192, U4>, End>, Or<Array<U1, UxFF, End>, Array<U0, UxFF, Array<U4, UxAA, End>>>>, Or<Or<Array<U3, Ux0, End>, Array<U3, Ux0, End>>, ForbiddenRange<U100, U181, U5>>, End>(o, r, vec![("range", vec![vec![4, 2], vec![4, 192]]), ("all", vec![vec![1, 255]]), ("all", vec![vec![0, 255], vec![4, 170]])], vec![("all", vec![vec![3, 0]]), ("all", vec![vec![3, 0]]), ("range", vec![vec![5, 100], vec![5, 181]])], vec![]);', 'fv::<Array<U1, UxAA, Array<U5, UxFF, End>>, End, Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>>(o, r, vec![("all", vec![vec![1, 170], vec![5, 255]])], vec![], vec![vec![1, 127], vec![2, 254], vec![5, 255]]);', 'fv::<Array<U1, Ux0, Array<U3, Ux0, End>>, End, Array<U0, Ux18, Array<U4, Ux80, End>>>(o, r, vec![("all", vec![vec![1, 0], vec![3, 0]])], vec![], vec![vec![0, 24], vec![4, 128]]);', 'fv::<Or<ForbiddenRange<U1, U99, U2>, Array<U0, Ux1, Array<U3, Ux2, Array<U5, UxAA, End>>>>, ForbiddenRange<U2, U191, U3>, Array<U1, UxFF, Array<U3, UxFF, End>>>(o, r, vec![("range", vec![vec![2, 1], vec![2, 99]]), ("all", vec![vec![0, 1], vec![3, 2], vec![5, 170]])], vec![("range", vec![vec![3, 2], vec![3, 191]])], vec![vec![1, 255], vec![3, 255]]);', 'fv::<ForbiddenRange<U100, U111, U3>, End, Array<U0, Ux18, Array<U4, Ux80, End>>>(o, r, vec![("range", vec![vec![3, 100], vec![3, 111]])], vec![], vec![vec![0, 24], vec![4, 128]]);', 'fv::<ForbiddenRange<U1, U193, U0>, Array<U2, Ux0, Array<U4, Ux2, End>>, Array<U2, Ux7F, Array<U5, Ux7F, End>>>(o, r, vec![("range", vec![vec![0, 1], vec![0, 193]])], vec![("all", vec![vec![2, 0], vec![4, 2]])], vec![vec![2, 127], vec![5, 127]]);', 'fv::<Array<U0, UxAA, Array<U2, Ux0, End>>, End, End>(o, r, vec![("all", vec![vec![0, 170], vec![2, 0]])], vec![], vec![]);', 'fv::<Or<Array<U2, Ux1, Array<U3, UxFF, Array<U4, Ux1, End>>>, End>, Array<U4, Ux1, End>, Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>>(o, r, vec![("all", vec![vec![2, 1], vec![3, 255], vec![4, 1]])], vec![("all", vec![vec![4, 1]])], vec![vec![0, 240], vec![1, 24], vec![4, 1]]);', 'fv::<Array<U4, Ux1, End>, Or<Or<Array<U2, Ux1, Array<U4, UxFF, Array<U5, Ux0, End>>>, ForbiddenRange<U0, U54, U0>>, Or<Array<U1, Ux1, End>, Array<U5, UxAA, End>>>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>>(o, r, vec![("all", vec![vec![4, 1]])], vec![("all", vec![vec![2, 1], vec![4, 255], vec![5, 0]]), ("range", vec![vec![0, 0], vec![0, 54]]), ("all", vec![vec![1, 1]]), ("all", vec![vec![5, 170]])], vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]]);', 'fv::<Array<U2, UxAA, Array<U5, Ux2, End>>, Or<ForbiddenRange<U1, U49, U1>, Or<Array<U2, Ux0, End>, Array<U5, Ux0, End>>>, Array<U0, UxFF, Array<U4, Ux18, End>>>(o, r, vec![("all", vec![vec![2, 170], vec![5, 2]])], vec![("range", vec![vec![1, 1], vec![1, 49]]), ("all", vec![vec![2, 0]]), ("all", vec![vec![5, 0]])], vec![vec![0, 255], vec![4, 24]]);', 'fv::<Or<End, End>, ForbiddenRange<U100, U196, U0>, Array<U0, Ux18, Array<U1, Ux1, Array<U5, UxF0, End>>>>(o, r, vec![], vec![("range", vec![vec![0, 100], vec![0, 196]])], vec![vec![0, 24], vec![1, 1], vec![5, 240]]);', 'fv::<Or<End, Array<U0, Ux2, End>>, ForbiddenRange<U254, U255, U5>, Array<U1, UxFF, Array<U3, UxFF, End>>>(o, r, vec![("all", vec![vec![0, 2]])], vec![("range", vec![vec![5, 254], vec![5, 255]])], vec![vec![1, 255], vec![3, 255]]);', 'fv::<Or<Array<U0, Ux2, End>, Or<End, ForbiddenRange<U1, U210, U0>>>, Array<U1, Ux2, Array<U4, Ux0, End>>, End>(o, r, vec![("all", vec![vec![0, 2]]), ("range", vec![vec![0, 1], vec![0, 210]])], vec![("all", vec![vec![1, 2], vec![4, 0]])], vec![]);', 'fv::<End, Or<Or<Array<U5, UxAA, End>, ForbiddenRange<U2, U107, U2>>, Array<U2, UxAA, End>>, End>(o, r, vec![], vec![("all", vec![vec![5, 170]]), ("range", vec![vec![2, 2], vec![2, 107]]), ("all", vec![vec![2, 170]])], vec![]);', 'fv::<Or<End, Array<U3, UxFF, End>>, Or<End, Array<U3, UxAA, End>>, End>(o, r, vec![("all", vec![vec![3, 255]])], vec![("all", vec![vec![3, 170]])], vec![]);', 'fv::<Or<Or<End, Array<U0, UxAA, Array<U2, Ux1, Array<U4, Ux1, End>>>>, Or<ForbiddenRange<U0, U28, U3>, Array<U2, Ux1, End>>>, ForbiddenRange<U100, U181, U0>, Array<U3, UxF, Array<U4, Ux7F, End>>>(o, r, vec![("all", vec![vec![0, 170], vec![2, 1], vec![4, 1]]), ("range", vec![vec![3, 0], vec![3, 28]]), ("all", vec![vec![2, 1]])], vec![("range", vec![vec![0, 100], vec![0, 181]])], vec![vec![3, 15], vec![4, 127]]);', 'fv::<Array<U5, Ux1, End>, Array<U3, Ux1, End>, End>(o, r, vec![("all", vec![vec![5, 1]])], vec![("all", vec![vec![3, 1]])], vec![]);', 'fv::<Or<Or<Array<U1, Ux1, End>, Array<U0, UxAA, End>>, Array<U0, UxAA, Array<U3, UxFF, End>>>, Array<U3, Ux2, Array<U5, UxAA, End>>, End>(o, r, vec![("all", vec![vec![1, 1]]), ("all", vec![vec![0, 170]]), ("all", vec![vec![0, 170], vec![3, 255]])], vec![("all", vec![vec![3, 2], vec![5, 170]])], vec![]);', 'fv::<Or<Array<U0, UxAA, Array<U1, UxFF, Array<U4, UxFF, End>>>, Or<Array<U1, Ux0, Array<U3, Ux0, Array<U4, Ux1, End>>>, Array<U0, Ux0, Array<U4, Ux1, Array<U5, Ux0, End>>>>>, Array<U0, UxAA, End>, Array<U2, UxFF, End>>(o, r, vec![("all", vec![vec![0, 170], vec![1, 255], vec![4, 255]]), ("all", vec![vec![1, 0], vec![3, 0], vec![4, 1]]), ("all", vec![vec![0, 0], vec![4, 1], vec![5, 0]])], vec![("all", vec![vec![0, 170]])], vec![vec![2, 255]]);', 'fv::<Array<U0, UxAA, End>, Array<U1, UxFF, End>, Array<U0, Ux18, Array<U1, Ux1, Array<U5, UxF0, End>>>>(o, r, vec![("all", vec![vec![0, 170]])], vec![("all", vec![vec![1, 255]])], vec![vec![0, 24], vec![1, 1], vec![5, 240]]);', 'fv::<Array<U5, Ux1, End>, End, End>(o, r, vec![("all", vec![vec![5, 1]])], vec![], vec![]);', 'fv::<ForbiddenRange<U2, U232, U4>, Or<ForbiddenRange<U254, U255, U1>, Array<U2, Ux2, End>>, End>(o, r, vec![("range", vec![vec![4, 2], vec![4, 232]])], vec![("range", vec![vec![1, 254], vec![1, 255]]), ("all", vec![vec![2, 2]])], vec![]);', 'fv::<Or<Or<ForbiddenRange<U2, U232, U3>, Array<U4, Ux0, End>>, Array<U0, Ux2, Array<U4, UxAA, Array<U5, UxFF, End>>>>, Array<U1, Ux2, Array<U2, Ux2, Array<U4, Ux0, End>>>, End>(o, r, vec![("range", vec![vec![3, 2], vec![3, 232]]), ("all", vec![vec![4, 0]]), ("all", vec![vec![0, 2], vec![4, 170], vec![5, 255]])], vec![("all", vec![vec![1, 2], vec![2, 2], vec![4, 0]])], vec![]);', 'fv::<Or<Array<U2, Ux2, Array<U4, UxAA, End>>, Array<U5, Ux0, End>>, Or<Or<Array<U0, UxFF, Array<U1, Ux1, End>>, ForbiddenRange<U0, U1, U4>>, Or<Array<U3, UxAA, End>, ForbiddenRange<U2, U162, U3>>>, Array<U0, UxFF, Array<U1, Ux18, Array<U3, UxFE, End>>>>(o, r, vec![("all", vec![vec![2, 2], vec![4, 170]]), ("all", vec![vec![5, 0]])], vec![("all", vec![vec![0, 255], vec![1, 1]]), ("range", vec![vec![4, 0], vec![4, 1]]), ("all", vec![vec![3, 170]]), ("range", vec![vec![3, 2], vec![3, 162]])], vec![vec![0, 255], vec![1, 24], vec![3, 254]]);', 'fv::<Or<ForbiddenRange<U1, U117, U0>, End>, Or<ForbiddenRange<U2, U250, U0>, End>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, r, vec![("range", vec![vec![0, 1], vec![0, 117]])], vec![("range", vec![vec![0, 2], vec![0, 250]])], vec![vec![0, 255], vec![1, 255], vec![2, 255]]);', 'fv::<Array<U3, Ux1, Array<U4, Ux1, Array<U5, Ux0, End>>>, End, Array<U5, Ux80, End>>(o, r, vec![("all", vec![vec![3, 1], vec![4, 1], vec![5, 0]])], vec![], vec![vec![5, 128]]);', 'fv::<End, Or<Or<ForbiddenRange<U254, U255, U1>, Array<U1, Ux0, Array<U2, Ux2, Array<U4, Ux0, End>>>>, Array<U0, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>, Array<U0, Ux18, Array<U4, Ux80, End>>>(o, r, vec![], vec![("range", vec![vec![1, 254], vec![1, 255]]), ("all", vec![vec![1, 0], vec![2, 2], vec![4, 0]]), ("all", vec![vec![0, 255], vec![4, 255], vec![5, 255]])], vec![vec![0, 24], vec![4, 128]]);', 'fv::<Array<U0, Ux2, End>, Or<End, Or<Array<U0, Ux2, Array<U5, UxAA, End>>, Array<U1, Ux0, Array<U2, UxAA, End>>>>, Array<U1, UxFF, Array<U3, UxFF, End>>>(o, r, vec![("all", vec![vec![0, 2]])], vec![("all", vec![vec![0, 2], vec![5, 170]]), ("all", vec![vec![1, 0], vec![2, 170]])], vec![vec![1, 255], vec![3, 255]]);', 'fv::<Or<Array<U1, Ux2, End>, Or<Array<U3, UxFF, Array<U4, UxAA, Array<U5, Ux0, End>>>, Array<U4, Ux2, End>>>, Array<U4, Ux1, End>, End>(o, r, vec![("all", vec![vec![1, 2]]), ("all", vec![vec![3, 255], vec![4, 170], vec![5, 0]]), ("all", vec![vec![4, 2]])], vec![("all", vec![vec![4, 1]])], vec![]);', 'fv::<End, Or<ForbiddenRange<U1, U181, U0>, End>, End>(o, r, vec![], vec![("range", vec![vec![0, 1], vec![0, 181]])], vec![]);', 'fv::<Array<U5, Ux0, End>, End, End>(o, r, vec![("all", vec![vec![5, 0]])], vec![], vec![]);', 'fv::<ForbiddenRange<U254, U255, U5>, ForbiddenRange<U1, U54, U0>, End>(o, r, vec![("range", vec![vec![5, 254], vec![5, 255]])], vec![("range", vec![vec![0, 1], vec![0, 54]])], vec![]);', 'fv::<End, Array<U5, Ux2, End>, Array<U3, Ux18, End>>(o, r, vec![], vec![("all", vec![vec![5, 2]])], vec![vec![3, 24]]);', 'fv::<Or<Or<ForbiddenRange<U2, U89, U3>, Array<U0, Ux2, Array<U2, UxAA, End>>>, Array<U3, Ux0, End>>, Or<Array<U4, UxAA, End>, Or<ForbiddenRange<U2, U46, U3>, End>>, End>(o, r, vec![("range", vec![vec![3, 2], vec![3, 89]]), ("all", vec![vec![0, 2], vec![2, 170]]), ("all", vec![vec![3, 0]])], vec![("all", vec![vec![4, 170]]), ("range", vec![vec![3, 2], vec![3, 46]])], vec![]);', 'fv::<Or<ForbiddenRange<U2, U128, U0>, Or<ForbiddenRange<U100, U252, U2>, Array<U2, Ux1, End>>>, ForbiddenRange<U1, U30, U5>, End>(o, r, vec![("range", vec![vec![0, 2], vec![0, 128]]), ("range", vec![vec![2, 100], vec![2, 252]]), ("all", vec![vec![2, 1]])], vec![("range", vec![vec![5, 1], vec![5, 30]])], vec![]);', 'fv::<Or<Array<U5, Ux2, End>, Or<Array<U3, Ux0, End>, Array<U1, UxFF, Array<U4, Ux1, Array<U5, UxFF, End>>>>>, Or<Array<U2, UxAA, End>, Or<Array<U1, UxFF, Array<U3, Ux2, End>>, ForbiddenRange<U100, U161, U4>>>, End>(o, r, vec![("all", vec![vec![5, 2]]), ("all", vec![vec![3, 0]]), ("all", vec![vec![1, 255], vec![4, 1], vec![5, 255]])], vec![("all", vec![vec![2, 170]]), ("all", vec![vec![1, 255], vec![3, 2]]), ("range", vec![vec![4, 100], vec![4, 161]])], vec![]);', 'fv::<Or<Array<U5, Ux1, End>, Array<U1, Ux2, Array<U5, Ux1, End>>>, Or<Array<U5, Ux0, End>, Or<ForbiddenRange<U2, U190, U2>, ForbiddenRange<U0, U72, U1>>>, Array<U2, UxFF, End>>(o, r, vec![("all", vec![vec![5, 1]]), ("all", vec![vec![1, 2], vec![5, 1]])], vec![("all", vec![vec![5, 0]]), ("range", vec![vec![2, 2], vec![2, 190]]), ("range", vec![vec![1, 0], vec![1, 72]])], vec![vec![2, 255]]);', 'fv::<Or<End, Array<U4, Ux2, End>>, Or<Or<Array<U3, UxAA, End>, Array<U5, UxAA, End>>, Array<U3, UxFF, End>>, Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>>(o, r, vec![("all", vec![vec![4, 2]])], vec![("all", vec![vec![3, 170]]), ("all", vec![vec![5, 170]]), ("all", vec![vec![3, 255]])], vec![vec![0, 240], vec![1, 24], vec![4, 1]]);', 'fv::<Or<Array<U3, Ux1, End>, Or<Array<U1, Ux0, Array<U2, UxFF, Array<U4, UxFF, End>>>, ForbiddenRange<U2, U142, U1>>>, Or<Array<U0, UxFF, Array<U4, UxAA, End>>, Or<ForbiddenRange<U2, U136, U2>, Array<U5, Ux1, End>>>, Array<U2, UxFF, End>>(o, r, vec![("all", vec![vec![3, 1]]), ("all", vec![vec![1, 0], vec![2, 255], vec![4, 255]]), ("range", vec![vec![1, 2], vec![1, 142]])], vec![("all", vec![vec![0, 255], vec![4, 170]]), ("range", vec![vec![2, 2], vec![2, 136]]), ("all", vec![vec![5, 1]])], vec![vec![2, 255]]);', 'fv::<Array<U0, Ux2, Array<U5, Ux2, End>>, Or<End, End>, End>(o, r, vec![("all", vec![vec![0, 2], vec![5, 2]])], vec![], vec![]);', 'fv::<Array<U0, Ux2, Array<U1, UxFF, End>>, Array<U3, UxFF, End>, End>(o, r, vec![("all", vec![vec![0, 2], vec![1, 255]])], vec![("all", vec![vec![3, 255]])], vec![]);', 'fv::<Or<ForbiddenRange<U1, U122, U5>, ForbiddenRange<U1, U92, U5>>, Array<U1, UxFF, Array<U2, Ux2, Array<U3, Ux1, End>>>, Array<U5, UxFF, End>>(o, r, vec![("range", vec![vec![5, 1], vec![5, 122]]), ("range", vec![vec![5, 1], vec![5, 92]])], vec![("all", vec![vec![1, 255], vec![2, 2], vec![3, 1]])], vec![vec![5, 255]]);', 'fv::<Array<U1, Ux0, Array<U3, Ux2, Array<U5, Ux2, End>>>, Or<Or<Array<U5, Ux2, End>, Array<U0, Ux1, Array<U2, UxAA, Array<U5, Ux2, End>>>>, ForbiddenRange<U0, U54, U0>>, Array<U0, UxFF, Array<U4, Ux18, End>>>(o, r, vec![("all", vec![vec![1, 0], vec![3, 2], vec![5, 2]])], vec![("all", vec![vec![5, 2]]), ("all", vec![vec![0, 1], vec![2, 170], vec![5, 2]]), ("range", vec![vec![0, 0], vec![0, 54]])], vec![vec![0, 255], vec![4, 24]]);', 'fv::<Or<Array<U1, UxFF, End>, Or<Array<U4, UxAA, End>, ForbiddenRange<U254, U255, U1>>>, Or<Or<End, Array<U4, Ux0, End>>, Or<ForbiddenRange<U100, U243, U0>, Array<U1, UxAA, Array<U3, UxAA, Array<U5, Ux0, End>>>>>, Array<U0, UxFF, Array<U1, Ux18, Array<U3, UxFE, End>>>>(o, r, vec![("all", vec![vec![1, 255]]), ("all", vec![vec![4, 170]]), ("range", vec![vec![1, 254], vec![1, 255]])], vec![("all", vec![vec![4, 0]]), ("range", vec![vec![0, 100], vec![0, 243]]), ("all", vec![vec![1, 170], vec![3, 170], vec![5, 0]])], vec![vec![0, 255], vec![1, 24], vec![3, 254]]);', 'fv::<Array<U2, Ux2, Array<U3, UxFF, Array<U5, UxFF, End>>>, Array<U5, Ux2, End>, Array<U0, UxFF, Array<U4, Ux18, End>>>(o, r, vec![("all", vec![vec![2, 2], vec![3, 255], vec![5, 255]])], vec![("all", vec![vec![5, 2]])], vec![vec![0, 255], vec![4, 24]]);', 'fv::<ForbiddenRange<U0, U175, U5>, Array<U4, UxFF, End>, Array<U3, Ux18, End>>(o, r, vec![("range", vec![vec![5, 0], vec![5, 175]])], vec![("all", vec![vec![4, 255]])], vec![vec![3, 24]]);', 'fv::<ForbiddenRange<U1, U185, U3>, Array<U2, UxAA, Array<U3, UxAA, End>>, End>(o, r, vec![("range", vec![vec![3, 1], vec![3, 185]])], vec![("all", vec![vec![2, 170], vec![3, 170]])], vec![]);', 'fv::<ForbiddenRange<U2, U111, U2>, Array<U2, UxFF, Array<U3, Ux2, End>>, Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>>(o, r, vec![("range", vec![vec![2, 2], vec![2, 111]])], vec![("all", vec![vec![2, 255], vec![3, 2]])], vec![vec![2, 15], vec![3, 240], vec![4, 128]]);', 'fv::<Array<U1, Ux0, Array<U3, Ux2, End>>, Or<ForbiddenRange<U0, U201, U0>, Or<Array<U3, Ux2, End>, ForbiddenRange<U100, U116, U4>>>, Array<U5, Ux80, End>>(o, r, vec![("all", vec![vec![1, 0], vec![3, 2]])], vec![("range", vec![vec![0, 0], vec![0, 201]]), ("all", vec![vec![3, 2]]), ("range", vec![vec![4, 100], vec![4, 116]])], vec![vec![5, 128]]);', 'fv::<Array<U1, Ux0, End>, Array<U0, Ux1, End>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>>(o, r, vec![("all", vec![vec![1, 0]])], vec![("all", vec![vec![0, 1]])], vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]]);', 'fv::<End, Array<U2, Ux1, End>, Array<U0, UxFF, End>>(o, r, vec![], vec![("all", vec![vec![2, 1]])], vec![vec![0, 255]]);', 'fv::<Or<Array<U3, Ux0, End>, Or<Array<U3, UxAA, End>, Array<U3, Ux0, Array<U4, Ux0, Array<U5, UxFF, End>>>>>, Array<U3, UxFF, End>, Array<U5, Ux80, End>>(o, r, vec![("all", vec![vec![3, 0]]), ("all", vec![vec![3, 170]]), ("all", vec![vec![3, 0], vec![4, 0], vec![5, 255]])], vec![("all", vec![vec![3, 255]])], vec![vec![5, 128]]);', 'fv::<Or<ForbiddenRange<U1, U162, U0>, Or<End, Array<U1, Ux0, End>>>, Or<End, ForbiddenRange<U1, U238, U0>>, End>(o, r, vec![("range", vec![vec![0, 1], vec![0, 162]]), ("all", vec![vec![1, 0]])], vec![("range", vec![vec![0, 1], vec![0, 238]])], vec![]);', 'fv::<Array<U5, Ux0, End>, Or<Array<U0, Ux0, Array<U5, Ux0, End>>, End>, Array<U0, UxFF, Array<U4, Ux18, End>>>(o, r, vec![("all", vec![vec![5, 0]])], vec![("all", vec![vec![0, 0], vec![5, 0]])], vec![vec![0, 255], vec![4, 24]]);', 'fv::<Array<U1, UxFF, Array<U2, UxAA, Array<U5, Ux0, End>>>, Or<Array<U1, Ux0, Array<U4, Ux2, Array<U5, Ux1, End>>>, Array<U2, Ux2, Array<U3, Ux2, Array<U4, Ux0, End>>>>, Array<U3, UxF, Array<U4, Ux7F, End>>>(o, r, vec![("all", vec![vec![1, 255], vec![2, 170], vec![5, 0]])], vec![("all", vec![vec![1, 0], vec![4, 2], vec![5, 1]]), ("all", vec![vec![2, 2], vec![3, 2], vec![4, 0]])], vec![vec![3, 15], vec![4, 127]]);', 'fv::<Array<U0, Ux1, Array<U4, UxAA, End>>, Array<U3, UxFF, End>, Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>>(o, r, vec![("all", vec![vec![0, 1], vec![4, 170]])], vec![("all", vec![vec![3, 255]])], vec![vec![1, 127], vec![2, 254], vec![5, 255]]);', 'fv::<Or<ForbiddenRange<U100, U173, U5>, End>, Or<Or<Array<U2, Ux1, End>, Array<U2, UxAA, End>>, Array<U0, UxAA, Array<U4, UxAA, End>>>, Array<U3, Ux18, End>>(o, r, vec![("range", vec![vec![5, 100], vec![5, 173]])], vec![("all", vec![vec![2, 1]]), ("all", vec![vec![2, 170]]), ("all", vec![vec![0, 170], vec![4, 170]])], vec![vec![3, 24]]);', 'fv::<ForbiddenRange<U1, U81, U4>, End, Array<U2, UxFF, End>>(o, r, vec![("range", vec![vec![4, 1], vec![4, 81]])], vec![], vec![vec![2, 255]]);', 'fv::<Or<Or<Array<U0, UxAA, Array<U3, Ux2, Array<U4, Ux0, End>>>, Array<U2, UxFF, Array<U4, UxAA, End>>>, ForbiddenRange<U1, U25, U1>>, ForbiddenRange<U254, U255, U3>, End>(o, r, vec![("all", vec![vec![0, 170], vec![3, 2], vec![4, 0]]), ("all", vec![vec![2, 255], vec![4, 170]]), ("range", vec![vec![1, 1], vec![1, 25]])], vec![("range", vec![vec![3, 254], vec![3, 255]])], vec![]);', 'fv::<ForbiddenRange<U0, U237, U3>, Or<Or<Array<U2, UxAA, End>, End>, Or<ForbiddenRange<U1, U255, U4>, Array<U2, Ux0, Array<U3, UxFF, End>>>>, End>(o, r, vec![("range", vec![vec![3, 0], vec![3, 237]])], vec![("all", vec![vec![2, 170]]), ("range", vec![vec![4, 1], vec![4, 255]]), ("all", vec![vec![2, 0], vec![3, 255]])], vec![]);', 'fv::<Array<U2, Ux0, End>, Or<Array<U0, Ux0, End>, Array<U0, Ux0, Array<U3, Ux0, Array<U5, Ux2, End>>>>, Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>>(o, r, vec![("all", vec![vec![2, 0]])], vec![("all", vec![vec![0, 0]]), ("all", vec![vec![0, 0], vec![3, 0], vec![5, 2]])], vec![vec![0, 240], vec![1, 24], vec![4, 1]]);', 'fv::<Array<U1, Ux2, Array<U3, Ux1, Array<U5, Ux1, End>>>, Or<Array<U4, Ux0, End>, ForbiddenRange<U254, U255, U0>>, End>(o, r, vec![("all", vec![vec![1, 2], vec![3, 1], vec![5, 1]])], vec![("all", vec![vec![4, 0]]), ("range", vec![vec![0, 254], vec![0, 255]])], vec![]);', 'fv::<Or<Array<U4, UxFF, Array<U5, Ux0, End>>, Or<Array<U3, Ux1, Array<U5, UxFF, End>>, ForbiddenRange<U0, U120, U5>>>, Array<U1, Ux0, End>, Array<U3, UxF, Array<U4, Ux7F, End>>>(o, r, vec![("all", vec![vec![4, 255], vec![5, 0]]), ("all", vec![vec![3, 1], vec![5, 255]]), ("range", vec![vec![5, 0], vec![5, 120]])], vec![("all", vec![vec![1, 0]])], vec![vec![3, 15], vec![4, 127]]);', 'fv::<Array<U3, Ux0, End>, Array<U5, Ux0, End>, End>(o, r, vec![("all", vec![vec![3, 0]])], vec![("all", vec![vec![5, 0]])], vec![]);', 'fv::<Array<U3, Ux0, End>, ForbiddenRange<U1, U190, U0>, Array<U0, UxFF, Array<U1, Ux18, Array<U3, UxFE, End>>>>(o, r, vec![("all", vec![vec![3, 0]])], vec![("range", vec![vec![0, 1], vec![0, 190]])], vec![vec![0, 255], vec![1, 24], vec![3, 254]]);', 'fv::<Array<U3, Ux1, End>, Or<Or<ForbiddenRange<U2, U88, U1>, ForbiddenRange<U100, U224, U0>>, Or<Array<U4, UxFF, End>, ForbiddenRange<U1, U250, U2>>>, End>(o, r, vec![("all", vec![vec![3, 1]])], vec![("range", vec![vec![1, 2], vec![1, 88]]), ("range", vec![vec![0, 100], vec![0, 224]]), ("all", vec![vec![4, 255]]), ("range", vec![vec![2, 1], vec![2, 250]])], vec![]);', 'fv::<Array<U0, UxFF, End>, Or<ForbiddenRange<U2, U39, U5>, End>, Array<U0, UxFF, End>>(o, r, vec![("all", vec![vec![0, 255]])], vec![("range", vec![vec![5, 2], vec![5, 39]])], vec![vec![0, 255]]);', 'fv::<Array<U0, Ux1, Array<U2, Ux2, Array<U4, UxFF, End>>>, End, End>(o, r, vec![("all", vec![vec![0, 1], vec![2, 2], vec![4, 255]])], vec![], vec![]);', 'fv::<Or<ForbiddenRange<U1, U135, U1>, ForbiddenRange<U0, U213, U0>>, Array<U1, Ux1, Array<U5, UxAA, End>>, Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>>(o, r, vec![("range", vec![vec![1, 1], vec![1, 135]]), ("range", vec![vec![0, 0], vec![0, 213]])], vec![("all", vec![vec![1, 1], vec![5, 170]])], vec![vec![1, 127], vec![2, 254], vec![5, 255]]);', 'fv::<Array<U0, Ux0, Array<U1, UxAA, End>>, Or<ForbiddenRange<U2, U88, U2>, Array<U0, UxFF, Array<U3, Ux1, Array<U5, Ux2, End>>>>, End>(o, r, vec![("all", vec![vec![0, 0], vec![1, 170]])], vec![("range", vec![vec![2, 2], vec![2, 88]]), ("all", vec![vec![0, 255], vec![3, 1], vec![5, 2]])], vec![]);', 'fv::<Or<Array<U5, Ux2, End>, Array<U3, UxAA, Array<U4, Ux0, End>>>, Or<Array<U3, UxAA, Array<U5, Ux0, End>>, Or<Array<U0, Ux0, Array<U1, Ux1, Array<U4, Ux0, End>>>, ForbiddenRange<U0, U80, U2>>>, Array<U5, Ux80, End>>(o, r, vec![("all", vec![vec![5, 2]]), ("all", vec![vec![3, 170], vec![4, 0]])], vec![("all", vec![vec![3, 170], vec![5, 0]]), ("all", vec![vec![0, 0], vec![1, 1], vec![4, 0]]), ("range", vec![vec![2, 0], vec![2, 80]])], vec![vec![5, 128]]);', 'fv::<ForbiddenRange<U0, U238, U5>, ForbiddenRange<U254, U255, U4>, End>(o, r, vec![("range", vec![vec![5, 0], vec![5, 238]])], vec![("range", vec![vec![4, 254], vec![4, 255]])], vec![]);', 'fv::<ForbiddenRange<U0, U184, U1>, End, End>(o, r, vec![("range", vec![vec![1, 0], vec![1, 184]])], vec![], vec![]);', 'fv::<Or<Array<U0, Ux0, End>, Or<Array<U1, UxAA, End>, Array<U5, UxFF, End>>>, Array<U3, Ux0, End>, End>(o, r, vec![("all", vec![vec![0, 0]]), ("all", vec![vec![1, 170]]), ("all", vec![vec![5, 255]])], vec![("all", vec![vec![3, 0]])], vec![]);', 'fv::<Or<Or<Array<U3, Ux0, Array<U4, Ux2, End>>, Array<U1, Ux0, Array<U3, Ux2, End>>>, Or<Array<U4, Ux0, End>, Array<U0, Ux0, Array<U3, UxAA, Array<U4, Ux2, End>>>>>, Array<U4, Ux0, End>, Array<U5, UxFF, End>>(o, r, vec![("all", vec![vec![3, 0], vec![4, 2]]), ("all", vec![vec![1, 0], vec![3, 2]]), ("all", vec![vec![4, 0]]), ("all", vec![vec![0, 0], vec![3, 170], vec![4, 2]])], vec![("all", vec![vec![4, 0]])], vec![vec![5, 255]]);', 'fv::<Or<End, Or<End, Array<U0, Ux0, End>>>, Array<U0, UxAA, Array<U3, UxAA, End>>, End>(o, r, vec![("all", vec![vec![0, 0]])], vec![("all", vec![vec![0, 170], vec![3, 170]])], vec![]);', 'fv::<Or<Array<U2, Ux1, Array<U4, Ux0, Array<U5, UxAA, End>>>, Or<Array<U5, UxFF, End>, Array<U2, UxFF, Array<U3, Ux2, Array<U4, Ux0, End>>>>>, Or<Or<Array<U0, Ux1, Array<U1, Ux2, Array<U2, UxAA, End>>>, ForbiddenRange<U1, U77, U0>>, ForbiddenRange<U0, U156, U2>>, End>(o, r, vec![("all", vec![vec![2, 1], vec![4, 0], vec![5, 170]]), ("all", vec![vec![5, 255]]), ("all", vec![vec![2, 255], vec![3, 2], vec![4, 0]])], vec![("all", vec![vec![0, 1], vec![1, 2], vec![2, 170]]), ("range", vec![vec![0, 1], vec![0, 77]]), ("range", vec![vec![2, 0], vec![2, 156]])], vec![]);', 'fv::<Array<U0, Ux1, Array<U1, UxFF, Array<U2, Ux2, End>>>, ForbiddenRange<U1, U159, U4>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>>(o, r, vec![("all", vec![vec![0, 1], vec![1, 255], vec![2, 2]])], vec![("range", vec![vec![4, 1], vec![4, 159]])], vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]]);', 'fv::<Or<ForbiddenRange<U100, U169, U5>, Array<U3, Ux0, End>>, End, End>(o, r, vec![("range", vec![vec![5, 100], vec![5, 169]]), ("all", vec![vec![3, 0]])], vec![], vec![]);', 'fv::<ForbiddenRange<U100, U247, U1>, Or<Array<U3, UxFF, End>, ForbiddenRange<U2, U77, U2>>, Array<U2, UxFF, End>>(o, r, vec![("range", vec![vec![1, 100], vec![1, 247]])], vec![("all", vec![vec![3, 255]]), ("range", vec![vec![2, 2], vec![2, 77]])], vec![vec![2, 255]]);', 'fv::<Array<U0, UxFF, Array<U3, UxFF, End>>, Or<Array<U1, Ux0, Array<U3, Ux2, Array<U4, Ux2, End>>>, Array<U2, Ux1, End>>, End>(o, r, vec![("all", vec![vec![0, 255], vec![3, 255]])], vec![("all", vec![vec![1, 0], vec![3, 2], vec![4, 2]]), ("all", vec![vec![2, 1]])], vec![]);', 'fv::<Array<U0, Ux2, End>, Array<U4, UxFF, Array<U5, UxAA, End>>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, r, vec![("all", vec![vec![0, 2]])], vec![("all", vec![vec![4, 255], vec![5, 170]])], vec![vec![0, 255], vec![1, 255], vec![2, 255]]);', 'fv::<Array<U0, UxAA, Array<U2, Ux2, Array<U3, UxFF, End>>>, Array<U0, UxFF, End>, End>(o, r, vec![("all", vec![vec![0, 170], vec![2, 2], vec![3, 255]])], vec![("all", vec![vec![0, 255]])], vec![]);', 'fv::<Array<U1, UxFF, End>, Or<Or<Array<U4, Ux0, Array<U5, Ux1, End>>, Array<U2, UxAA, End>>, Or<ForbiddenRange<U2, U213, U4>, Array<U4, Ux2, End>>>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, r, vec![("all", vec![vec![1, 255]])], vec![("all", vec![vec![4, 0], vec![5, 1]]), ("all", vec![vec![2, 170]]), ("range", vec![vec![4, 2], vec![4, 213]]), ("all", vec![vec![4, 2]])], vec![vec![0, 255], vec![1, 255], vec![2, 255]]);', 'fv::<Array<U3, Ux1, End>, End, End>(o, r, vec![("all", vec![vec![3, 1]])], vec![], vec![]);', 'fv::<Array<U5, UxFF, End>, End, Array<U1, UxFF, Array<U3, UxFF, End>>>(o, r, vec![("all", vec![vec![5, 255]])], vec![], vec![vec![1, 255], vec![3, 255]]);', 'fv::<Or<ForbiddenRange<U2, U104, U0>, Array<U1, UxFF, End>>, Array<U4, Ux1, End>, End>(o, r, vec![("range", vec![vec![0, 2], vec![0, 104]]), ("all", vec![vec![1, 255]])], vec![("all", vec![vec![4, 1]])], vec![]);', 'fv::<ForbiddenRange<U254, U255, U0>, Or<Or<Array<U0, Ux1, Array<U2, Ux1, Array<U5, Ux2, End>>>, ForbiddenRange<U0, U220, U4>>, End>, End>(o, r, vec![("range", vec![vec![0, 254], vec![0, 255]])], vec![("all", vec![vec![0, 1], vec![2, 1], vec![5, 2]]), ("range", vec![vec![4, 0], vec![4, 220]])], vec![]);', 'fv::<Or<Or<End, Array<U3, Ux0, End>>, ForbiddenRange<U0, U41, U4>>, Array<U2, UxFF, Array<U3, Ux0, Array<U5, Ux1, End>>>, Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>>(o, r, vec![("all", vec![vec![3, 0]]), ("range", vec![vec![4, 0], vec![4, 41]])], vec![("all", vec![vec![2, 255], vec![3, 0], vec![5, 1]])], vec![vec![1, 127], vec![2, 254], vec![5, 255]]);', 'fv::<Or<ForbiddenRange<U2, U105, U5>, Or<ForbiddenRange<U1, U45, U2>, ForbiddenRange<U2, U104, U4>>>, Or<Or<Array<U0, UxFF, End>, Array<U3, Ux1, End>>, Or<Array<U0, Ux2, Array<U5, Ux1, End>>, ForbiddenRange<U1, U71, U4>>>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, r, vec![("range", vec![vec![5, 2], vec![5, 105]]), ("range", vec![vec![2, 1], vec![2, 45]]), ("range", vec![vec![4, 2], vec![4, 104]])], vec![("all", vec![vec![0, 255]]), ("all", vec![vec![3, 1]]), ("all", vec![vec![0, 2], vec![5, 1]]), ("range", vec![vec![4, 1], vec![4, 71]])], vec![vec![0, 255], vec![1, 255], vec![2, 255]]);', 'fv::<Array<U1, Ux2, Array<U2, Ux1, Array<U5, UxFF, End>>>, Or<ForbiddenRange<U100, U230, U1>, Or<ForbiddenRange<U2, U155, U3>, Array<U3, UxAA, End>>>, Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>>(o, r, vec![("all", vec![vec![1, 2], vec![2, 1], vec![5, 255]])], vec![("range", vec![vec![1, 100], vec![1, 230]]), ("range", vec![vec![3, 2], vec![3, 155]]), ("all", vec![vec![3, 170]])], vec![vec![2, 15], vec![3, 240], vec![4, 128]]);', 'fv::<Or<ForbiddenRange<U254, U255, U4>, Array<U0, Ux2, Array<U1, Ux0, Array<U4, UxFF, End>>>>, Array<U2, Ux1, End>, Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>>(o, r, vec![("range", vec![vec![4, 254], vec![4, 255]]), ("all", vec![vec![0, 2], vec![1, 0], vec![4, 255]])], vec![("all", vec![vec![2, 1]])], vec![vec![1, 127], vec![2, 254], vec![5, 255]]);', 'fv::<ForbiddenRange<U2, U209, U4>, ForbiddenRange<U2, U25, U1>, Array<U0, Ux18, Array<U1, Ux1, Array<U5, UxF0, End>>>>(o, r, vec![("range", vec![vec![4, 2], vec![4, 209]])], vec![("range", vec![vec![1, 2], vec![1, 25]])], vec![vec![0, 24], vec![1, 1], vec![5, 240]]);', 'fv::<Or<ForbiddenRange<U100, U219, U5>, Array<U2, Ux1, End>>, End, Array<U1, Ux7F, Array<U2, UxFE, Array<U5, UxFF, End>>>>(o, r, vec![("range", vec![vec![5, 100], vec![5, 219]]), ("all", vec![vec![2, 1]])], vec![], vec![vec![1, 127], vec![2, 254], vec![5, 255]]);', 'fv::<Array<U0, UxFF, Array<U1, Ux2, Array<U3, Ux0, End>>>, Or<Or<Array<U3, Ux0, End>, Array<U1, Ux0, Array<U3, UxAA, End>>>, Or<ForbiddenRange<U1, U147, U3>, ForbiddenRange<U100, U248, U2>>>, Array<U1, UxFF, Array<U3, UxFF, End>>>(o, r, vec![("all", vec![vec![0, 255], vec![1, 2], vec![3, 0]])], vec![("all", vec![vec![3, 0]]), ("all", vec![vec![1, 0], vec![3, 170]]), ("range", vec![vec![3, 1], vec![3, 147]]), ("range", vec![vec![2, 100], vec![2, 248]])], vec![vec![1, 255], vec![3, 255]]);', 'fv::<Or<Array<U4, UxAA, End>, Array<U0, Ux2, End>>, Or<Array<U3, UxFF, End>, Array<U2, UxAA, End>>, Array<U0, Ux18, Array<U4, Ux80, End>>>(o, r, vec![("all", vec![vec![4, 170]]), ("all", vec![vec![0, 2]])], vec![("all", vec![vec![3, 255]]), ("all", vec![vec![2, 170]])], vec![vec![0, 24], vec![4, 128]]);', 'fv::<Or<Array<U4, UxFF, Array<U5, UxAA, End>>, End>, Array<U3, Ux1, End>, End>(o, r, vec![("all", vec![vec![4, 255], vec![5, 170]])], vec![("all", vec![vec![3, 1]])], vec![]);', 'fv::<Array<U1, Ux1, Array<U4, Ux1, End>>, ForbiddenRange<U0, U44, U2>, End>(o, r, vec![("all", vec![vec![1, 1], vec![4, 1]])], vec![("range", vec![vec![2, 0], vec![2, 44]])], vec![]);', 'fv::<Or<Or<ForbiddenRange<U100, U224, U1>, ForbiddenRange<U100, U135, U5>>, Or<Array<U4, UxAA, End>, Array<U4, UxFF, End>>>, ForbiddenRange<U1, U155, U3>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, r, vec![("range", vec![vec![1, 100], vec![1, 224]]), ("range", vec![vec![5, 100], vec![5, 135]]), ("all", vec![vec![4, 170]]), ("all", vec![vec![4, 255]])], vec![("range", vec![vec![3, 1], vec![3, 155]])], vec![vec![0, 255], vec![1, 255], vec![2, 255]]);', 'fv::<Array<U5, Ux2, End>, End, Array<U3, Ux18, End>>(o, r, vec![("all", vec![vec![5, 2]])], vec![], vec![vec![3, 24]]);', 'fv::<Or<End, Or<Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxAA, End>>>, ForbiddenRange<U0, U12, U0>>>, Or<Array<U4, Ux2, Array<U5, Ux0, End>>, Array<U1, Ux0, Array<U2, Ux2, Array<U4, Ux0, End>>>>, Array<U0, UxFF, Array<U4, Ux18, End>>>(o, r, vec![("all", vec![vec![0, 255], vec![1, 255], vec![2, 170]]), ("range", vec![vec![0, 0], vec![0, 12]])], vec![("all", vec![vec![4, 2], vec![5, 0]]), ("all", vec![vec![1, 0], vec![2, 2], vec![4, 0]])], vec![vec![0, 255], vec![4, 24]]);', 'fv::<Or<Array<U1, Ux0, Array<U5, Ux1, End>>, ForbiddenRange<U100, U138, U2>>, Or<Array<U0, Ux2, End>, Array<U5, Ux2, End>>, Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>>(o, r, vec![("all", vec![vec![1, 0], vec![5, 1]]), ("range", vec![vec![2, 100], vec![2, 138]])], vec![("all", vec![vec![0, 2]]), ("all", vec![vec![5, 2]])], vec![vec![0, 240], vec![1, 24], vec![4, 1]]);', 'fv::<Or<Or<Array<U0, Ux0, Array<U1, Ux0, End>>, Array<U0, UxFF, Array<U1, UxFF, Array<U3, Ux1, End>>>>, Array<U1, Ux1, End>>, Or<Or<ForbiddenRange<U0, U218, U3>, ForbiddenRange<U2, U3, U0>>, Array<U0, Ux0, Array<U1, UxAA, Array<U2, UxFF, End>>>>, Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>>(o, r, vec![("all", vec![vec![0, 0], vec![1, 0]]), ("all", vec![vec![0, 255], vec![1, 255], vec![3, 1]]), ("all", vec![vec![1, 1]])], vec![("range", vec![vec![3, 0], vec![3, 218]]), ("range", vec![vec![0, 2], vec![0, 3]]), ("all", vec![vec![0, 0], vec![1, 170], vec![2, 255]])], vec![vec![0, 240], vec![1, 24], vec![4, 1]]);', 'fv::<End, End, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, End>>>>(o, r, vec![], vec![], vec![vec![0, 255], vec![1, 255], vec![2, 255]]);', 'fv::<Or<Array<U3, UxAA, End>, Array<U0, UxAA, Array<U2, UxFF, Array<U4, UxFF, End>>>>, Array<U3, UxAA, End>, Array<U3, UxF, Array<U4, Ux7F, End>>>(o, r, vec![("all", vec![vec![3, 170]]), ("all", vec![vec![0, 170], vec![2, 255], vec![4, 255]])], vec![("all", vec![vec![3, 170]])], vec![vec![3, 15], vec![4, 127]]);', 'fv::<Or<Array<U2, UxAA, Array<U4, UxAA, End>>, Or<Array<U2, Ux2, End>, Array<U1, UxFF, End>>>, ForbiddenRange<U254, U255, U4>, End>(o, r, vec![("all", vec![vec![2, 170], vec![4, 170]]), ("all", vec![vec![2, 2]]), ("all", vec![vec![1, 255]])], vec![("range", vec![vec![4, 254], vec![4, 255]])], vec![]);', 'fv::<Array<U4, UxFF, End>, Or<Or<Array<U1, Ux2, End>, ForbiddenRange<U2, U184, U3>>, Or<Array<U5, UxAA, End>, Array<U0, Ux1, Array<U3, UxAA, Array<U5, UxAA, End>>>>>, Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>>(o, r, vec![("all", vec![vec![4, 255]])], vec![("all", vec![vec![1, 2]]), ("range", vec![vec![3, 2], vec![3, 184]]), ("all", vec![vec![5, 170]]), ("all", vec![vec![0, 1], vec![3, 170], vec![5, 170]])], vec![vec![2, 15], vec![3, 240], vec![4, 128]]);', 'fv::<Array<U5, UxAA, End>, Or<Array<U1, UxAA, End>, Or<Array<U3, Ux1, End>, End>>, End>(o, r, vec![("all", vec![vec![5, 170]])], vec![("all", vec![vec![1, 170]]), ("all", vec![vec![3, 1]])], vec![]);', 'fv::<End, ForbiddenRange<U2, U33, U5>, End>(o, r, vec![], vec![("range", vec![vec![5, 2], vec![5, 33]])], vec![]);', 'fv::<Or<Array<U4, Ux0, End>, Array<U2, Ux2, End>>, Array<U2, Ux0, End>, End>(o, r, vec![("all", vec![vec![4, 0]]), ("all", vec![vec![2, 2]])], vec![("all", vec![vec![2, 0]])], vec![]);', 'fv::<Or<Array<U0, Ux0, Array<U2, Ux2, Array<U4, UxAA, End>>>, Or<ForbiddenRange<U1, U67, U2>, Array<U0, Ux0, Array<U3, Ux0, Array<U5, Ux2, End>>>>>, Or<ForbiddenRange<U100, U137, U4>, Array<U0, Ux0, Array<U3, Ux2, End>>>, End>(o, r, vec![("all", vec![vec![0, 0], vec![2, 2], vec![4, 170]]), ("range", vec![vec![2, 1], vec![2, 67]]), ("all", vec![vec![0, 0], vec![3, 0], vec![5, 2]])], vec![("range", vec![vec![4, 100], vec![4, 137]]), ("all", vec![vec![0, 0], vec![3, 2]])], vec![]);', 'fv::<Or<Or<End, ForbiddenRange<U254, U255, U3>>, Array<U0, Ux2, Array<U1, Ux2, Array<U3, UxAA, End>>>>, Or<Array<U1, Ux1, End>, Array<U3, UxFF, Array<U4, Ux2, End>>>, Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>>(o, r, vec![("range", vec![vec![3, 254], vec![3, 255]]), ("all", vec![vec![0, 2], vec![1, 2], vec![3, 170]])], vec![("all", vec![vec![1, 1]]), ("all", vec![vec![3, 255], vec![4, 2]])], vec![vec![0, 240], vec![1, 24], vec![4, 1]]);', 'fv::<End, Array<U1, UxFF, End>, Array<U3, UxF, Array<U4, Ux7F, End>>>(o, r, vec![], vec![("all", vec![vec![1, 255]])], vec![vec![3, 15], vec![4, 127]]);', 'fv::<End, Or<ForbiddenRange<U2, U19, U4>, Array<U5, Ux0, End>>, Array<U5, Ux80, End>>(o, r, vec![], vec![("range", vec![vec![4, 2], vec![4, 19]]), ("all", vec![vec![5, 0]])], vec![vec![5, 128]]);', 'fv::<ForbiddenRange<U1, U200, U3>, Array<U1, Ux1, Array<U2, Ux0, End>>, Array<U0, Ux18, Array<U1, Ux1, Array<U5, UxF0, End>>>>(o, r, vec![("range", vec![vec![3, 1], vec![3, 200]])], vec![("all", vec![vec![1, 1], vec![2, 0]])], vec![vec![0, 24], vec![1, 1], vec![5, 240]]);', 'fv::<Array<U1, Ux2, Array<U4, UxAA, End>>, Array<U2, UxFF, Array<U5, UxAA, End>>, End>(o, r, vec![("all", vec![vec![1, 2], vec![4, 170]])], vec![("all", vec![vec![2, 255], vec![5, 170]])], vec![]);', 'fv::<Array<U1, Ux1, Array<U5, Ux0, End>>, Array<U2, Ux1, Array<U3, UxAA, Array<U5, Ux0, End>>>, End>(o, r, vec![("all", vec![vec![1, 1], vec![5, 0]])], vec![("all", vec![vec![2, 1], vec![3, 170], vec![5, 0]])], vec![]);', 'fv::<Or<Or<Array<U0, UxAA, Array<U1, Ux0, End>>, Array<U2, UxFF, Array<U3, Ux0, End>>>, Array<U2, Ux2, End>>, Array<U0, Ux1, Array<U1, Ux0, End>>, Array<U2, UxFF, End>>(o, r, vec![("all", vec![vec![0, 170], vec![1, 0]]), ("all", vec![vec![2, 255], vec![3, 0]]), ("all", vec![vec![2, 2]])], vec![("all", vec![vec![0, 1], vec![1, 0]])], vec![vec![2, 255]]);', 'fv::<Or<ForbiddenRange<U254, U255, U1>, Or<End, ForbiddenRange<U0, U208, U4>>>, Or<Or<Array<U5, Ux2, End>, ForbiddenRange<U2, U225, U5>>, End>, Array<U3, Ux18, End>>(o, r, vec![("range", vec![vec![1, 254], vec![1, 255]]), ("range", vec![vec![4, 0], vec![4, 208]])], vec![("all", vec![vec![5, 2]]), ("range", vec![vec![5, 2], vec![5, 225]])], vec![vec![3, 24]]);', 'fv::<Or<Array<U3, Ux0, End>, Or<Array<U0, Ux0, Array<U2, Ux2, Array<U3, UxAA, End>>>, Array<U1, Ux0, Array<U2, Ux0, Array<U4, Ux1, End>>>>>, Or<Array<U2, Ux2, Array<U3, UxAA, End>>, Array<U5, UxAA, End>>, End>(o, r, vec![("all", vec![vec![3, 0]]), ("all", vec![vec![0, 0], vec![2, 2], vec![3, 170]]), ("all", vec![vec![1, 0], vec![2, 0], vec![4, 1]])], vec![("all", vec![vec![2, 2], vec![3, 170]]), ("all", vec![vec![5, 170]])], vec![]);', 'fv::<Or<ForbiddenRange<U100, U109, U5>, Or<Array<U2, UxAA, Array<U4, UxAA, Array<U5, Ux2, End>>>, ForbiddenRange<U100, U126, U5>>>, Array<U5, Ux1, End>, Array<U2, UxFF, End>>(o, r, vec![("range", vec![vec![5, 100], vec![5, 109]]), ("all", vec![vec![2, 170], vec![4, 170], vec![5, 2]]), ("range", vec![vec![5, 100], vec![5, 126]])], vec![("all", vec![vec![5, 1]])], vec![vec![2, 255]]);', 'fv::<ForbiddenRange<U0, U160, U1>, Or<ForbiddenRange<U1, U68, U4>, Or<ForbiddenRange<U1, U137, U0>, Array<U1, UxFF, Array<U2, UxFF, Array<U3, Ux1, End>>>>>, Array<U0, UxF0, Array<U1, Ux18, Array<U4, Ux1, End>>>>(o, r, vec![("range", vec![vec![1, 0], vec![1, 160]])], vec![("range", vec![vec![4, 1], vec![4, 68]]), ("range", vec![vec![0, 1], vec![0, 137]]), ("all", vec![vec![1, 255], vec![2, 255], vec![3, 1]])], vec![vec![0, 240], vec![1, 24], vec![4, 1]]);', 'fv::<ForbiddenRange<U0, U17, U5>, Array<U0, UxAA, Array<U1, UxFF, End>>, End>(o, r, vec![("range", vec![vec![5, 0], vec![5, 17]])], vec![("all", vec![vec![0, 170], vec![1, 255]])], vec![]);', 'fv::<Array<U0, Ux2, End>, End, End>(o, r, vec![("all", vec![vec![0, 2]])], vec![], vec![]);', 'fv::<Or<Or<Array<U2, Ux1, Array<U3, UxAA, End>>, Array<U1, Ux2, Array<U2, Ux0, End>>>, Or<Array<U2, UxAA, End>, Array<U1, Ux2, End>>>, End, End>(o, r, vec![("all", vec![vec![2, 1], vec![3, 170]]), ("all", vec![vec![1, 2], vec![2, 0]]), ("all", vec![vec![2, 170]]), ("all", vec![vec![1, 2]])], vec![], vec![]);', 'fv::<ForbiddenRange<U1, U241, U2>, Array<U0, Ux1, End>, Array<U0, Ux18, Array<U1, Ux1, Array<U5, UxF0, End>>>>(o, r, vec![("range", vec![vec![2, 1], vec![2, 241]])], vec![("all", vec![vec![0, 1]])], vec![vec![0, 24], vec![1, 1], vec![5, 240]]);', 'fv::<Or<ForbiddenRange<U1, U120, U5>, Or<Array<U0, Ux1, Array<U1, Ux0, Array<U2, Ux0, End>>>, Array<U0, Ux0, Array<U4, Ux2, Array<U5, Ux0, End>>>>>, ForbiddenRange<U100, U135, U4>, End>(o, r, vec![("range", vec![vec![5, 1], vec![5, 120]]), ("all", vec![vec![0, 1], vec![1, 0], vec![2, 0]]), ("all", vec![vec![0, 0], vec![4, 2], vec![5, 0]])], vec![("range", vec![vec![4, 100], vec![4, 135]])], vec![]);', 'fv::<End, Or<Array<U4, Ux2, End>, Array<U2, Ux1, End>>, Array<U0, UxFF, Array<U1, UxFF, Array<U2, UxFF, Array<U3, UxFF, Array<U4, UxFF, Array<U5, UxFF, End>>>>>>>(o, r, vec![], vec![("all", vec![vec![4, 2]]), ("all", vec![vec![2, 1]])], vec![vec![0, 255], vec![1, 255], vec![2, 255], vec![3, 255], vec![4, 255], vec![5, 255]]);', 'fv::<Array<U2, Ux1, End>, End, Array<U5, UxFF, End>>(o, r, vec![("all", vec![vec![2, 1]])], vec![], vec![vec![5, 255]]);', 'fv::<End, End, Array<U2, UxF, Array<U3, UxF0, Array<U4, Ux80, End>>>>(o, r, vec![], vec![], vec![vec![2, 15], vec![3, 240], vec![4, 128]]);', 'fv::<End, Array<U0, Ux0, Array<U2, UxFF, End>>, Array<U5, Ux80, End>>(o, r, vec![], vec![("all", vec![vec![0, 0], vec![2, 255]])], vec![vec![5, 128]]);']
m+=calls('maskss',mc)
m+=calls('fvs',fc,rng=True)
out+='''fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a.out, &a.suite);
    let mut rng = Rng::new(a.seed);
'''+m+'''    out.finish();
}
'''
out=out.replace('MASKS',', '.join(f'digits_val::<M::ByteAt<U{n}>>()' for n in range(35)))
open('/verif/harness/src/bin/types.rs','w').write(out)
