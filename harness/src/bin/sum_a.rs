//! See sum/common.rs.
#![allow(clippy::all, unused_macros, dead_code)]
#![recursion_limit = "512"]
include!("../sum/common.rs");
fn leaves(c: &mut Cx) {
    each!(ty, c, [(), u8, i8, u16, u32, i32, u64, i64, u128, f32, f64, bool, std::cmp::Ordering, NonZeroU8, NonZeroI8, NonZeroU16, NonZeroU32,
        NonZeroU64, NonZeroU128, &'static u64, std::ptr::NonNull<u16>, P12, P21, P1z2, Pz21, P14, P41, Pb1, P1b, P181, P1z81, PP, Pmix, PRes, POpt, PTag,
        A4, A8, A16, A2, Sz1, Sunit, T2<u8, NonZeroU32>, T2<bool, u16>, [u8; 3], [NonZeroU16; 1], [NonZeroU16; 2], [P12; 1], [P12; 2], [bool; 3],
        Mu<NonZeroU8>, Mu<NonZeroU32>, Mu<bool>, U12, Uz8, Uc<P12>, Uc<NonZeroU8>, Tg8, Tg16, Tg32, Tg8b, F8, F32]);
}
fn options(c: &mut Cx) {
    each!(sum, c, [SOption<()>, SOption<u8>, SOption<u16>, SOption<u64>, SOption<u128>, SOption<bool>, SOption<std::cmp::Ordering>, SOption<NonZeroU8>,
        SOption<NonZeroU32>, SOption<NonZeroU128>, SOption<&'static u64>, SOption<stabby_abi::str::Str<'static>>, SOption<P12>, SOption<P21>, SOption<P1z2>,
        SOption<P1b>, SOption<P181>, SOption<P1z81>, SOption<PP>, SOption<Pmix>, SOption<PRes>, SOption<POpt>, SOption<PTag>, SOption<A4>, SOption<A8>,
        SOption<A16>, SOption<[u8; 3]>, SOption<[NonZeroU16; 1]>, SOption<[P12; 2]>, SOption<Mu<NonZeroU32>>, SOption<U12>, SOption<Uz8>,
        SOption<Uc<P12>>, SOption<Uc<NonZeroU8>>, SOption<Tg8>, SOption<Tg16>, SOption<F8>, SOption<SOption<u8>>, SOption<SOption<SOption<bool>>>,
        SOption<SOption<P12>>, SOption<SResult<u8, u8>>, SOption<SResult<P14, u32>>, SOption<SResult<SOption<u16>, P12>>]);
}
fn main() {
    run(|c| {
        leaves(c);
        options(c);
    });
}
