//! See sum/common.rs.
#![allow(clippy::all, unused_macros, dead_code)]
#![recursion_limit = "512"]
include!("../sum/common.rs");
fn results2(c: &mut Cx) {
    cross!(c, [P12, P21, P1z2, P14], [u8, NonZeroU8, bool, u16, NonZeroU32, u64, P12, P14, P41, Tg8, A8, Uc<P12>]);
    cross!(c, [P41, P181, PP], [u8, NonZeroU16, P12, P14, P41, P181, A8, F32]);
    cross!(c, [P1z81, A16], [u8, NonZeroU16, P14, A16]);
    cross!(c, [Tg16, Tg32, [NonZeroU16; 1], Mu<NonZeroU32>, U12], [u8, NonZeroU8, P14, Mu<bool>]);
}
fn main() {
    run(|c| {
        results2(c);
    });
}
