//! See sum/common.rs.
#![allow(clippy::all, unused_macros, dead_code)]
#![recursion_limit = "512"]
include!("../sum/common.rs");
fn results1(c: &mut Cx) {
    cross!(c, [(), u8, NonZeroU8, bool, u16], [(), u8, NonZeroU16, bool, u32, P12, P1z2, P14, P181, A8, [u8; 3], Uc<P12>]);
    cross!(c, [u32, u64, u128], [(), u8, NonZeroU16, u32, u64, NonZeroU64, u128, P12, P41, A16]);
}
fn main() {
    run(|c| {
        results1(c);
    });
}
