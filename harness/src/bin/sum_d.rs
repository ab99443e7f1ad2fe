//! See sum/common.rs.
#![allow(clippy::all, unused_macros, dead_code)]
#![recursion_limit = "512"]
include!("../sum/common.rs");
fn nested(c: &mut Cx) {
    cross!(c, [R<u8, u8>, R<u8, NonZeroU16>, R<P12, u8>, R<u32, u32>, O<P14>, O<bool>], [(), u8, NonZeroU16, P14, R<u8, u8>, R<P12, P12>, O<u64>, P181]);
    cross!(c, [PRes, POpt, PTag], [u8, bool, R<u8, bool>, PRes]);
    cross!(c, [u8, P14, NonZeroU64], [R<u8, u8>, R<P14, P41>, O<O<u8>>, PTag, PRes, R<R<u8, u16>, R<u32, bool>>]);
    each!(sum, c, [R<R<P41, P41>, R<P41, P41>>, R<R<P14, u8>, O<P12>>, R<O<O<P181>>, R<R<u8, u8>, R<u8, P12>>>, O<R<R<P12, P12>, R<P12, P12>>>]);
}
fn main() {
    run(|c| {
        nested(c);
    });
}
