//! See sum/common.rs.
#![allow(clippy::all, unused_macros, dead_code)]
#![recursion_limit = "512"]
include!("../sum/common.rs");
include!("../sum/facts.rs");
packed!(E2a { A u8 = 0, B NonZeroU8 = 1 });
packed!(E2b { A P12 = 0, B P21 = 1 });
packed!(E2c { A u64 = 0, B u64 = 1 });
packed!(E3a { A u8 = 0, B () = 1, C u16 = 2 });
packed!(E3b { A NonZeroU16 = 0, B P14 = 1, C bool = 2 });
packed!(E3c { A () = 0, B () = 1, C u32 = 2 });
packed!(E4a { A u8 = 0, B u16 = 1, C u32 = 2, D u64 = 3 });
packed!(E4b { A P14 = 0, B NonZeroU32 = 1, C () = 2, D P41 = 3 });
packed!(E5a { A bool = 0, B () = 1, C P12 = 2, D NonZeroU64 = 3, E u8 = 4 });
packed!(E5b { A () = 0, B () = 1, C () = 2, D () = 3, E P181 = 4 });
packed!(E6a { A u128 = 0, B u64 = 1, C u32 = 2, D u16 = 3, E u8 = 4, F () = 5 });
packed!(E7a { A P14 = 0, B NonZeroU8 = 1, C () = 2, D P41 = 3, E () = 4, F u8 = 5, G P12 = 6 });
packed!(E8a { A () = 0, B u8 = 1, C () = 2, D bool = 3, E () = 4, F NonZeroU8 = 5, G () = 6, H i8 = 7 });
packed!(E9a { A P14 = 0, B u8 = 1, C () = 2, D E2a = 3, E SOption<u8> = 4, F () = 5, G () = 6, H Tg8 = 7, I bool = 8 });
packed!(Euc { A Uc<P12> = 0, B u8 = 1, C () = 2 });
packed!(Emu { A Mu<NonZeroU8> = 0, B () = 1, C Mu<bool> = 2 });

fn enums(c: &mut Cx) {
    each!(sum, c, [E2a, E2b, E2c, E3a, E3b, E3c, E4a, E4b, E5a, E5b, E6a, E7a, E8a, E9a, Euc, Emu, O<E3a>, O<E4b>, R<E3b, E5a>, R<u8, E3c>, O<O<E7a>>]);
}
fn main() {
    run(|c| {
        facts(c);
        enums(c);
    });
}
