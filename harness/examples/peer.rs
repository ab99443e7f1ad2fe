//! The library that's loaded by suite R03.
macro_rules! exports {
    ($($n: ident: ($($a: ident: $t: ty),*) -> $r: ty, |$($b: ident),*| $e: expr, |$f: ident, $x: ident, $y: ident| $call: expr;)*) => { $(
        #[stabby::export]
        pub extern "C" fn $n($($b: $t),*) -> $r {
            $e
        }
    )* };
}
vharness::peer_signatures!(exports);
#[stabby::export(canaries)]
pub extern "C" fn canon(a: u8, b: u16) -> u32 {
    a as u32 * 3 + b as u32
}
