//! Types and functions that are the same on both sides of a library's boundary.
use stabby_abi::num::NonMaxU8;
use std::num::NonZeroU8;
pub type Opt<T> = stabby::option::Option<T>;
#[stabby::stabby]
#[derive(Clone, Copy)]
pub struct Dot {
    pub x: u32,
    pub y: u8,
}
#[stabby::stabby]
#[derive(Clone, Copy)]
pub struct Spot {
    pub x: u32,
    pub y: u8,
}
pub mod other {
    #[stabby::stabby]
    #[derive(Clone, Copy)]
    pub struct Dot {
        pub x: u32,
        pub y: u8,
    }
}
/// Declares what the library exports, what's looked up, and how each is called with two numbers.
#[macro_export]
macro_rules! peer_signatures {
    ($m: ident) => {
        $m! {
            two: (a: u8, b: u16) -> u32, |a, b| a as u32 * 3 + b as u32, |f, a, b| f(a as u8, b as u16) as i64;
            swapped: (a: u16, b: u8) -> u32, |a, b| a as u32 * 3 + b as u32, |f, a, b| f(a as u16, b as u8) as i64;
            wide: (a: u8, b: u16) -> u64, |a, b| a as u64 * 3 + b as u64, |f, a, b| f(a as u8, b as u16) as i64;
            signed: (a: i8, b: u16) -> u32, |a, b| a as u32 * 3 + b as u32, |f, a, b| f(a as i8, b as u16) as i64;
            one: (a: u8) -> u32, |a| a as u32 * 3, |f, a, b| f(a as u8) as i64 + b;
            three: (a: u8, b: u16, c: u8) -> u32, |a, b, c| a as u32 * 3 + b as u32 + c as u32, |f, a, b| f(a as u8, b as u16, 0) as i64;
            none: () -> u32, | | 7, |f, a, b| (f() as i64 - 7) + a * 3 + b;
            dot: (a: $crate::peer::Dot) -> u32, |a| a.x * 3 + a.y as u32, |f, a, b| f($crate::peer::Dot { x: a as u32, y: b as u8 }) as i64;
            spot: (a: $crate::peer::Spot) -> u32, |a| a.x * 3 + a.y as u32, |f, a, b| f($crate::peer::Spot { x: a as u32, y: b as u8 }) as i64;
            other: (a: $crate::peer::other::Dot) -> u32, |a| a.x * 3 + a.y as u32, |f, a, b| f($crate::peer::other::Dot { x: a as u32, y: b as u8 }) as i64;
            lent: (a: &'static $crate::peer::Dot) -> u32, |a| a.x * 3 + a.y as u32, |f, a, b| f(Box::leak(Box::new($crate::peer::Dot { x: a as u32, y: b as u8 }))) as i64;
            lent_mut: (a: &'static mut $crate::peer::Dot) -> u32, |a| a.x * 3 + a.y as u32, |f, a, b| f(Box::leak(Box::new($crate::peer::Dot { x: a as u32, y: b as u8 }))) as i64;
            maybe: (a: $crate::peer::Opt<std::num::NonZeroU8>, b: u8) -> u32, |a, b| a.match_owned(|a| a.get() as u32 * 3, || 0) + b as u32, |f, a, b| f(std::num::NonZeroU8::new(a as u8).into(), b as u8) as i64;
            maybe_max: (a: $crate::peer::Opt<stabby_abi::num::NonMaxU8>, b: u8) -> u32, |a, b| a.match_owned(|a| a.get() as u32 * 3, || 0) + b as u32, |f, a, b| f(stabby_abi::num::NonMaxU8::new(a as u8).into(), b as u8) as i64;
            either: (a: stabby::result::Result<u8, u16>, b: u8) -> u32, |a, b| a.match_owned(|a| a as u32, |b| b as u32) * 3 + b as u32, |f, a, b| f(stabby::result::Result::Ok(a as u8), b as u8) as i64;
            rehtie: (a: stabby::result::Result<u16, u8>, b: u8) -> u32, |a, b| a.match_owned(|a| a as u32, |b| b as u32) * 3 + b as u32, |f, a, b| f(stabby::result::Result::Ok(a as u16), b as u8) as i64;
            text: (a: stabby::str::Str<'static>, b: u8) -> u32, |a, b| a.as_str().len() as u32 * 3 + b as u32, |f, a, b| f($crate::peer::text(a).into(), b as u8) as i64;
            bytes: (a: stabby::slice::Slice<'static, u8>, b: u8) -> u32, |a, b| a.as_slice().len() as u32 * 3 + b as u32, |f, a, b| f($crate::peer::text(a).as_bytes().into(), b as u8) as i64;
            calls: (a: extern "C" fn(u8) -> u8, b: u8) -> u32, |a, b| a(b) as u32, |f, a, b| { let _ = b; f($crate::peer::triple, a as u8) as i64 + b };
        }
    };
}
pub fn text(n: i64) -> &'static str {
    &"................................................................................................................................"[..n as usize]
}
pub extern "C" fn triple(b: u8) -> u8 {
    b * 3
}
const _: Option<(NonMaxU8, NonZeroU8)> = None;
