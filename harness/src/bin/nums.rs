//! Numbers of restricted range (N01) and times (T01): what the types answer, for spec/Nums.tla and spec/Time.tla.
use core::fmt::{Binary, Debug, Display, LowerExp, LowerHex, Octal, UpperExp, UpperHex};
use core::hash::{Hash, Hasher};
use stabby_abi::num::*;
use vharness::{args, catch, obj, Out, Rng, J};

#[path = "../time.rs"]
mod time;

fn bytes(v: u128, n: usize) -> J {
    J::from(v.to_le_bytes()[..n].iter().map(|b| *b as i64).collect::<Vec<_>>())
}
fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
fn digits(s: &str, base: u32) -> Vec<i64> {
    s.chars().map(|c| c.to_digit(base).map_or(99, |d| d as i64)).collect()
}

/// What every restricted integer type offers; values of the base type travel as their bits.
trait Num: Copy + Ord + Hash + 'static {
    const KIND: &'static str;
    const S: bool;
    const N: usize;
    const W: usize;
    const F: u128;
    fn new(v: u128, how: usize) -> Option<Self>;
    fn get(&self) -> u128;
    fn constant(_: &str) -> Option<Self> {
        None
    }
    /// Result as a value of the type, or of the base type.
    fn op(_: Self, _: &str, _: Self, _: bool) -> Option<Result<Self, u128>> {
        None
    }
    fn op_base(_: Self, _: &str, _: u128, _: bool) -> Option<Result<Self, u128>> {
        None
    }
    fn fmt(&self) -> Option<J> {
        None
    }
}
fn printed<T: Display + Debug + LowerHex + UpperHex + Octal + Binary + LowerExp + UpperExp>(x: &T) -> J {
    let d = format!("{x}");
    let neg = d.starts_with('-');
    let dec = d.trim_start_matches('-').to_string();
    let e = format!("{x:e}");
    let (m, ex) = e.split_once('e').unwrap();
    let up = format!("{x:E}") == e.to_uppercase() && m.starts_with('-') == neg;
    let hex = format!("{x:x}");
    let upper = format!("{x:X}");
    // padding and signs follow the same number
    let alt = format!("{x:#x}") == format!("0x{hex}") && format!("{x:>200}").trim_start() == d && format!("{x:+}") == if neg { d.clone() } else { format!("+{d}") };
    let dbg = format!("{x:?}") == d && up && alt && upper == hex.to_uppercase();
    obj! {neg: neg, dec: digits(&dec, 10), hex: digits(&hex, 16), upper: digits(&upper, 16), oct: digits(&format!("{x:o}"), 8), bin: digits(&format!("{x:b}"), 2),
    mant: m.chars().filter_map(|c| c.to_digit(10).map(|d| d as i64)).collect::<Vec<_>>(), exp: ex.parse::<i64>().unwrap(), dbg: dbg}
}
macro_rules! bits {
    ($v: expr, $b: ty, $u: ty) => {
        ($v) as $b as $u as u128
    };
}
macro_rules! mask_common {
    ($b: ty, $u: ty) => {
        fn new(v: u128, _: usize) -> Option<Self> {
            Self::new(v as $b)
        }
        fn get(&self) -> u128 {
            bits!(self.get(), $b, $u)
        }
        fn constant(c: &str) -> Option<Self> {
            Some(match c {
                "MIN" => Self::MIN,
                "MAX" => Self::MAX,
                _ => Self::default(),
            })
        }
        fn fmt(&self) -> Option<J> {
            Some(printed(self))
        }
    };
}
macro_rules! and_or {
    ($a: ident, $o: ident, $b: ident, $assign: ident, $($more: tt)*) => {
        Some(match ($o, $assign) {
            ("and", false) => Ok($a & $b),
            ("and", true) => Ok({
                let mut x = $a;
                x &= $b;
                x
            }),
            $($more)*
            _ => return None,
        })
    };
}
macro_rules! masks {
    (@ false $t: ident $w: tt $b: tt $u: tt) => {
        impl Num for $t {
            const KIND: &'static str = "mask";
            const S: bool = false;
            const N: usize = core::mem::size_of::<$b>();
            const W: usize = $w;
            const F: u128 = 0;
            mask_common!($b, $u);
            fn op(a: Self, o: &str, b: Self, assign: bool) -> Option<Result<Self, u128>> {
                and_or!(a, o, b, assign,
                    ("or", false) => Ok(a | b),
                    ("or", true) => Ok({ let mut x = a; x |= b; x }),
                    ("add", false) => Err(bits!(a + b, $b, $u)),
                    ("sub", false) => Ok(a - b),
                )
            }
            fn op_base(a: Self, o: &str, b: u128, assign: bool) -> Option<Result<Self, u128>> {
                let b = b as $b;
                and_or!(a, o, b, assign,
                    ("or", false) => Err(bits!(a | b, $b, $u)),
                    ("sub", false) => Ok(a - b),
                )
            }
        }
    };
    (@ true $t: ident $w: tt $b: tt $u: tt) => {
        impl Num for $t {
            const KIND: &'static str = "mask";
            const S: bool = true;
            const N: usize = core::mem::size_of::<$b>();
            const W: usize = $w;
            const F: u128 = 0;
            mask_common!($b, $u);
            fn op(a: Self, o: &str, b: Self, assign: bool) -> Option<Result<Self, u128>> {
                and_or!(a, o, b, assign,
                    ("or", false) => Ok(a | b),
                    ("or", true) => Ok({ let mut x = a; x |= b; x }),
                )
            }
            fn op_base(a: Self, o: &str, b: u128, assign: bool) -> Option<Result<Self, u128>> {
                let b = b as $b;
                and_or!(a, o, b, assign,)
            }
        }
    };
    ($($bits: tt $b: tt $u: tt $s: tt: $($t: ident $w: tt)*;)*) => {
        $($(masks!(@ $s $t $w $b $u);)*)*
        fn all_masks(f: &mut dyn FnMut(&Table)) { $($(f(&table::<$t>());)*)* }
    };
}
macro_rules! nots {
    ($($kind: literal $t: ty, $b: ty, $u: ty, $s: literal, $f: expr;)*) => {
        $(impl Num for $t {
            const KIND: &'static str = "not";
            const S: bool = $s;
            const N: usize = core::mem::size_of::<$b>();
            const W: usize = 8 * core::mem::size_of::<$b>();
            const F: u128 = bits!($f, $b, $u);
            fn new(v: u128, how: usize) -> Option<Self> {
                match how {
                    0 => Self::new(v as $b),
                    1 => Self::try_from(v as $b).ok(),
                    // SAFETY: The value is in range.
                    _ if v as $b != $f => Some(unsafe { Self::new_unchecked(v as $b) }),
                    _ => None,
                }
            }
            fn get(&self) -> u128 {
                let v = Self::get(*self);
                if <$b>::from(*self) != v { u128::MAX } else { bits!(v, $b, $u) }
            }
        })*
        fn all_nots(f: &mut dyn FnMut(&Table)) { $(f(&table::<$t>());)* }
    };
}
include!("../nums_types.rs");

/// The functions that test a type.
struct Table {
    n: usize,
    w: usize,
    all: fn(&mut Vec<J>),
    rows: fn(&mut Vec<J>, usize),
    random: fn(&mut Vec<J>, &mut Rng, usize),
    name: &'static str,
    head: fn() -> J,
}
fn table<T: Num>() -> Table {
    Table { n: T::N, w: T::W, all: all::<T>, rows: rows::<T>, random: random::<T>, name: std::any::type_name::<T>(), head: head::<T> }
}
fn head<T: Num>() -> J {
    obj! {k: "type", kind: T::KIND, s: T::S, n: T::N, w: T::W, f: bytes(T::F, T::N)}
}
fn runs(hi: u128, mut f: impl FnMut(u128) -> i64) -> J {
    let mut l: Vec<J> = Vec::new();
    let (mut from, mut c) = (0u128, f(0));
    for v in 1..=hi {
        let d = f(v);
        if d != c {
            l.push(vec![from as i64, v as i64 - 1, c].into());
            (from, c) = (v, d);
        }
    }
    l.push(vec![from as i64, hi as i64, c].into());
    J::L(l)
}
/// Every value: accepted by each constructor alike and read back.
fn all<T: Num>(ev: &mut Vec<J>) {
    let hi = (1u128 << (8 * T::N)) - 1;
    let r = runs(hi, |v| {
        let a: Vec<Option<u128>> = (0..3).map(|h| T::new(v, h).map(|x| x.get())).collect();
        if a.iter().all(|x| *x == Some(v)) {
            1
        } else if a.iter().all(|x| x.is_none()) {
            0
        } else {
            2
        }
    });
    ev.push(obj! {k: "all", runs: r});
}
fn rows<T: Num>(ev: &mut Vec<J>, step: usize) {
    let hi = (1u128 << (8 * T::N)) - 1;
    let known: Vec<Option<T>> = (0..=hi).map(|v| T::new(v, 0)).collect();
    for a in (0..=hi).step_by(step) {
        let Some(x) = known[a as usize] else { continue };
        let h = hash(&x);
        let r = runs(hi, |v| {
            let Some(y) = known[v as usize] else { return -1 };
            let c = x.cmp(&y) as i64 + 1;
            if x.partial_cmp(&y) != Some(x.cmp(&y)) || (x != y) == (x == y) {
                return 99;
            }
            c + if x == y { 4 } else { 0 } + if v == a && hash(&y) == h { 8 } else { 0 }
        });
        ev.push(obj! {k: "row", a: a as i64, runs: r});
    }
}
fn value<T: Num>(rng: &mut Rng) -> u128 {
    let full = if T::N == 16 { u128::MAX } else { (1u128 << (8 * T::N)) - 1 };
    let any = (rng.next() as u128) << 64 | rng.next() as u128;
    let edge = |b: usize| if b >= 128 { 0 } else { 1u128 << b };
    (match rng.below(10) {
        0 => any,
        1 => any & (edge(T::W).wrapping_sub(1)),
        2 => any & (edge(T::W - 1).wrapping_sub(1)),
        3 => (any & (edge(T::W - 1).wrapping_sub(1))).wrapping_neg(),
        4 => (rng.below(4) as u128).wrapping_sub(2),
        5 => edge(T::W).wrapping_sub(rng.below(4) as u128).wrapping_add(1),
        6 => edge(T::W - 1).wrapping_sub(rng.below(4) as u128).wrapping_add(1),
        7 => edge(T::W - 1).wrapping_neg().wrapping_sub(rng.below(4) as u128).wrapping_add(1),
        8 => edge(rng.below(8 * T::N)).wrapping_sub(rng.below(2) as u128),
        _ => T::F.wrapping_sub(rng.below(4) as u128).wrapping_add(1),
    }) & full
}
fn random<T: Num>(ev: &mut Vec<J>, rng: &mut Rng, len: usize) {
    let mut reg: [Option<T>; 3] = [None; 3];
    for c in ["MIN", "MAX", "DEFAULT"] {
        if let Some(x) = T::constant(c) {
            reg[2] = Some(x);
            ev.push(obj! {k: "const", d: 2, c: c, r: bytes(x.get(), T::N)});
            ev.push(obj! {k: "get", x: 2, r: bytes(x.get(), T::N)});
            emit_fmt(ev, &x, 2);
            // the constant and the same number made otherwise
            let how = rng.below(3);
            let y = T::new(x.get(), how);
            push_new(ev, 1, x.get(), y);
            reg[1] = y.or(reg[1]);
            push_cmp(ev, &reg, 1, 2);
        }
    }
    for _ in 0..len {
        let d = rng.below(3);
        let (x, y) = (rng.below(3), rng.below(3));
        match rng.below(8) {
            0 | 1 | 2 => {
                let v = value::<T>(rng);
                let r = T::new(v, rng.below(3));
                push_new(ev, d, v, r);
                reg[d] = r.or(reg[d]);
            }
            3 => push_cmp(ev, &reg, x, y),
            4 => {
                if let Some(v) = reg[x] {
                    ev.push(obj! {k: "get", x: x, r: bytes(v.get(), T::N)});
                    if rng.chance(1, 2) {
                        emit_fmt(ev, &v, x);
                    }
                }
            }
            _ => {
                let o = *rng.pick(&["and", "or", "add", "sub"]);
                let assign = rng.chance(1, 3);
                let with_base = rng.chance(1, 2);
                let b = value::<T>(rng);
                let Some(a) = reg[x] else { continue };
                let r = if with_base { catch(|| T::op_base(a, o, b, assign)) } else { reg[y].map_or(Some(None), |c| catch(|| T::op(a, o, c, assign))) };
                let r = match r {
                    Some(None) => continue,
                    Some(Some(r)) => Some(r),
                    None => None,
                };
                let bb = if with_base { bytes(b, T::N) } else { J::L(vec![]) };
                match r {
                    None => ev.push(obj! {k: "op", o: o, d: -1, x: x, y: y, b: bb, r: vec![-1]}),
                    Some(Err(v)) => ev.push(obj! {k: "op", o: o, d: -1, x: x, y: y, b: bb, r: bytes(v, T::N)}),
                    Some(Ok(v)) => {
                        ev.push(obj! {k: "op", o: o, d: d, x: x, y: y, b: bb, r: bytes(v.get(), T::N)});
                        reg[d] = Some(v);
                        emit_fmt(ev, &v, d);
                        // the same number, made from what it reads as
                        let e = (d + 1) % 3;
                        let w = T::new(v.get(), 0);
                        push_new(ev, e, v.get(), w);
                        reg[e] = w.or(reg[e]);
                        push_cmp(ev, &reg, d, e);
                    }
                }
            }
        }
    }
}
fn push_new<T: Num>(ev: &mut Vec<J>, d: usize, v: u128, r: Option<T>) {
    let mut l = vec![r.is_some() as i64];
    if let Some(x) = r {
        l.extend(x.get().to_le_bytes()[..T::N].iter().map(|b| *b as i64));
    }
    ev.push(obj! {k: "new", d: d, v: bytes(v, T::N), r: l});
}
fn push_cmp<T: Num>(ev: &mut Vec<J>, reg: &[Option<T>; 3], x: usize, y: usize) {
    if let (Some(a), Some(b)) = (reg[x], reg[y]) {
        ev.push(obj! {k: "cmp", x: x, y: y, ord: a.cmp(&b) as i64, eq: a == b, h: hash(&a) == hash(&b), lt: a < b, ge: a >= b,
            max: bytes(a.max(b).get(), T::N), min: bytes(a.min(b).get(), T::N)});
    }
}
fn emit_fmt<T: Num>(ev: &mut Vec<J>, v: &T, x: usize) {
    if let Some(J::O(mut l)) = v.fmt() {
        l.insert(0, ("k", "fmt".into()));
        l.insert(1, ("x", x.into()));
        ev.push(J::O(l));
    }
}
fn main() {
    let a = args();
    let mut out = Out::new(&a.out, &a.suite);
    let mut rng = Rng::new(a.seed);
    match a.suite.as_str() {
        "N01" => {
            let scale = if a.thorough { 8 } else { 1 };
            let mut one = |t: &Table, heads: J| {
                let mut go = |what: &str, f: &mut dyn FnMut(&mut Vec<J>)| {
                    out.begin(&format!("{} {what}", t.name));
                    let mut ev = vec![heads.clone()];
                    f(&mut ev);
                    out.trace_meta(J::L(vec![]), ev, J::from(t.name));
                };
                if t.n <= 2 {
                    go("all", &mut |ev| (t.all)(ev));
                }
                if t.n == 1 {
                    go("rows", &mut |ev| (t.rows)(ev, if scale > 1 { 1 } else { 3 }));
                }
                for _ in 0..scale * if t.w == 8 * t.n { 3 } else { 2 } {
                    go("random", &mut |ev| (t.random)(ev, &mut rng, 30));
                }
            };
            all_heads(&mut |t, h| one(t, h));
        }
        "T01" => time::run(&mut out, &mut rng, a.thorough),
        "T01c" => time::concurrent(&mut out, &mut rng, a.thorough),
        x => panic!("unknown suite {x}"),
    }
    out.finish();
}
fn all_heads(f: &mut dyn FnMut(&Table, J)) {
    all_masks(&mut |t| f(t, (t.head)()));
    all_nots(&mut |t| f(t, (t.head)()));
}
