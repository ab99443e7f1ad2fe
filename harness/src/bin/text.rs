//! Strings and vectors of plain data: runs programs of operations and records what is observable (spec/Text.tla).
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use stabby_abi::alloc::string::{ArcStr, BoxedStr, String as SString, WeakStr};
use stabby_abi::alloc::vec::Vec as SVec;
use stabby_abi::slice::{Slice, SliceMut};
use stabby_abi::str::{Str, StrMut};
use vharness::json::il;
use vharness::{fx, obj, talloc, Out, Rng, TrackAlloc as TA, J};
const NS: usize = 3;
/// Plain elements standing for bytes.
trait Plain: Copy + Ord + Hash + 'static {
    const ZERO: bool = false;
    fn of(b: u8) -> Self;
    fn byte(&self) -> u8;
}
impl Plain for u8 {
    fn of(b: u8) -> u8 {
        b
    }
    fn byte(&self) -> u8 {
        *self
    }
}
impl Plain for u16 {
    fn of(b: u8) -> u16 {
        b as u16 * 257
    }
    fn byte(&self) -> u8 {
        if *self % 257 != 0 {
            fx::bad("corrupted element");
        }
        *self as u8
    }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Odd([u8; 3]);
impl Plain for Odd {
    fn of(b: u8) -> Odd {
        Odd([b, !b, b ^ 0x55])
    }
    fn byte(&self) -> u8 {
        if self.0[1] != !self.0[0] || self.0[2] != self.0[0] ^ 0x55 {
            fx::bad("corrupted element");
        }
        self.0[0]
    }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(C, align(32))]
struct Wide([u8; 33]);
impl Plain for Wide {
    fn of(b: u8) -> Wide {
        Wide([b; 33])
    }
    fn byte(&self) -> u8 {
        if self.0.iter().any(|x| *x != self.0[0]) || self as *const _ as usize % 32 != 0 {
            fx::bad("corrupted element");
        }
        self.0[0]
    }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(align(16))]
struct Zero;
impl Plain for Zero {
    const ZERO: bool = true;
    fn of(_: u8) -> Zero {
        Zero
    }
    fn byte(&self) -> u8 {
        0
    }
}
#[derive(Clone, Debug)]
struct Op {
    k: &'static str,
    s: usize,
    t: usize,
    a: Vec<u8>,
    how: u8,
    fail: i64,
}
fn op(k: &'static str, s: usize, t: usize, a: &[u8], how: u8) -> Op {
    Op { k, s, t, a: a.to_vec(), how, fail: -1 }
}
enum S<E: Plain> {
    N,
    V(SVec<E, TA>),
    T(SString<TA>),
    B(BoxedStr<TA>),
    A(ArcStr<TA>),
    W(WeakStr<TA>),
}
use S::*;
fn bytes(b: &[u8]) -> Vec<i64> {
    b.iter().map(|b| *b as i64).collect()
}
fn some(v: Vec<i64>) -> Vec<i64> {
    let mut r = vec![1];
    r.extend(v);
    r
}
impl<E: Plain> S<E> {
    fn kind(&self) -> &'static str {
        match self {
            N => "none",
            V(_) => "vec",
            T(_) => "str",
            B(_) => "bstr",
            A(_) => "astr",
            W(_) => "wstr",
        }
    }
    fn content(&self) -> Vec<i64> {
        match self {
            V(v) => v.iter().map(|e| e.byte() as i64).collect(),
            T(v) => bytes(v.as_str().as_bytes()),
            B(v) => bytes(v.as_str().as_bytes()),
            A(v) => bytes(v.as_str().as_bytes()),
            N | W(_) => vec![],
        }
    }
    fn proj(&self) -> J {
        let code = ["none", "vec", "str", "bstr", "astr", "wstr"].iter().position(|x| *x == self.kind()).unwrap() as i64;
        let mut r = vec![code];
        r.extend(self.content());
        il(r)
    }
    fn text(&self) -> Option<&str> {
        match self {
            T(v) => Some(v),
            B(v) => Some(v),
            A(v) => Some(v),
            _ => None,
        }
    }
    fn text_mut(&mut self) -> Option<Option<&mut str>> {
        match self {
            T(v) => Some(Some(v.as_str_mut())),
            B(v) => Some(Some(v.as_str_mut())),
            A(v) => Some(v.as_str_mut()),
            _ => None,
        }
    }
}
fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn ord(o: std::cmp::Ordering) -> i64 {
    o as i64 + 1
}
/// As `cmp` would return it, if all the ways to ask agree.
fn compare<T: Ord>(a: &T, b: &T) -> Vec<i64> {
    let c = a.cmp(b);
    let agree = (a == b) == (c == std::cmp::Ordering::Equal)
        && (a != b) == (c != std::cmp::Ordering::Equal)
        && a.partial_cmp(b) == Some(c)
        && (a < b) == (c == std::cmp::Ordering::Less)
        && (a >= b) == (c != std::cmp::Ordering::Less);
    vec![if agree { (a == b) as i64 } else { 9 }, ord(c)]
}
/// Runs one operation. N: it doesn't apply.
fn exec<E: Plain>(o: &Op, sl: &mut [S<E>]) -> Option<(Vec<i64>, &'static str, &'static str)> {
    let s = o.s;
    let t = o.t;
    let kind = sl[s].kind();
    let mut how = "op";
    let mut nk = "none";
    let ok = vec![0];
    let text = std::str::from_utf8(&o.a).ok();
    let r = match (o.k, kind) {
        ("new", "none") => {
            nk = if o.how % 2 == 0 { "vec" } else { "str" };
            sl[s] = match o.how {
                0 => V(SVec::new_in(TA::new(1))),
                2 => V(SVec::default()),
                1 => T(SString::new_in(TA::new(1))),
                _ => T(SString::default()),
            };
            ok
        }
        ("from", "none") => {
            let b: Vec<E> = o.a.iter().map(|b| E::of(*b)).collect();
            if o.how == 0 {
                nk = "vec";
                sl[s] = V(SVec::from(&b[..]))
            } else {
                nk = "str";
                sl[s] = T(match o.how {
                    1 => SString::from(text?),
                    2 => SString::from(Str::new(text?)),
                    3 => SString::from(std::string::String::from(text?)),
                    _ => {
                        let mut v = SVec::<u8, TA>::new_in(TA::new(1));
                        v.copy_extend(&o.a);
                        SString::try_from(v).ok()?
                    }
                })
            }
            ok
        }
        ("drop", k) if k != "none" => {
            sl[s] = N;
            ok
        }
        ("clone", _) if matches!(sl[t], N) => {
            let c = match &sl[s] {
                V(v) => V(v.clone()),
                T(v) => T(v.clone()),
                A(v) => A(v.clone()),
                W(v) => W(v.clone()),
                _ => return None,
            };
            sl[t] = c;
            ok
        }
        ("downgrade", "astr") if matches!(sl[t], N) => {
            let A(v) = &sl[s] else { unreachable!() };
            sl[t] = W(WeakStr::from(v));
            ok
        }
        ("upgrade", "wstr") if matches!(sl[t], N) => {
            let W(v) = &sl[s] else { unreachable!() };
            match v.upgrade() {
                Some(v) => {
                    sl[t] = A(v);
                    vec![1]
                }
                None => ok,
            }
        }
        ("unique", "astr") => {
            let A(v) = &sl[s] else { unreachable!() };
            vec![ArcStr::is_unique(v) as i64]
        }
        ("upper", _) => {
            match sl[s].text_mut()? {
                Some(x) if o.how == 0 => x.make_ascii_uppercase(),
                Some(x) => {
                    let mut m = StrMut::from(x);
                    if o.how == 1 {
                        m.make_ascii_uppercase()
                    } else {
                        <&mut str>::from(m).make_ascii_uppercase()
                    }
                }
                None => return Some((vec![2], how, nk)),
            }
            ok
        }
        ("cmp", _) if s != t => {
            let r = match (&sl[s], &sl[t]) {
                (V(a), V(b)) => {
                    let x: Vec<E> = a.iter().copied().collect();
                    let y: Vec<E> = b.iter().copied().collect();
                    let mut r = compare(a, b);
                    if r[0] == 1 && h(&Slice::new(&x)) != h(&Slice::new(&y)) || (Slice::new(&x) == Slice::new(&y)) != (r[0] == 1) || (a == &&y[..]) != (r[0] == 1) {
                        r[0] = 9;
                    }
                    r
                }
                (T(a), T(b)) => {
                    let mut r = compare(a, b);
                    if h(a) != h(a.as_str()) {
                        r[0] = 9;
                    }
                    r
                }
                (B(a), B(b)) if a == b && h(a) != h(b) => vec![9, 7],
                (B(a), B(b)) => compare(a, b),
                (A(a), A(b)) if a == b && h(a) != h(b) => vec![9, 7],
                (A(a), A(b)) => compare(a, b),
                (a, b) => {
                    let (Some(x), Some(y)) = (a.text(), b.text()) else { return None };
                    let (x, y) = (Str::new(x), Str::new(y));
                    let c = x.partial_cmp(&y).unwrap();
                    if x == y && h(&x) != h(&y) {
                        vec![9, 9]
                    } else {
                        vec![(x == y) as i64, ord(c)]
                    }
                }
            };
            if let (T(a), Some(b)) = (&sl[s], sl[t].text()) {
                // against plain text
                if vec![(a == &b) as i64, ord(a.partial_cmp(&b).unwrap())] != r {
                    return Some((vec![9, 8], how, nk));
                }
            }
            r
        }
        ("view", "vec") => {
            let V(v) = &mut sl[s] else { unreachable!() };
            let r: Vec<i64> = match o.how % 5 {
                0 => Slice::new(v).iter().map(|e| e.byte() as i64).collect(),
                1 => Slice::from(SliceMut::from(v.as_slice_mut())).as_slice().iter().map(|e| e.byte() as i64).collect(),
                2 => SliceMut::from(&mut v[..]).iter_mut().map(|e| e.byte() as i64).collect(),
                3 => <&mut [E]>::from(SliceMut::from(&mut v[..])).iter().map(|e| e.byte() as i64).collect(),
                _ => <&[E]>::from(Slice::from(&mut v[..])).iter().map(|e| e.byte() as i64).collect(),
            };
            r
        }
        ("view", _) => {
            let fmt = |d: &dyn std::fmt::Display| bytes(format!("{d}").as_bytes());
            let dbg = |d: &dyn std::fmt::Debug| {
                let f = format!("{d:?}");
                bytes(f.as_bytes())
            };
            let x = sl[s].text()?;
            if matches!(o.how, 5 | 6) && !x.chars().all(|c| c.is_alphanumeric() || c == ' ' || c == ',') {
                return None; // would be escaped
            }
            match o.how {
                0 => bytes(Str::new(x).as_str().as_bytes()),
                1 => fmt(&Str::new(x)),
                2 => match &sl[s] {
                    T(v) => fmt(v),
                    B(v) => fmt(v),
                    A(v) => fmt(v),
                    _ => unreachable!(),
                },
                3 => {
                    // into an empty stable string, in two steps
                    let mut n = stabby_abi::alloc::string::String::new();
                    let m = x.char_indices().nth(1).map_or(x.len(), |(i, _)| i);
                    write!(n, "{}", &x[..m]).unwrap();
                    write!(n, "{}", &x[m..]).unwrap();
                    bytes(n.as_bytes())
                }
                4 => match &sl[s] {
                    T(v) => bytes(std::string::String::from(v.clone()).as_bytes()),
                    B(v) => bytes(AsRef::<str>::as_ref(v).as_bytes()),
                    A(v) => bytes(AsRef::<str>::as_ref(v).as_bytes()),
                    _ => unreachable!(),
                },
                5 => {
                    how = "debug";
                    match &sl[s] {
                        T(v) => dbg(v),
                        B(v) => dbg(v),
                        A(v) => dbg(v),
                        _ => unreachable!(),
                    }
                }
                6 => {
                    how = "debug";
                    dbg(&Str::from(x))
                }
                _ => {
                    let m = sl[s].text_mut()??;
                    match o.how {
                        7 => bytes(Str::from(StrMut::from(m)).as_str().as_bytes()),
                        8 => bytes(<&str>::from(StrMut::from(m)).as_bytes()),
                        _ => bytes(AsRef::<str>::as_ref(&StrMut::from(m)).as_bytes()),
                    }
                }
            }
        }
        ("sub", _) => {
            let (lo, hi) = (o.a[0] as usize, o.a[1] as usize);
            match &sl[s] {
                T(v) => some(bytes(v[lo..hi].as_bytes())),
                B(v) => some(bytes(v[lo..hi].as_bytes())),
                A(v) => some(bytes(v[lo..hi].as_bytes())),
                _ => return None,
            }
        }
        (k, "vec") if matches!(k, "push" | "pop" | "truncate" | "concat") || k == "write" && std::any::TypeId::of::<E>() == std::any::TypeId::of::<u8>() => {
            let V(v) = &mut sl[s] else { unreachable!() };
            let b: Vec<E> = o.a.iter().map(|b| E::of(*b)).collect();
            match k {
                "push" => {
                    v.push(b[0]);
                    ok
                }
                "pop" => match v.pop() {
                    Some(x) => vec![1, x.byte() as i64],
                    None => ok,
                },
                "truncate" => {
                    v.truncate(o.a[0] as usize);
                    ok
                }
                "concat" if o.how == 0 => {
                    v.copy_extend(&b);
                    ok
                }
                "concat" => {
                    how = "try";
                    match v.try_copy_extend(&b) {
                        Ok(()) => ok,
                        Err(_) => vec![2],
                    }
                }
                _ => {
                    let v: &mut dyn std::any::Any = v;
                    let v = v.downcast_mut::<SVec<u8, TA>>()?;
                    match v.write(&o.a) {
                        Ok(n) => {
                            v.flush().unwrap();
                            vec![1, n as i64]
                        }
                        Err(_) => vec![2],
                    }
                }
            }
        }
        ("concat", "str") => {
            let text = text?;
            let T(v) = &mut sl[s] else { unreachable!() };
            match o.how {
                0 => {
                    *v += text;
                    ok
                }
                1 => {
                    how = "try";
                    match v.try_concat(text) {
                        Ok(()) => ok,
                        Err(_) => vec![2],
                    }
                }
                2 => {
                    how = "try";
                    match v.try_concat(&Str::new(text)) {
                        Ok(()) => ok,
                        Err(_) => vec![2],
                    }
                }
                _ => {
                    how = "add";
                    let T(v) = std::mem::replace(&mut sl[s], N) else { unreachable!() };
                    sl[s] = T(v + text);
                    ok
                }
            }
        }
        ("tobytes", "str") if std::any::TypeId::of::<E>() == std::any::TypeId::of::<u8>() => {
            let T(v) = std::mem::replace(&mut sl[s], N) else { unreachable!() };
            let v: SVec<u8, TA> = v.into();
            let v: Box<dyn std::any::Any> = Box::new(v);
            sl[s] = V(*v.downcast::<SVec<E, TA>>().ok()?);
            ok
        }
        ("frombytes", "vec") => {
            let V(v) = std::mem::replace(&mut sl[s], N) else { unreachable!() };
            let v: Box<dyn std::any::Any> = Box::new(v);
            match v.downcast::<SVec<u8, TA>>() {
                Ok(v) => match SString::try_from(*v) {
                    Ok(v) => {
                        sl[s] = T(v);
                        ok
                    }
                    Err(e) => vec![2, e.valid_up_to() as i64],
                },
                Err(v) => {
                    sl[s] = V(*v.downcast::<SVec<E, TA>>().ok()?);
                    return None;
                }
            }
        }
        ("tobox", "str") => {
            let T(v) = std::mem::replace(&mut sl[s], N) else { unreachable!() };
            sl[s] = B(v.into());
            ok
        }
        ("toarc", "str") => {
            let T(v) = std::mem::replace(&mut sl[s], N) else { unreachable!() };
            sl[s] = A(v.into());
            ok
        }
        ("tostr", "bstr") => {
            let B(v) = std::mem::replace(&mut sl[s], N) else { unreachable!() };
            sl[s] = T(v.into());
            ok
        }
        ("tostr", "astr") => {
            let A(v) = std::mem::replace(&mut sl[s], N) else { unreachable!() };
            match SString::try_from(v) {
                Ok(v) => {
                    sl[s] = T(v);
                    ok
                }
                Err(v) => {
                    sl[s] = A(v);
                    vec![2]
                }
            }
        }
        _ => return None,
    };
    Some((r, how, nk))
}
fn run<E: Plain>(out: &mut Out, prog: &[Op]) {
    let desc = format!("{} {:?}", std::any::type_name::<E>(), prog);
    out.begin(&desc);
    talloc::reset();
    let _ = fx::take();
    let mut sl: Vec<S<E>> = (0..NS).map(|_| N).collect();
    let mut ev = vec![];
    for o in prog {
        let mut o = o.clone();
        if E::ZERO {
            if !matches!(o.k, "truncate" | "sub") {
                o.a.iter_mut().for_each(|x| *x = 0);
            }
        }
        talloc::fail_at(o.fail);
        let kind0 = sl[o.s].kind();
        let r = catch_unwind(AssertUnwindSafe(|| exec(&o, &mut sl)));
        let fired = o.fail >= 0 && !talloc::failure_pending();
        talloc::fail_at(-1);
        let _ = kind0;
        let (r, how, nk) = match r {
            Ok(None) => continue,
            Ok(Some(x)) => x,
            Err(_) => (
                vec![-1],
                if o.k == "concat" && kind0 == "str" && o.how == 3 { "add" } else { "op" },
                if o.k == "from" { if o.how == 0 { "vec" } else { "str" } } else { "none" },
            ),
        };
        talloc::audit();
        let f = fx::take();
        ev.push(obj!(k: o.k, s: o.s + 1, t: o.t + 1, a: il(bytes(&o.a)), f: fired, how: how, kind: nk, r: il(r),
            w: J::L(sl.iter().map(|s| s.proj()).collect()), bad: f.badj()));
    }
    drop(sl);
    talloc::audit();
    let f = fx::take();
    ev.push(obj!(k: "end", nb: talloc::live().len(), bad: f.badj()));
    out.trace_meta(J::I(0), ev, J::S(desc));
}
const STRINGS: &[&str] = &["", "a", "z", "A", "ab", "aé", "é", "\u{7FF}", "\u{800}", "\u{D7FF}", "\u{E000}", "\u{FFFD}", "𐍈", "\u{10FFFF}", "hello world, this is longer than the inline capacity", "ß𝄞x"];
const OPS: &[&str] = &["concat", "concat", "concat", "tobytes", "frombytes", "frombytes", "tobox", "toarc", "tostr", "tostr", "tostr", "clone", "clone", "downgrade", "upgrade", "unique", "upper", "cmp", "cmp", "view", "view", "sub", "drop", "drop", "from", "from", "from", "new", "push", "pop", "truncate", "write"];
const BYTES: &[u8] = &[0, 0x41, 0x61, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFF];
fn random_prog(r: &mut Rng, len: usize, inj: usize) -> Vec<Op> {
    (0..len)
        .map(|_| {
            let k = *r.pick(OPS);
            let mut a = r.pick(STRINGS).as_bytes().to_vec();
            let mut how = r.below(10) as u8;
            match k {
                "push" => a = vec![*r.pick(BYTES)],
                "pop" | "upper" | "cmp" | "view" | "unique" | "clone" | "drop" => {
                    a.clear();
                    if k == "upper" {
                        how %= 3
                    }
                }
                "truncate" => a = vec![r.below(6) as u8],
                "sub" => a = vec![r.below(7) as u8, r.below(9) as u8],
                "concat" | "new" => how %= 4,
                "from" => how %= 5,
                "write" if r.chance(1, 3) => a = (0..r.below(6)).map(|_| *r.pick(BYTES)).collect(),
                _ => {}
            }
            if k == "from" && how == 0 || k == "concat" && r.chance(1, 8) {
                a = (0..r.below(6)).map(|_| *r.pick(BYTES)).collect();
            }
            Op { k, s: r.below(NS), t: r.below(NS), a, how, fail: if k != "view" && r.chance(inj, 100) { r.below(2) as i64 } else { -1 } }
        })
        .collect()
}
fn main() {
    let args = vharness::args();
    let mut out = Out::new(&args.out, &args.suite);
    let mut rng = Rng::new(args.seed * 7919 + 3);
    let scale = if args.thorough { 15 } else { 1 };
    match args.suite.as_str() {
        "C06" => {
            // every short sequence of telling bytes, as text, a program for many of them
            let mut p = vec![];
            let mut all: Vec<Vec<u8>> = vec![vec![]];
            for a in BYTES {
                all.push(vec![*a]);
                for b in BYTES {
                    all.push(vec![*a, *b]);
                    for c in BYTES {
                        if args.thorough || *a >= 0xE0 && *b >= 0x80 && *b < 0xC0 || rng.chance(1, 20) {
                            all.push(vec![*a, *b, *c]);
                        }
                        if *a >= 0xF0 && (*b >= 0x80 && *b < 0xC0) && (*c >= 0x80 && *c < 0xC0 || rng.chance(1, 8)) {
                            for d in BYTES {
                                if args.thorough || rng.chance(1, 3) {
                                    all.push(vec![*a, *b, *c, *d]);
                                }
                            }
                        }
                    }
                }
            }
            for a in &all {
                p.push(op("from", 0, 1, a, 0));
                p.push(op("frombytes", 0, 1, &[], 0));
                p.push(op("drop", 0, 1, &[], 0));
                if p.len() > 90 {
                    run::<u8>(&mut out, &p);
                    p.clear();
                }
            }
            run::<u8>(&mut out, &p);
            // every pair of texts, compared in every form
            for a in STRINGS {
                for b in STRINGS {
                    let mut p = vec![op("from", 0, 0, a.as_bytes(), 1), op("from", 1, 0, b.as_bytes(), 2), op("cmp", 0, 1, &[], 0)];
                    for (k, s) in [("tobox", 0), ("tobox", 1), ("tostr", 0), ("toarc", 0), ("tostr", 1), ("toarc", 1), ("tostr", 0), ("tobytes", 0), ("tostr", 1), ("tobytes", 1)] {
                        p.push(op(k, s, 0, &[], 0));
                        p.push(op("cmp", 0, 1, &[], 0));
                        p.push(op("view", s, 0, &[], p.len() as u8 % 10));
                    }
                    run::<u8>(&mut out, &p);
                }
            }
            // every way to see a text, and every part of it
            for a in STRINGS {
                for form in ["", "tobox", "toarc"] {
                    let mut p = vec![op("from", 0, 0, a.as_bytes(), 3)];
                    if form != "" {
                        p.push(op(form, 0, 0, &[], 0));
                    }
                    for h in 0..10 {
                        p.push(op("view", 0, 0, &[], h));
                    }
                    for i in 0..=5 {
                        for j in 0..=6 {
                            p.push(op("sub", 0, 0, &[i, j], 0));
                        }
                    }
                    for h in 0..3 {
                        p.push(op("upper", 0, 0, &[], h));
                    }
                    run::<u8>(&mut out, &p);
                }
            }
            for i in 0..4000 * scale {
                let len = 10 + rng.below(60);
                let p = random_prog(&mut rng, len, if i % 2 == 0 { 0 } else { 25 });
                match i % 10 {
                    0 => run::<u16>(&mut out, &p),
                    1 => run::<Odd>(&mut out, &p),
                    2 => run::<Wide>(&mut out, &p),
                    3 => run::<Zero>(&mut out, &p),
                    _ => run::<u8>(&mut out, &p),
                }
            }
        }
        x => panic!("unknown suite {x}"),
    }
    out.finish();
}
