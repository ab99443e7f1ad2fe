//! Descriptions of types: of those that are declared, and arbitrary ones.
use stabby_abi::istable::IStable;
use stabby_abi::report::{gen_id, FieldReport, TyTy, TypeReport};
use stabby_abi::StableLike;
use std::hash::{Hash, Hasher};
use vharness::{obj, Out, Rng, J};

#[derive(Clone, PartialEq, Debug)]
pub struct Tree {
    n: String,
    m: String,
    v: u32,
    k: String,
    f: Vec<(String, Tree)>,
}
impl Tree {
    fn json(&self) -> J {
        obj! {n: self.n.as_str(), m: self.m.as_str(), v: self.v, k: self.k.as_str(),
        f: J::L(self.f.iter().map(|(n, t)| obj! {n: n.as_str(), t: t.json()}).collect())}
    }
    /// What the report says, read from its parts.
    fn of(r: &TypeReport) -> Tree {
        let mut f = Vec::new();
        let mut at = *r.fields.as_ref();
        while let Some(x) = at {
            f.push((x.name.as_str().to_string(), Tree::of(x.ty)));
            at = *x.next_field.as_ref();
        }
        let k = match r.tyty {
            TyTy::Struct => "struct".to_string(),
            TyTy::Enum(s) => s.as_str().to_string(),
            TyTy::Union => "union".to_string(),
        };
        Tree { n: r.name.as_str().to_string(), m: r.module.as_str().to_string(), v: r.version, k, f }
    }
    fn report(&self) -> &'static TypeReport {
        fn text(s: &str) -> stabby_abi::str::Str<'static> {
            stabby_abi::str::Str::new(Box::leak(s.to_string().into_boxed_str()))
        }
        let mut fields: Option<&'static FieldReport> = None;
        for (n, t) in self.f.iter().rev() {
            fields = Some(Box::leak(Box::new(FieldReport { name: text(n), ty: t.report(), next_field: StableLike::new(fields) })));
        }
        let tyty = match self.k.as_str() {
            "struct" => TyTy::Struct,
            "union" => TyTy::Union,
            s => TyTy::Enum(text(s)),
        };
        Box::leak(Box::new(TypeReport { name: text(&self.n), module: text(&self.m), fields: StableLike::new(fields), tyty, version: self.v }))
    }
    fn all(&self, f: &mut impl FnMut(&str)) {
        f(&self.n);
        f(&self.m);
        for (n, t) in &self.f {
            f(n);
            t.all(f);
        }
    }
}
const WORDS: &[&str] = &["a", "b", "ab", "ba", "aa", "u8", "inner"];
const KINDS: &[&str] = &["struct", "union", "u8", "i8", "stabby", "rust"];
fn word(rng: &mut Rng) -> String {
    rng.pick(WORDS).to_string()
}
fn tree(rng: &mut Rng, depth: usize) -> Tree {
    let n = if depth == 0 { 0 } else { rng.below(4) };
    Tree {
        n: word(rng),
        m: if rng.chance(1, 3) { word(rng) } else { "m".into() },
        v: if rng.chance(1, 4) { rng.below(3) as u32 } else { 0 },
        k: if rng.chance(1, 3) { rng.pick(KINDS).to_string() } else { "struct".into() },
        f: (0..n).map(|_| (word(rng), tree(rng, depth - 1))).collect(),
    }
}
fn other(rng: &mut Rng, w: &str) -> String {
    loop {
        let x = word(rng);
        if x != w {
            return x;
        }
    }
}
/// Differs in one respect, somewhere.
fn differ(rng: &mut Rng, t: &mut Tree) {
    if !t.f.is_empty() && rng.chance(2, 3) {
        let i = rng.below(t.f.len());
        return differ(rng, &mut t.f[i].1);
    }
    let n = t.f.len();
    match rng.below(11) {
        0 => t.n = other(rng, &t.n),
        1 => t.m = other(rng, &t.m),
        2 => t.v += 1 + rng.below(2) as u32 * 255,
        3 => {
            t.k = loop {
                let k = rng.pick(KINDS).to_string();
                if k != t.k {
                    break k;
                }
            }
        }
        4 => t.f.push((word(rng), tree(rng, 1))),
        5 => t.f.insert(0, (word(rng), tree(rng, 1))),
        6 if n > 0 => {
            t.f.pop();
        }
        7 if n > 0 => {
            t.f.remove(0);
        }
        8 if n > 0 => {
            let i = rng.below(n);
            t.f[i].0 = other(rng, &t.f[i].0);
        }
        9 if n > 1 => t.f.reverse(),
        10 if n > 0 => {
            // the same words, split elsewhere
            let i = rng.below(n);
            let (a, b) = &mut t.f[i];
            std::mem::swap(a, &mut b.m);
        }
        _ => t.v += 1,
    }
}
fn hash(r: &TypeReport) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    r.hash(&mut h);
    h.finish()
}
fn cmp(k: &str, a: (&'static TypeReport, u64), b: (&'static TypeReport, u64), same: bool) -> J {
    let (ids, (a, b)) = (a.1 == b.1, (a.0, b.0));
    obj! {k: k, a: Tree::of(a).json(), b: Tree::of(b).json(), compat: a.is_compatible(b), tapmoc: b.is_compatible(a), eq: a == b,
    ids: ids, hashes: hash(a) == hash(b), shown: a.to_string() == b.to_string(), same: same}
}
fn alone(r: &'static TypeReport) -> Vec<J> {
    let t = Tree::of(r);
    let names: Vec<J> = r.fields().map(|f| J::from(f.name.as_str())).collect();
    let mut consts = Vec::new();
    let mut at = r.fields();
    loop {
        let (next, f) = at.next_const();
        at = next;
        match f {
            Some(f) => consts.push(J::from(f.name.as_str())),
            None => break,
        }
    }
    let mut after = r.fields();
    after.by_ref().for_each(drop);
    let after = after.next().is_some() || at.next().is_some();
    let text = r.to_string();
    let mut shown = text.contains(&format!("{}", r.version));
    t.all(&mut |w| shown &= text.contains(w));
    vec![obj! {k: "fields", a: t.json(), names: J::L(names), consts: J::L(consts), after: after}, obj! {k: "show", r: shown}]
}

/// What's declared, and what is to be said of it.
mod decl {
    #[stabby::stabby]
    pub struct Unit;
    #[stabby::stabby]
    pub struct Pair(pub u8, pub u16);
    #[stabby::stabby]
    pub struct Point {
        pub x: u32,
        pub y: i32,
    }
    pub mod swapped {
        #[stabby::stabby]
        pub struct Point {
            pub y: i32,
            pub x: u32,
        }
    }
    pub mod types {
        #[stabby::stabby]
        pub struct Point {
            pub x: i32,
            pub y: i32,
        }
    }
    pub mod less {
        #[stabby::stabby]
        pub struct Point {
            pub x: u32,
        }
    }
    pub mod same {
        #[stabby::stabby]
        pub struct Point {
            pub x: u32,
            pub y: i32,
        }
    }
    pub mod versions {
        #[stabby::stabby(version = 70003)]
        pub struct Point {
            pub x: u32,
            pub y: i32,
        }
        #[stabby::stabby(version = 70000, module = "elsewhere")]
        #[repr(u8)]
        pub enum Kind {
            A,
            B,
        }
        #[stabby::stabby(version = 66000, module = "else::where")]
        #[derive(Clone, Copy)]
        pub union Either {
            pub a: u32,
            pub b: f32,
        }
        #[stabby::stabby(version = 6, module = "els")]
        #[repr(stabby)]
        pub enum Data {
            A(u8),
            B(u16),
        }
        #[stabby::stabby(module = "link::reports::decl::versions", version = 0)]
        pub struct Said {
            pub x: u32,
        }
    }
    #[stabby::stabby]
    #[derive(Clone, Copy)]
    pub union Either {
        pub a: u32,
        pub b: f32,
    }
    #[stabby::stabby]
    pub struct EitherIs {
        pub a: u32,
        pub b: f32,
    }
    #[stabby::stabby]
    #[repr(u8)]
    pub enum Kind {
        A,
        B,
    }
    #[stabby::stabby]
    #[repr(i16)]
    pub enum Wide {
        A,
        B,
        C,
    }
    pub mod wider {
        #[stabby::stabby]
        #[repr(u32)]
        pub enum Wide {
            A,
            B,
            C,
        }
    }
    #[stabby::stabby]
    #[repr(stabby)]
    pub enum Data {
        A(u8),
        B(core::num::NonZeroU16),
        C,
    }
    pub mod less_data {
        #[stabby::stabby]
        #[repr(stabby)]
        pub enum Data {
            A(u8),
            B(core::num::NonZeroU16),
        }
    }
    #[stabby::stabby]
    #[repr(u8)]
    pub enum Flat {
        A(u8),
        B(super::decl::Point),
        C,
    }
    #[stabby::stabby]
    #[repr(C, u8)]
    pub enum Named {
        A { x: u8, y: u32 },
        B(u8, u16),
        C(u64),
        D,
    }
    #[stabby::stabby]
    pub struct Generic<T> {
        pub t: T,
        pub u: u8,
    }
    #[stabby::stabby]
    pub struct Nested {
        pub p: Point,
        pub q: Pair,
        pub r: Generic<Pair>,
    }
    #[stabby::stabby]
    pub struct Lent<'a, T> {
        pub t: &'a T,
        pub n: usize,
    }
    #[stabby::stabby]
    pub trait One {
        extern "C" fn a(&self, x: u8) -> u8;
        extern "C" fn b(&self, x: u8) -> u8;
    }
    #[stabby::stabby]
    pub trait Two {
        extern "C" fn a(&self, x: u8) -> u8;
        extern "C" fn b(&self, x: u16) -> u8;
    }
    pub mod again {
        #[stabby::stabby]
        pub trait One {
            extern "C" fn a(&self, x: u8) -> u8;
            extern "C" fn b(&self, x: u8) -> u8;
        }
    }
}
fn prim(n: &str) -> Tree {
    Tree { n: n.into(), m: "stabby_abi::stable_impls".into(), v: 0, k: "struct".into(), f: vec![] }
}
const HERE: &str = "link::reports::decl";
fn rep(n: &str, m: &str, v: u32, k: &str, f: Vec<(&str, Tree)>) -> Tree {
    Tree { n: n.into(), m: m.into(), v, k: k.into(), f: f.into_iter().map(|(n, t)| (n.into(), t)).collect() }
}
fn of<T: IStable>() -> Tree {
    Tree::of(T::REPORT)
}
fn declared() -> Vec<(Tree, &'static TypeReport, u64)> {
    fn d<T: IStable>(t: Tree) -> (Tree, &'static TypeReport, u64) {
        (t, T::REPORT, T::ID)
    }
    let here = |n: &str, k: &str, f: Vec<(&str, Tree)>| rep(n, HERE, 0, k, f);
    let within = |m: &str, v: u32, n: &str, k: &str, f: Vec<(&str, Tree)>| rep(n, &format!("{HERE}::{m}"), v, k, f);
    let point = || here("Point", "struct", vec![("x", prim("u32")), ("y", prim("i32"))]);
    let pair = || here("Pair", "struct", vec![("0", prim("u8")), ("1", prim("u16"))]);
    let generic = |t: Tree| here("Generic", "struct", vec![("t", t), ("u", prim("u8"))]);
    let unit = || prim("()");
    vec![
        d::<decl::Unit>(here("Unit", "struct", vec![])),
        d::<decl::Pair>(pair()),
        d::<decl::Point>(point()),
        d::<decl::swapped::Point>(within("swapped", 0, "Point", "struct", vec![("y", prim("i32")), ("x", prim("u32"))])),
        d::<decl::types::Point>(within("types", 0, "Point", "struct", vec![("x", prim("i32")), ("y", prim("i32"))])),
        d::<decl::less::Point>(within("less", 0, "Point", "struct", vec![("x", prim("u32"))])),
        d::<decl::same::Point>(within("same", 0, "Point", "struct", vec![("x", prim("u32")), ("y", prim("i32"))])),
        d::<decl::versions::Point>(within("versions", 70003, "Point", "struct", vec![("x", prim("u32")), ("y", prim("i32"))])),
        d::<decl::versions::Kind>(rep("Kind", "elsewhere", 70000, "u8", vec![("A", unit()), ("B", unit())])),
        d::<decl::versions::Either>(rep("Either", "else::where", 66000, "union", vec![("a", prim("u32")), ("b", prim("f32"))])),
        d::<decl::versions::Data>(rep("Data", "els", 6, "stabby", vec![("A", prim("u8")), ("B", prim("u16"))])),
        d::<decl::versions::Said>(within("versions", 0, "Said", "struct", vec![("x", prim("u32"))])),
        d::<decl::Either>(here("Either", "union", vec![("a", prim("u32")), ("b", prim("f32"))])),
        d::<decl::EitherIs>(here("EitherIs", "struct", vec![("a", prim("u32")), ("b", prim("f32"))])),
        d::<decl::Kind>(here("Kind", "u8", vec![("A", unit()), ("B", unit())])),
        d::<decl::Wide>(here("Wide", "i16", vec![("A", unit()), ("B", unit()), ("C", unit())])),
        d::<decl::wider::Wide>(within("wider", 0, "Wide", "u32", vec![("A", unit()), ("B", unit()), ("C", unit())])),
        d::<decl::Data>(here("Data", "stabby", vec![("A", prim("u8")), ("B", prim("core::num::NonZeroU16")), ("C", unit())])),
        d::<decl::less_data::Data>(within("less_data", 0, "Data", "stabby", vec![("A", prim("u8")), ("B", prim("core::num::NonZeroU16"))])),
        d::<decl::Flat>(here("Flat", "u8", vec![("A", prim("u8")), ("B", point()), ("C", unit())])),
        d::<decl::Named>(here(
            "Named",
            "u8",
            vec![
                ("A", here("A", "struct", vec![("x", prim("u8")), ("y", prim("u32"))])),
                ("B", here("B", "struct", vec![("0", prim("u8")), ("1", prim("u16"))])),
                ("C", prim("u64")),
                ("D", unit()),
            ],
        )),
        d::<decl::Generic<u8>>(generic(prim("u8"))),
        d::<decl::Generic<decl::Pair>>(generic(pair())),
        d::<decl::Generic<decl::Generic<u16>>>(generic(generic(prim("u16")))),
        d::<decl::Generic<stabby::option::Option<u8>>>(generic(of::<stabby::option::Option<u8>>())),
        d::<decl::Nested>(here("Nested", "struct", vec![("p", point()), ("q", pair()), ("r", generic(pair()))])),
        d::<decl::Lent<'static, decl::Point>>(here("Lent", "struct", vec![("t", rep("&", "stabby_abi::stable_impls", 0, "struct", vec![("inner", point())])), ("n", prim("usize"))])),
    ]
}
/// Types that are all different, each twice.
fn types() -> Vec<(&'static TypeReport, u64)> {
    macro_rules! types {
        ($($t: ty),* $(,)?) => {{
            let mut l = declared().into_iter().map(|(_, r, id)| (r, id)).collect::<Vec<_>>();
            $(l.push((<$t as IStable>::REPORT, <$t as IStable>::ID));)*
            l
        }};
    }
    use core::num::*;
    use decl::*;
    use stabby::{boxed::Box as SBox, slice::Slice, str::Str, string::String as SString, sync::Arc, vec::Vec as SVec};
    use std::mem::{ManuallyDrop, MaybeUninit};
    types! {
        (), bool, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64,
        NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroUsize, NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128, NonZeroIsize,
        &'static u8, &'static mut u8, *const u8, *mut u8, core::ptr::NonNull<u8>, &'static u16, &'static mut Point, &'static same::Point, &'static Point, *const Point,
        [u8; 1], [u8; 2], [u8; 12], [u16; 2], [Point; 2], [same::Point; 2],
        ManuallyDrop<Point>, ManuallyDrop<same::Point>, ManuallyDrop<u8>, ManuallyDrop<versions::Point>, MaybeUninit<Point>, MaybeUninit<u8>, core::cell::UnsafeCell<u8>, core::cell::UnsafeCell<Point>,
        core::option::Option<&'static u8>, core::option::Option<&'static u16>, core::option::Option<NonZeroU8>,
        stabby::option::Option<u8>, stabby::option::Option<u16>, stabby::option::Option<Point>, stabby::option::Option<same::Point>,
        stabby::result::Result<u8, u16>, stabby::result::Result<u16, u8>, stabby::result::Result<u8, ()>,
        SVec<u8>, SVec<u16>, SVec<Point>, SBox<u8>, SBox<Point>, SBox<same::Point>, Arc<u8>, Arc<Point>, SString, Str<'static>, Slice<'static, u8>, Slice<'static, u16>, Slice<'static, Point>,
        stabby::slice::SliceMut<'static, u8>, stabby::str::StrMut<'static>,
        stabby::sync::Weak<u8>, stabby::sync::ArcSlice<u8>, stabby::boxed::BoxedSlice<u8>, stabby::boxed::BoxedStr, stabby::sync::ArcStr,
        stabby::tuple::Tuple2<u8, u16>, stabby::tuple::Tuple2<u16, u8>, stabby::tuple::Tuple3<u8, u8, u8>,
        extern "C" fn(), extern "C" fn(u8), extern "C" fn(u8, u8), extern "C" fn(u8, u16), extern "C" fn(u16, u8), extern "C" fn() -> u8, extern "C" fn(u8) -> u8, unsafe extern "C" fn(u8) -> u8,
        extern "C-unwind" fn(u8) -> u8, unsafe extern "C-unwind" fn(u8) -> u8, extern "C" fn(Point) -> u8, extern "C" fn(same::Point) -> u8, extern "C" fn(ManuallyDrop<same::Point>) -> u8, extern "C" fn(ManuallyDrop<Point>) -> u8,
        extern "C" fn(extern "C" fn(u8) -> u8) -> u8, extern "C" fn(u8) -> extern "C" fn(u8) -> u8, extern "C" fn(u8, u8) -> u16, extern "C" fn(u8, u8, u8),
        stabby::time::Duration, stabby::time::Instant, stabby::time::SystemTime,
        std::sync::atomic::AtomicBool, std::sync::atomic::AtomicU8, std::sync::atomic::AtomicI8, std::sync::atomic::AtomicU16, std::sync::atomic::AtomicI16, std::sync::atomic::AtomicU32, std::sync::atomic::AtomicI32, std::sync::atomic::AtomicU64, std::sync::atomic::AtomicI64, std::sync::atomic::AtomicUsize, std::sync::atomic::AtomicIsize, std::sync::atomic::AtomicPtr<u8>, std::sync::atomic::AtomicPtr<u16>,
        stabby_abi::num::NonMaxU8, stabby_abi::num::NonMaxU16, stabby_abi::num::NonMaxU32, stabby_abi::num::NonXU8<3>, stabby_abi::num::NonXU16<3>,
        std::marker::PhantomPinned, std::cmp::Ordering,
        stabby::vtable!(One), stabby::vtable!(Two), stabby::vtable!(again::One), stabby::vtable!(One + Two), stabby::vtable!(Two + One), stabby::vtable!(One + Send), stabby::vtable!(One + Sync),
        stabby::dynptr!(SBox<dyn One>), stabby::dynptr!(SBox<dyn Two>), stabby::dynptr!(Arc<dyn One>), stabby::dynptr!(SBox<dyn One + Send>),
    }
}
pub fn run(out: &mut Out, rng: &mut Rng, thorough: bool) {
    for (want, r, id) in declared() {
        out.begin(&format!("{want:?}"));
        let mut ev = vec![obj! {k: "decl", a: Tree::of(r).json(), want: want.json(), id: id == gen_id(r)}];
        ev.extend(alone(r));
        out.trace_meta(J::O(vec![]), ev, J::from(want.n.as_str()));
    }
    let (l, again) = (types(), types());
    for (i, a) in l.iter().enumerate() {
        let mut ev = alone(a.0);
        for (j, b) in again.iter().enumerate() {
            // each with itself, and with those that share something with it or some others
            let alike = a.0.name.as_str() == b.0.name.as_str() || a.0.fields().map(|f| f.name.as_str().to_string()).eq(b.0.fields().map(|f| f.name.as_str().to_string()));
            if i == j || (i < j && (alike || thorough || rng.chance(1, 12))) {
                out.begin(&format!("{} and {}", a.0, b.0));
                ev.push(cmp("types", *a, *b, i == j));
            }
        }
        out.trace_meta(J::O(vec![]), ev, J::from(a.0.to_string()));
    }
    for _ in 0..if thorough { 6000 } else { 1200 } {
        let depth = 1 + rng.below(3);
        let a = tree(rng, depth);
        let r = a.report();
        out.begin(&format!("{a:?}"));
        let mut ev = alone(r);
        for _ in 0..3 {
            let mut b = a.clone();
            for _ in 0..[0, 1, 1, 2][rng.below(4)] {
                differ(rng, &mut b);
            }
            let s = b.report();
            ev.push(cmp("cmp", (r, gen_id(r)), (s, gen_id(s)), true));
        }
        out.trace_meta(J::O(vec![]), ev, J::from(""));
    }
}
