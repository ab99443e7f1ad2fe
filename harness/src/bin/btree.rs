//! Copy-on-write ordered sets and maps: runs programs of operations over a few snapshots and records what is
//! observable of them (spec/BTree.tla).
use stabby_abi::alloc::collections::arc_btree::{ArcBTreeMap, ArcBTreeSet};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vharness::{fx, obj, talloc, tok, Out, Rng, Tok, TrackAlloc as TA, J};
const NS: usize = 4;
/// An element: compared by its key only.
#[stabby::stabby]
#[derive(Clone)]
pub struct El {
    key: i64,
    tok: Tok,
}
impl PartialEq for El {
    fn eq(&self, o: &Self) -> bool {
        self.key == o.key
    }
}
impl Eq for El {}
impl PartialOrd for El {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for El {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.tok.id();
        o.tok.id();
        trip();
        self.key.cmp(&o.key)
    }
}
impl PartialEq<i64> for El {
    fn eq(&self, o: &i64) -> bool {
        self.key == *o
    }
}
impl PartialOrd<i64> for El {
    fn partial_cmp(&self, o: &i64) -> Option<std::cmp::Ordering> {
        Some(self.key.cmp(o))
    }
}
thread_local! {
    static SEEN: RefCell<Vec<(i64, i64, u32)>> = const { RefCell::new(Vec::new()) };
    /// Number of comparisons left before one panics (negative: never).
    static CMP: std::cell::Cell<i64> = const { std::cell::Cell::new(-1) };
}
fn trip() {
    CMP.with(|c| {
        let n = c.get();
        if n >= 0 {
            c.set(n - 1);
            if n == 0 {
                panic!("injected comparison panic")
            }
        }
    })
}
impl std::fmt::Debug for El {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        SEEN.with(|s| s.borrow_mut().push((self.key, self.tok.val, self.tok.id())));
        write!(f, "{}", self.key)
    }
}
/// Keys of maps: tokens whose value is the key plus this.
const KEY: i64 = 1_000_000;
trait Tree {
    fn insert(&mut self, key: i64, t: Tok) -> Option<(i64, Tok)>;
    fn get(&self, key: i64) -> Option<(i64, i64, u32)>;
    fn content(&self, keys: &[i64]) -> Vec<(i64, i64, u32)>;
    fn len(&self) -> i64;
    fn empty(&self) -> Option<bool>;
    fn dup(&self) -> Box<dyn Tree>;
}
impl<const R: bool, const L: usize> Tree for ArcBTreeSet<El, TA, R, L> {
    fn insert(&mut self, key: i64, t: Tok) -> Option<(i64, Tok)> {
        ArcBTreeSet::insert(self, El { key, tok: t }).map(|e| (e.key, e.tok))
    }
    fn get(&self, key: i64) -> Option<(i64, i64, u32)> {
        ArcBTreeSet::get(self, &key).map(|e| (e.key, e.tok.val, e.tok.id()))
    }
    fn content(&self, _: &[i64]) -> Vec<(i64, i64, u32)> {
        SEEN.with(|s| s.borrow_mut().clear());
        let s = format!("{:?}", self);
        let shown: Vec<i64> = s.split(|c: char| c != '-' && !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
        let l = SEEN.with(|s| s.borrow().clone());
        if shown != l.iter().map(|x| x.0).collect::<Vec<_>>() {
            fx::bad("the formatted set differs from its elements");
        }
        l
    }
    fn len(&self) -> i64 {
        ArcBTreeSet::len(self) as i64
    }
    fn empty(&self) -> Option<bool> {
        Some(self.is_empty())
    }
    fn dup(&self) -> Box<dyn Tree> {
        Box::new(self.clone())
    }
}
impl<const L: usize> Tree for ArcBTreeMap<Tok, Tok, TA, L> {
    fn insert(&mut self, key: i64, t: Tok) -> Option<(i64, Tok)> {
        ArcBTreeMap::insert(self, Tok::new(key + KEY), t).map(|t| (key, t))
    }
    fn get(&self, key: i64) -> Option<(i64, i64, u32)> {
        let k = Tok::new(key + KEY);
        let r = ArcBTreeMap::get(self, &k).map(|t| (key, t.val, t.id()));
        drop(k);
        r
    }
    fn content(&self, keys: &[i64]) -> Vec<(i64, i64, u32)> {
        keys.iter().filter_map(|k| Tree::get(self, *k)).collect()
    }
    fn len(&self) -> i64 {
        -1
    }
    fn empty(&self) -> Option<bool> {
        None
    }
    fn dup(&self) -> Box<dyn Tree> {
        Box::new(self.clone())
    }
}
#[derive(Clone, Debug)]
struct Op {
    k: u8, // 0 insert, 1 get, 2 clone, 3 drop, 4 new
    s: usize,
    t: usize,
    key: i64,
    /// 1 + n: the n-th clone panics; -1 - n: the n-th comparison panics.
    fuse: i64,
}
fn op(k: u8, s: usize, t: usize, key: i64) -> Op {
    Op { k, s, t, key, fuse: 0 }
}
/// Limits to split at, and the kinds of trees.
fn make(cfg: usize) -> (Box<dyn Tree>, i64, &'static str) {
    match cfg {
        0 => (Box::new(ArcBTreeSet::<El, TA, false, 3>::from_alloc(TA::new(1))), 0, "set"),
        1 => (Box::new(ArcBTreeSet::<El, TA, true, 3>::from_alloc(TA::new(1))), 1, "set"),
        2 => (Box::new(ArcBTreeSet::<El, TA>::new_in(TA::new(1))), 0, "set"),
        3 => (Box::new(ArcBTreeSet::<El, TA, true, 5>::from_alloc(TA::new(1))), 1, "set"),
        4 => (Box::new(ArcBTreeSet::<El, TA, true, 7>::from_alloc(TA::new(1))), 1, "set"),
        5 => (Box::new(ArcBTreeMap::<Tok, Tok, TA>::new_in(TA::new(1))), 1, "map"),
        6 => (Box::new(ArcBTreeMap::<Tok, Tok, TA, 3>::from_alloc(TA::new(1))), 1, "map"),
        _ => (Box::new(ArcBTreeSet::<El, TA, false, 9>::from_alloc(TA::new(1))), 0, "set"),
    }
}
const CFGS: usize = 8;
fn reset() {
    tok::reset();
    talloc::reset();
    fx::take();
    CMP.with(|c| c.set(-1));
}
fn trip_j(l: &[(i64, i64, u32)]) -> J {
    J::L(l.iter().map(|x| J::from(vec![x.0, x.1, x.2 as i64])).collect())
}
/// Runs the program; snapshots are looked at after every `every`-th operation.
fn run(out: &mut Out, cfg: usize, prog: &[Op], every: usize) {
    out.begin(&format!("cfg {cfg} every {every} {prog:?}"));
    reset();
    let mut keys: Vec<i64> = prog.iter().map(|o| o.key).collect();
    keys.extend([-1, 0]);
    keys.sort();
    keys.dedup();
    let mut sl: Vec<Option<Box<dyn Tree>>> = (0..NS).map(|_| None).collect();
    let mut ev = Vec::new();
    let mut val = 0;
    let mut n = 0;
    let look = |sl: &Vec<Option<Box<dyn Tree>>>, force: bool, n: usize| -> (J, J, i64) {
        if !force && n % every != 0 {
            return (J::L(vec![]), J::L(vec![]), 0);
        }
        let o: Vec<J> = sl
            .iter()
            .enumerate()
            .filter_map(|(i, t)| {
                t.as_ref().map(|t| {
                    let c = t.content(&keys);
                    let e = t.empty().map_or(c.is_empty() as i64, |b| b as i64);
                    obj! {s: (i + 1) as i64, c: trip_j(&c), len: t.len(), empty: e}
                })
            })
            .collect();
        let vals = tok::vals();
        let (k, v): (Vec<u32>, Vec<u32>) = tok::live().into_iter().partition(|i| vals[*i as usize - 1] >= KEY / 2);
        talloc::audit();
        (J::L(o), J::from(v), k.len() as i64)
    };
    for o in prog {
        let s = o.s;
        let (mut r, mut id) = (vec![], 0);
        let name = ["insert", "get", "clone", "drop", "new"][o.k as usize];
        let (mut rep, mut kind) = (0, "none");
        let mut kept = None;
        match o.k {
            0 => {
                let Some(t) = sl[s].as_mut() else { continue };
                val += 1;
                let e = Tok::new(val);
                id = e.id();
                if o.fuse > 0 {
                    tok::set_fuse(o.fuse - 1);
                } else if o.fuse < 0 {
                    CMP.with(|c| c.set(-o.fuse - 1));
                }
                let x = catch_unwind(AssertUnwindSafe(|| t.insert(o.key, e)));
                tok::set_fuse(-1);
                CMP.with(|c| c.set(-1));
                r = match x {
                    Err(_) => vec![-1],
                    Ok(None) => vec![0],
                    Ok(Some((k, t))) => {
                        let r = vec![1, k, t.val, t.id() as i64];
                        kept = Some(t);
                        r
                    }
                };
            }
            1 => {
                let Some(t) = sl[s].as_ref() else { continue };
                r = t.get(o.key).map_or(vec![0], |x| vec![1, x.0, x.1, x.2 as i64]);
            }
            2 => {
                if sl[s].is_none() || sl[o.t].is_some() || s == o.t {
                    continue;
                }
                sl[o.t] = Some(sl[s].as_ref().unwrap().dup());
            }
            3 => {
                if sl[s].is_none() {
                    continue;
                }
                sl[s] = None;
            }
            _ => {
                if sl[s].is_some() {
                    continue;
                }
                let (t, a, b) = make(cfg);
                sl[s] = Some(t);
                (rep, kind) = (a, b);
            }
        }
        drop(kept);
        n += 1;
        let mut f = fx::take();
        // clones of keys aren't followed individually
        let vals = tok::vals();
        f.c.retain(|(_, b)| vals[*b as usize - 1] < KEY / 2);
        let (ob, live, lk) = look(&sl, false, n);
        let g = fx::take();
        f.bad.extend(g.bad.clone());
        ev.push(obj! {k: name, s: (s + 1) as i64, t: (o.t + 1) as i64, key: o.key, val: val, id: id as i64, r: r, rep: rep, kind: kind, fuse: o.fuse, cl: f.cj(), bad: f.badj(), o: ob, live: live, lk: lk});
    }
    // everything is looked at again, then dropped
    for s in 0..NS + 1 {
        let (ob, live, lk) = look(&sl, true, 0);
        let mut f = fx::take();
        f.c.clear();
        if s == NS || sl[s].is_some() {
            if s < NS {
                sl[s] = None;
                ev.push(obj! {k: "get", s: (s + 1) as i64, t: 0, key: -7, r: vec![0], cl: f.cj(), bad: f.badj(), o: ob, live: live, lk: lk});
                let (ob, live, lk) = look(&sl, true, 0);
                let f = fx::take();
                ev.push(obj! {k: "drop", s: (s + 1) as i64, cl: f.cj(), bad: f.badj(), o: ob, live: live, lk: lk});
            } else {
                ev.push(obj! {k: "end", s: 0, cl: f.cj(), bad: f.badj(), o: J::L(vec![]), live: live, lk: lk, blocks: J::from(talloc::live())});
            }
        }
    }
    out.trace_meta(obj! {tree: cfg as i64}, ev, J::S(format!("tree {cfg} {}", if prog.len() < 40 { format!("{prog:?}") } else { String::new() })));
}
/// All sequences of `n` keys among `0..m`, in the order of first appearance up to renaming when `n` is large.
fn sequences(n: usize, m: i64, f: &mut impl FnMut(&[i64])) {
    let mut l = vec![0; n];
    fn go(l: &mut Vec<i64>, i: usize, m: i64, f: &mut impl FnMut(&[i64])) {
        if i == l.len() {
            return f(l);
        }
        for k in 0..m {
            l[i] = k;
            go(l, i + 1, m, f);
        }
    }
    go(&mut l, 0, m, f);
}
fn main() {
    vharness::quiet_panics();
    let a = vharness::args();
    let mut out = Out::new(&a.out, &a.suite);
    let mut rng = Rng::new(a.seed);
    let scale = if a.thorough { 12 } else { 1 };
    match a.suite.as_str() {
        "B01" => {
            // every short sequence of insertions
            for cfg in [0, 1, 6] {
                let max = if a.thorough { 6 } else { 5 };
                for n in 0..=max {
                    let mut i = 0;
                    sequences(n, 5.min(n as i64 + 1), &mut |l| {
                        i += 1;
                        if n >= 5 && !a.thorough && i % 3 != 0 {
                            return;
                        }
                        let mut p = vec![op(4, 0, 0, 0)];
                        p.extend(l.iter().map(|k| op(0, 0, 0, *k * 2)));
                        run(&mut out, cfg, &p, n.max(1));
                    });
                }
            }
            // every permutation of seven keys splits the root's children too (sampled in the quick tier)
            for i in 0..(250 * scale) {
                let mut l: Vec<i64> = (0..7 + rng.below(3) as i64).collect();
                for j in (1..l.len()).rev() {
                    l.swap(j, rng.below(j + 1));
                }
                let mut p = vec![op(4, 0, 0, 0)];
                for k in l.iter() {
                    p.push(op(0, 0, 0, *k * 2));
                }
                for k in 0..l.len() {
                    p.push(op(1, 0, 0, k as i64 * 2 + rng.below(2) as i64));
                    if rng.chance(1, 3) {
                        p.push(op(0, 0, 0, l[k] * 2));
                    }
                }
                run(&mut out, i % CFGS, &p, 3);
            }
            // long random, ascending and descending histories
            for i in 0..(36 * scale) {
                let cfg = i % CFGS;
                let n = 60 + rng.below(if a.thorough { 700 } else { 240 });
                let m = [n / 3, n, n * 3][rng.below(3)] as i64;
                let how = rng.below(4);
                let mut p = vec![op(4, 0, 0, 0)];
                for j in 0..n {
                    let k = match how {
                        0 => j as i64,
                        1 => (n - j) as i64,
                        2 => if j % 2 == 0 { j as i64 } else { (2 * n - j) as i64 },
                        _ => rng.below(m as usize + 1) as i64,
                    };
                    p.push(op(if rng.chance(1, 6) { 1 } else { 0 }, 0, 0, k));
                }
                run(&mut out, cfg, &p, 40);
            }
        }
        "B02" => {
            // every way to modify one of two snapshots of every small tree
            for cfg in [0, 1, 6] {
                for n in 0..8usize {
                    for how in 0..3 {
                        let l: Vec<i64> = (0..n as i64).map(|k| match how { 0 => k, 1 => n as i64 - 1 - k, _ => (k * 3) % n.max(1) as i64 + if n % 3 == 0 { k * 3 / n.max(1) as i64 } else { 0 } }).collect();
                        for k in -1..2 * n as i64 {
                            for side in 0..2 {
                                for fuse in 0..3 {
                                    let mut p = vec![op(4, 0, 0, 0)];
                                    p.extend(l.iter().map(|k| op(0, 0, 0, 2 * k)));
                                    p.push(op(2, 0, 1, 0));
                                    p.push(Op { fuse: [0, 1 + rng.below(4) as i64, -1 - rng.below(5) as i64][fuse], ..op(0, side, 0, k) });
                                    if fuse > 0 && !rng.chance(1, 3) {
                                        continue;
                                    }
                                    p.push(op(0, 1 - side, 0, (k + 5) % (2 * n as i64 + 1)));
                                    if rng.chance(1, 2) {
                                        p.push(op(3, side, 0, 0));
                                        p.push(op(0, 1 - side, 0, k));
                                    }
                                    run(&mut out, cfg, &p, 1);
                                }
                            }
                        }
                    }
                }
            }
            for i in 0..(450 * scale) {
                let cfg = i % CFGS;
                let n = 10 + rng.below(60);
                let m = 4 + rng.below(40);
                let mut p = vec![op(4, 0, 0, 0)];
                for _ in 0..n {
                    let (s, t, k) = (rng.below(NS), rng.below(NS), rng.below(m) as i64);
                    let w = rng.below(20);
                    let mut o = op(if w < 12 { 0 } else if w < 13 { 1 } else if w < 17 { 2 } else if w < 19 { 3 } else { 4 }, s, t, k);
                    if o.k == 0 && i % 3 == 0 && rng.chance(1, 12) {
                        o.fuse = if rng.chance(1, 2) { 1 + rng.below(8) as i64 } else { -1 - rng.below(8) as i64 };
                    }
                    p.push(o);
                }
                run(&mut out, cfg, &p, 1 + rng.below(4));
            }
            // big trees with few snapshots
            for i in 0..(8 * scale) {
                let mut p = vec![op(4, 0, 0, 0)];
                for _ in 0..220 {
                    let w = rng.below(40);
                    p.push(op(if w < 37 { 0 } else if w < 39 { 2 } else { 3 }, rng.below(2), 1 + rng.below(2), rng.below(300) as i64));
                }
                run(&mut out, i % CFGS, &p, 50);
            }
        }
        s => panic!("unknown suite {s}"),
    }
    out.finish();
}
