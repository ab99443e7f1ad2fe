//! The iterators over containers, used from both ends, by jumps, and left at any point.
use stabby_abi::alloc::boxed::BoxedSlice;
use stabby_abi::alloc::single_or_vec::SingleOrVec;
use stabby_abi::alloc::sync::ArcSlice;
use stabby_abi::alloc::vec::{Drain, Vec as SVec};
use stabby_abi::alloc::DefaultAllocator;
use std::sync::atomic::Ordering;
use vharness::{catch, fx, galloc, obj, tok, Out, Rng, Tok, J};
enum H<'a> {
    Own(Tok),
    Mut(&'a mut Tok),
    Ref(&'a Tok),
}
impl H<'_> {
    fn id(&self) -> i64 {
        match self {
            H::Own(t) => t.id() as i64,
            H::Mut(t) => t.id() as i64,
            H::Ref(t) => t.id() as i64,
        }
    }
}
impl From<Tok> for H<'_> {
    fn from(t: Tok) -> Self {
        H::Own(t)
    }
}
impl<'a> From<&'a mut Tok> for H<'a> {
    fn from(t: &'a mut Tok) -> Self {
        H::Mut(t)
    }
}
impl<'a> From<&'a Tok> for H<'a> {
    fn from(t: &'a Tok) -> Self {
        H::Ref(t)
    }
}
trait Ops<'a> {
    fn nth(&mut self, n: usize, plain: bool) -> Option<H<'a>>;
    fn nth_back(&mut self, _n: usize, _plain: bool) -> Option<Option<H<'a>>> {
        None
    }
    fn hint(&self) -> (usize, Option<usize>);
    fn len(&self) -> Option<usize> {
        None
    }
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<H<'a>>;
    fn all(self: Box<Self>, how: usize) -> Vec<H<'a>>;
    fn rev(self: Box<Self>, how: usize) -> Result<Vec<H<'a>>, Box<dyn Ops<'a> + 'a>>;
    fn stop(self: Box<Self>) -> Result<(), Box<dyn Ops<'a> + 'a>>;
    fn dd(self: Box<Self>) -> Result<Box<dyn Ops<'a> + 'a>, Box<dyn Ops<'a> + 'a>>;
}
macro_rules! common {
    () => {
        fn nth(&mut self, n: usize, plain: bool) -> Option<H<'a>> {
            if n == 0 && plain { self.0.next() } else { self.0.nth(n) }.map(Into::into)
        }
        fn hint(&self) -> (usize, Option<usize>) {
            self.0.size_hint()
        }
        fn count(self: Box<Self>) -> usize {
            self.0.count()
        }
        fn last(self: Box<Self>) -> Option<H<'a>> {
            self.0.last().map(Into::into)
        }
        fn all(mut self: Box<Self>, how: usize) -> Vec<H<'a>> {
            let mut l = Vec::new();
            match how {
                0 => self.0.for_each(|x| l.push(x.into())),
                1 => {
                    for x in self.0 {
                        l.push(x.into());
                    }
                }
                2 => l = self.0.map(Into::into).collect(),
                _ => while let Some(x) = self.0.next() {
                    l.push(x.into());
                },
            }
            l
        }
    };
}
macro_rules! back {
    () => {
        fn nth_back(&mut self, n: usize, plain: bool) -> Option<Option<H<'a>>> {
            Some(if n == 0 && plain { self.0.next_back() } else { self.0.nth_back(n) }.map(Into::into))
        }
        fn len(&self) -> Option<usize> {
            Some(self.0.len())
        }
        fn rev(self: Box<Self>, how: usize) -> Result<Vec<H<'a>>, Box<dyn Ops<'a> + 'a>> {
            Ok(if how == 0 { self.0.rev().map(Into::into).collect() } else { self.0.rfold(Vec::new(), |mut l, x| { l.push(x.into()); l }) })
        }
    };
}
macro_rules! no { ($($f: ident -> $r: ty),*) => { $(fn $f(self: Box<Self>) -> Result<$r, Box<dyn Ops<'a> + 'a>> { Err(self) })* }; }
/// Those that work on both ends.
struct Both<I>(I);
impl<'a, I: ExactSizeIterator + DoubleEndedIterator + 'a> Ops<'a> for Both<I>
where
    I::Item: Into<H<'a>>,
{
    common!();
    back!();
    no!(stop -> (), dd -> Box<dyn Ops<'a> + 'a>);
}
struct Fwd<I>(I);
impl<'a, I: Iterator + 'a> Ops<'a> for Fwd<I>
where
    I::Item: Into<H<'a>>,
{
    common!();
    fn rev(self: Box<Self>, _how: usize) -> Result<Vec<H<'a>>, Box<dyn Ops<'a> + 'a>> {
        Err(self)
    }
    no!(stop -> (), dd -> Box<dyn Ops<'a> + 'a>);
}
struct Drains<'a>(Drain<'a, Tok, DefaultAllocator>);
impl<'a> Ops<'a> for Drains<'a> {
    common!();
    fn len(&self) -> Option<usize> {
        Some(self.0.len())
    }
    fn rev(self: Box<Self>, _how: usize) -> Result<Vec<H<'a>>, Box<dyn Ops<'a> + 'a>> {
        Err(self)
    }
    fn stop(self: Box<Self>) -> Result<(), Box<dyn Ops<'a> + 'a>> {
        Ok(self.0.stop())
    }
    fn dd(self: Box<Self>) -> Result<Box<dyn Ops<'a> + 'a>, Box<dyn Ops<'a> + 'a>> {
        Ok(Box::new(Both(self.0.double_ended())))
    }
}
struct Run<'r> {
    ev: Vec<J>,
    rng: &'r mut Rng,
    script: Option<(usize, usize)>,
}
impl Run<'_> {
    fn put(&mut self, k: &'static str, mut e: Vec<(&'static str, J)>) {
        galloc::untracked(|| {
            let f = fx::take();
            e.insert(0, ("k", k.into()));
            e.push(("d", f.dj()));
            e.push(("bad", (f.bad.len() + galloc::BAD.swap(0, Ordering::SeqCst)).into()));
            self.ev.push(J::O(e));
        })
    }
    fn opt(x: Option<i64>) -> J {
        J::from(x.into_iter().collect::<Vec<i64>>())
    }
}
fn ids(l: &[Tok]) -> Vec<i64> {
    l.iter().map(|t| t.id() as i64).collect()
}
/// How far to jump, as the specification sees it.
fn seen(n: usize) -> i64 {
    if n > 1000 { -1 } else { n as i64 }
}
const KINDS: [&str; 12] = ["vec into", "vec drain", "vec drain dd", "vec mut", "vec ref", "sov mut", "sov ref", "bs into", "bs mut", "bs ref", "arc ref", "arc into"];
fn one(kind: usize, m: usize, r: &mut Run) {
    let toks: Vec<Tok> = galloc::untracked(|| (0..m).map(|i| Tok::new(i as i64)).collect());
    // bases
    let mut vec: SVec<Tok> = SVec::new();
    if r.rng.chance(1, 3) {
        vec.reserve(r.rng.below(9));
    }
    let mut sov: SingleOrVec<Tok> = SingleOrVec::new();
    let mut bs: Option<BoxedSlice<Tok>> = None;
    let mut arc: Option<ArcSlice<Tok>> = None;
    let s = galloc::untracked(|| ids(&toks));
    if KINDS[kind].starts_with("sov") {
        toks.into_iter().for_each(|t| sov.push(t));
    } else {
        toks.into_iter().for_each(|t| vec.push(t));
    }
    if KINDS[kind].starts_with("bs") {
        bs = Some(core::mem::take(&mut vec).into());
    }
    if KINDS[kind].starts_with("arc") {
        arc = Some(core::mem::take(&mut vec).into());
    }
    let (mut from, mut to) = (0, m);
    let drain = kind == 1 || kind == 2;
    if drain {
        from = r.rng.below(m + 1);
        to = from + r.rng.below(m - from + 1);
    }
    let mut held: Vec<Tok> = galloc::untracked(|| Vec::with_capacity(16));
    {
        let mut refs: Vec<&mut Tok> = galloc::untracked(|| Vec::with_capacity(16));
        let mut it: Box<dyn Ops> = match kind {
            0 => Box::new(Fwd(core::mem::take(&mut vec).into_iter())),
            1 => Box::new(Drains(vec.drain(from..to))),
            2 => Box::new(Both(vec.drain(from..to).double_ended())),
            3 => Box::new(Both((&mut vec).into_iter())),
            4 => Box::new(Both((&vec).into_iter())),
            5 => Box::new(Both((&mut sov).into_iter())),
            6 => Box::new(Both((&sov).into_iter())),
            7 => Box::new(Fwd(bs.take().unwrap().into_iter())),
            8 => Box::new(Both(bs.as_mut().unwrap().into_iter())),
            9 => Box::new(Both(bs.as_ref().unwrap().into_iter())),
            10 => Box::new(Both(arc.as_ref().unwrap().into_iter())),
            _ => {
                // what was shared and is no longer
                let v: SVec<Tok> = arc.take().unwrap().try_into().ok().unwrap();
                Box::new(Fwd(v.into_iter()))
            }
        };
        let name = match kind {
            0 | 7 | 11 => "into",
            1 => "drain",
            2 => "dd",
            3 | 5 | 8 => "mut",
            _ => "ref",
        };
        galloc::untracked(|| r.put("make", vec![("kind", name.into()), ("s", s.into()), ("from", from.into()), ("to", to.into())]));
        macro_rules! keep {
            ($x: expr) => {
                for h in $x {
                    match h {
                        H::Own(t) => held.push(t),
                        H::Mut(t) => refs.push(t),
                        H::Ref(_) => {}
                    }
                }
            };
        }
        let mut over = false;
        let mut steps = 1 + r.rng.below(10);
        let mut script = r.script;
        while steps > 0 && !over {
            steps -= 1;
            let far = [usize::MAX, usize::MAX - 1, usize::MAX - m, isize::MAX as usize];
            let mut n = if r.rng.chance(1, 3) { 0 } else if r.rng.chance(1, 5) { *r.rng.pick(&far) } else { r.rng.below(m + 2) };
            let mut op = *r.rng.pick(&[0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 7, 8, 9]);
            // a script: one step to get somewhere, then a jump
            if let Some((a, b)) = script {
                (op, n) = (a % 2, [0, 1, 2, m, usize::MAX][a / 2 % 5]);
                script = (b != usize::MAX).then_some((b, usize::MAX));
                steps = steps.max(2);
            }
            match op {
                0 => {
                    let plain = r.rng.chance(1, 2);
                    let x = it.nth(n, plain);
                    galloc::untracked(|| r.put("nth", vec![("n", seen(n).into()), ("r", Run::opt(x.as_ref().map(H::id)))]));
                    keep!(x);
                }
                1 => {
                    let plain = r.rng.chance(1, 2);
                    if let Some(x) = it.nth_back(n, plain) {
                        galloc::untracked(|| r.put("nthback", vec![("n", seen(n).into()), ("r", Run::opt(x.as_ref().map(H::id)))]));
                        keep!(x);
                    }
                }
                2 => {
                    let (lower, upper) = it.hint();
                    let len = it.len();
                    galloc::untracked(|| r.put("len", vec![("lower", lower.into()), ("upper", Run::opt(upper.map(|x| x as i64))), ("len", Run::opt(len.map(|x| x as i64)))]));
                }
                3 if r.rng.chance(1, 2) => {
                    let n = it.count();
                    galloc::untracked(|| r.put("count", vec![("n", n.into())]));
                    over = true;
                    break;
                }
                4 if r.rng.chance(1, 2) => {
                    let x = it.last();
                    galloc::untracked(|| r.put("last", vec![("r", Run::opt(x.as_ref().map(H::id)))]));
                    keep!(x);
                    over = true;
                    break;
                }
                5 if r.rng.chance(1, 2) => {
                    let how = r.rng.below(4);
                    let l = it.all(how);
                    galloc::untracked(|| r.put("all", vec![("r", l.iter().map(H::id).collect::<Vec<_>>().into())]));
                    keep!(l);
                    over = true;
                    break;
                }
                6 if r.rng.chance(1, 2) => {
                    let how = r.rng.below(2);
                    match it.rev(how) {
                        Ok(l) => {
                            galloc::untracked(|| r.put("rev", vec![("r", l.iter().map(H::id).collect::<Vec<_>>().into())]));
                            keep!(l);
                            over = true;
                            break;
                        }
                        Err(i) => it = i,
                    }
                }
                7 => {
                    if !refs.is_empty() {
                        let i = r.rng.below(refs.len());
                        let new = galloc::untracked(|| Tok::new(9));
                        let (a, b) = (refs[i].id() as i64, new.id() as i64);
                        *refs[i] = new;
                        galloc::untracked(|| r.put("set", vec![("a", a.into()), ("b", b.into())]));
                    }
                }
                8 if r.rng.chance(1, 3) => match it.stop() {
                    Ok(()) => {
                        galloc::untracked(|| r.ev.push(obj! {k: "stop", d: Vec::<i64>::new(), bad: 0}));
                        over = true;
                        break;
                    }
                    Err(i) => it = i,
                },
                9 => match it.dd() {
                    Ok(i) => {
                        it = i;
                        galloc::untracked(|| r.put("dd", vec![]));
                    }
                    Err(i) => it = i,
                },
                _ => {}
            }
        }
        let _ = over;
        galloc::untracked(|| drop(refs));
    }
    let after = galloc::untracked(|| match &KINDS[kind][..3] {
        "sov" => ids(sov.as_slice()),
        "bs " => bs.as_ref().map_or(vec![], |b| ids(b.as_slice())),
        "arc" => arc.as_ref().map_or(vec![], |a| ids(a.as_slice())),
        _ => ids(&vec),
    });
    galloc::untracked(|| r.put("end", vec![("after", after.into())]));
    galloc::untracked(|| drop(held));
    r.put("use", vec![]);
    drop((vec, sov, bs, arc));
}
pub fn run(out: &mut Out, rng: &mut Rng, thorough: bool) {
    galloc::quarantine(true);
    // every pair of jumps over every small sequence, then random uses
    let pairs: Vec<(usize, usize, usize, usize)> = (0..KINDS.len()).flat_map(|k| (0..4).flat_map(move |m| (0..10).flat_map(move |a| (0..10).map(move |b| (k, m, a, b))))).collect();
    for n in 0..pairs.len() + if thorough { 60000 } else { 6000 } {
        tok::reset();
        fx::take();
        let (kind, m, script) = match pairs.get(n) {
            Some(&(k, m, a, b)) => (k, m, Some((a, b))),
            None => (rng.below(KINDS.len()), rng.below(7), None),
        };
        let label = format!("{} of {m}", KINDS[kind]);
        out.begin(&label);
        let live = galloc::LIVE.load(Ordering::SeqCst);
        let mut r = Run { ev: Vec::with_capacity(32), rng, script };
        galloc::untracked(|| fx::take());
        if catch(|| galloc::tracking(|| one(kind, m, &mut r))).is_none() {
            fx::bad("an iterator panicked");
        }
        r.put("drop", vec![]);
        let left = tok::live().len() + (galloc::LIVE.load(Ordering::SeqCst) - live).unsigned_abs() as usize;
        let mut ev = r.ev;
        if let Some(J::O(e)) = ev.last_mut() {
            e.push(("left", left.into()));
        }
        out.trace_meta(J::L(vec![]), ev, J::from(label));
    }
}
