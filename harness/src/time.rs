//! Durations, instants, system times and their atomic versions.
use super::{bytes, hash};
use stabby::time::{AtomicDuration, AtomicInstant, Duration, Instant, Sign, SystemTime};
use stabby_abi::atomics::Ordering;
use std::time::{Duration as SD, Instant as SI, SystemTime as SS, UNIX_EPOCH};
use vharness::sched::{self, log, Dfs, Policy};
use vharness::{catch, obj, Out, Rng, J};

/// A stable time of one of three types.
#[derive(Clone, Copy)]
enum T {
    D(Duration),
    I(Instant),
    S(SystemTime),
}
fn zero() -> SI {
    // SAFETY: This is what the stable `Instant` is relative to.
    unsafe { core::mem::MaybeUninit::zeroed().assume_init() }
}
impl T {
    /// Through the standard types, so that what the conversion gives is what's seen.
    fn std(self) -> SD {
        match self {
            T::D(d) => SD::from(d),
            T::I(i) => SI::from(i).duration_since(zero()),
            T::S(s) => SS::from(s).duration_since(UNIX_EPOCH).unwrap(),
        }
    }
    /// The stable duration in it (instants and system times are durations since their epochs).
    fn inner(self) -> Duration {
        match self {
            T::D(d) => d,
            // SAFETY: both are `repr(C)` structures of one duration.
            T::I(i) => unsafe { core::mem::transmute::<Instant, Duration>(i) },
            // SAFETY: both are `repr(C)` structures of one duration.
            T::S(s) => unsafe { core::mem::transmute::<SystemTime, Duration>(s) },
        }
    }
}
/// Instants and system times cover fewer seconds than durations on this platform.
const CLOCK_MAX: u64 = (i64::MAX as u64) >> 1;
fn put(ev: &mut Vec<J>, mut e: Vec<(&'static str, J)>, d: usize, r: Option<T>, reg: &mut [T; 3]) {
    e.push(("d", d.into()));
    e.push(("p", (r.is_none()).into()));
    if let Some(t) = r {
        let i = t.inner();
        let s = t.std();
        e.push(("secs", bytes(i.as_secs() as u128, 8)));
        e.push(("nanos", bytes(i.subsec_nanos() as u128, 4)));
        e.push(("total", bytes(i.as_nanos(), 16)));
        e.push(("micros", i.subsec_micros().into()));
        e.push(("millis", i.subsec_millis().into()));
        let same = s.as_secs() == i.secs && s.subsec_nanos() == i.nanos && s.as_nanos() == i.as_nanos() && Duration::from(s) == i;
        // printing through floating point doesn't lose what it can hold
        let f = i.as_secs_f64();
        let float = i.secs >= 1 << 20 || (Duration::from_secs_f64(f) == i && f == s.as_secs_f64());
        e.push(("std", (same && float).into()));
        reg[d] = t;
    }
    ev.push(J::O(e));
}
fn secs(rng: &mut Rng) -> u64 {
    match rng.below(8) {
        0 => 0,
        1 => rng.below(3) as u64,
        2 => u64::MAX - rng.below(3) as u64,
        3 => (1 << rng.below(64)) - rng.below(2) as u64,
        4 => rng.next(),
        5 => rng.next() >> 22,
        _ => rng.next() >> rng.below(63),
    }
}
fn nanos(rng: &mut Rng) -> u32 {
    match rng.below(8) {
        0 => rng.below(3) as u32,
        1 => 999_999_999 - rng.below(3) as u32,
        2 => 1_000_000_000 + rng.below(3) as u32 - 1,
        3 => u32::MAX - rng.below(3) as u32,
        4 => 1_000_000 * rng.below(1000) as u32 + rng.below(3) as u32,
        5 => 1_000 * rng.below(1_000_000) as u32 + rng.below(3) as u32,
        6 => rng.next() as u32,
        _ => rng.below(1_000_000_000) as u32,
    }
}
fn k(s: &'static str) -> Vec<(&'static str, J)> {
    vec![("k", s.into())]
}
const ORD: [Ordering; 3] = [Ordering::Relaxed, Ordering::Acquire, Ordering::SeqCst];
pub fn run(out: &mut Out, rng: &mut Rng, thorough: bool) {
    for n in 0..if thorough { 3000 } else { 400 } {
        out.begin(&format!("times {n}"));
        let mut ev = Vec::new();
        let z = T::D(Duration::new(0, 0));
        let mut reg = [z; 3];
        let kind = n % 3; // durations, instants, system times
        let lift = |d: Duration| match kind {
            0 => T::D(d),
            1 => T::I(SI::from(Instant::zero()).checked_add(d.into()).unwrap().into()),
            _ => T::S((UNIX_EPOCH + SD::from(d)).into()),
        };
        let fits = |d: &Duration| kind == 0 || d.secs < CLOCK_MAX;
        for x in 0..3 {
            put(&mut ev, { let mut e = k("limit"); e.push(("c", "ZERO".into())); e }, x, Some(match kind { 0 => z, 1 => T::I(Instant::zero()), _ => T::S(SystemTime::UNIX_EPOCH) }), &mut reg);
        }
        if n < 3 && kind == 0 {
            for (c, v) in [("MAX", AtomicDuration::MAX), ("RESOLUTION", AtomicDuration::RESOLUTION)] {
                put(&mut ev, { let mut e = k("limit"); e.push(("c", c.into())); e }, 0, Some(T::D(v)), &mut reg);
            }
        }
        let (cell, icell) = (AtomicDuration::new(Duration::new(0, 0), Sign::Positive), AtomicInstant::epoch());
        for _ in 0..30 {
            let (d, x, y) = (rng.below(3), rng.below(3), rng.below(3));
            match rng.below(10) {
                0 | 1 => {
                    let (a, b) = (secs(rng), nanos(rng));
                    let (a, b) = if kind > 0 { (a % CLOCK_MAX, b) } else { (a, b) };
                    let r = catch(|| Duration::new(a, b));
                    let mut e = k("new");
                    e.extend([("a", bytes(a as u128, 8)), ("b", bytes(b as u128, 4))]);
                    put(&mut ev, e, d, r.map(lift), &mut reg);
                }
                2 => {
                    let a = secs(rng);
                    let mut e = k(if rng.chance(1, 2) { "millis" } else { "micros" });
                    let r = if e[0].1 == J::from("millis") { Duration::from_millis(a) } else { Duration::from_micros(a) };
                    e.push(("a", bytes(a as u128, 8)));
                    put(&mut ev, e, d, Some(lift(r)), &mut reg);
                }
                3 => {
                    let a = secs(rng) >> 12; // exact as a floating point number
                    let r = Duration::from_secs_f64(a as f64 / 512.);
                    let mut e = k("dyadic");
                    e.push(("a", bytes(a as u128, 8)));
                    put(&mut ev, e, d, Some(lift(r)), &mut reg);
                }
                4 => {
                    let r = match reg[x] {
                        T::D(v) => T::D(SD::from(v).into()),
                        T::I(v) => T::I(SI::from(v).into()),
                        T::S(v) => T::S(SS::from(v).into()),
                    };
                    let mut e = k("conv");
                    e.push(("x", x.into()));
                    put(&mut ev, e, d, Some(r), &mut reg);
                }
                5 | 6 => {
                    let by = reg[y].inner();
                    let sum = reg[x].inner().as_nanos() + by.as_nanos();
                    if kind > 0 && sum >= CLOCK_MAX as u128 * 1_000_000_000 {
                        continue;
                    }
                    let assign = rng.chance(1, 2);
                    macro_rules! add {
                        ($v: expr, $k: path) => {
                            catch(|| {
                                let mut v = $v;
                                if assign {
                                    v += by;
                                    $k(v)
                                } else {
                                    $k(v + by)
                                }
                            })
                        };
                    }
                    let r = match reg[x] {
                        T::D(v) => add!(v, T::D),
                        T::I(v) => add!(v, T::I),
                        T::S(v) => add!(v, T::S),
                    };
                    let mut e = k("add");
                    e.extend([("x", x.into()), ("y", y.into())]);
                    put(&mut ev, e, d, r, &mut reg);
                }
                7 => {
                    macro_rules! cmp {
                        ($a: expr, $b: expr) => {
                            obj! {k: "cmp", x: x, y: y, ord: $a.cmp(&$b) as i64, eq: $a == $b, h: hash(&$a) == hash(&$b), lt: $a < $b}
                        };
                    }
                    ev.push(match (reg[x], reg[y]) {
                        (T::D(a), T::D(b)) => cmp!(a, b),
                        (T::I(a), T::I(b)) => cmp!(a, b),
                        (T::S(a), T::S(b)) => cmp!(a, b),
                        _ => continue,
                    });
                }
                8 => {
                    if kind > 0 {
                        let cl = || if kind == 1 { SI::now().duration_since(zero()) } else { SS::now().duration_since(UNIX_EPOCH).unwrap() };
                        let lo = cl();
                        let r = if kind == 1 { T::I(Instant::now()) } else { T::S(SystemTime::now()) };
                        let hi = cl();
                        let mut e = k("now");
                        e.extend([("lo", bytes(lo.as_nanos(), 16)), ("hi", bytes(hi.as_nanos(), 16))]);
                        put(&mut ev, e, d, Some(r), &mut reg);
                    }
                }
                _ => {
                    // the atomic versions, one operation at a time
                    let v = Duration { secs: secs(rng) >> 21, nanos: nanos(rng) % 1_000_000_000 };
                    let neg = kind == 0 && rng.chance(1, 2);
                    let sign = if neg { Sign::Negative } else { Sign::Positive };
                    let op = *rng.pick(&["load", "store", "swap"]);
                    ev.push(obj! {k: "inv", t: 0, op: op, neg: neg, a: bytes(v.as_nanos(), 16)});
                    let o = ORD[rng.below(3)];
                    let r = if kind == 1 {
                        let i = match lift_instant(v) { T::I(i) => i, _ => unreachable!() };
                        match op {
                            "load" => Some((icell.load(o), ())),
                            "store" => { icell.store(i, if o == Ordering::Acquire { Ordering::Release } else { o }); None }
                            _ => Some((icell.swap(i, o), ())),
                        }.map(|(i, _)| (T::I(i).inner(), Sign::Positive))
                    } else {
                        match op {
                            "load" => Some(cell.load(o)),
                            "store" => { cell.store(v, sign, if o == Ordering::Acquire { Ordering::Release } else { o }); None }
                            _ => Some(cell.swap(v, sign, o)),
                        }
                    };
                    ev.push(obj! {k: "ret", t: 0, r: shown(r)});
                    if kind == 1 && rng.chance(1, 3) {
                        // set to the present time
                        let lo = SI::now().duration_since(zero());
                        let (prev, now) = if rng.chance(1, 2) {
                            (Some(icell.update(Ordering::SeqCst)), icell.load(Ordering::SeqCst))
                        } else {
                            (None, AtomicInstant::now().load(Ordering::SeqCst))
                        };
                        let hi = SI::now().duration_since(zero());
                        let mut e = k("now");
                        let down = |d: SD| bytes(d.as_nanos() / 1000 * 1000, 16);
                        e.extend([("lo", down(lo)), ("hi", down(hi))]);
                        put(&mut ev, e, 0, Some(T::I(now)), &mut reg);
                        if let Some(prev) = prev {
                            ev.push(obj! {k: "inv", t: 0, op: "swap", neg: 0, a: bytes(T::I(now).inner().as_nanos(), 16)});
                            ev.push(obj! {k: "ret", t: 0, r: shown(Some((T::I(prev).inner(), Sign::Positive)))});
                        }
                    }
                }
            }
        }
        out.trace_meta(J::L(vec![]), ev, J::from(["durations", "instants", "system times"][kind]));
    }
}
fn lift_instant(d: Duration) -> T {
    T::I((zero() + SD::from(d)).into())
}
fn shown(r: Option<(Duration, Sign)>) -> J {
    let Some((d, s)) = r else { return J::L(vec![]) };
    let mut l = vec![(s == Sign::Negative) as i64];
    // (the fields as they are: a duration of too many nanoseconds isn't one)
    if d.nanos >= 1_000_000_000 {
        l.push(-1);
    }
    l.extend(d.as_nanos().to_le_bytes().iter().map(|b| *b as i64));
    l.into()
}
type Prog = Vec<Vec<(usize, u64, u32, bool)>>;
fn go(p: &Prog, instant: bool, policy: Policy) -> sched::Run {
    let (cell, icell) = (AtomicDuration::new(Duration::new(0, 0), Sign::Positive), AtomicInstant::epoch());
    sched::start(policy, false);
    let (c, ic) = (&cell as *const AtomicDuration as usize, &icell as *const AtomicInstant as usize);
    let bodies = p
        .iter()
        .cloned()
        .map(|ops| {
            Box::new(move || {
                // SAFETY: The cells outlive the threads.
                let (cell, icell) = unsafe { (&*(c as *const AtomicDuration), &*(ic as *const AtomicInstant)) };
                for (op, s, n, neg) in ops {
                    let v = Duration { secs: s, nanos: n };
                    let sign = if neg && !instant { Sign::Negative } else { Sign::Positive };
                    log(obj! {k: "inv", t: sched::me(), op: ["load", "store", "swap"][op], neg: sign == Sign::Negative, a: bytes(v.as_nanos(), 16)});
                    sched::point();
                    let i = match lift_instant(v) { T::I(i) => i, _ => unreachable!() };
                    let o = Ordering::SeqCst;
                    let r = match (op, instant) {
                        (0, false) => Some(cell.load(o)),
                        (0, true) => Some((T::I(icell.load(o)).inner(), Sign::Positive)),
                        (1, false) => { cell.store(v, sign, o); None }
                        (1, true) => { icell.store(i, o); None }
                        (_, false) => Some(cell.swap(v, sign, o)),
                        (_, true) => Some((T::I(icell.swap(i, o)).inner(), Sign::Positive)),
                    };
                    log(obj! {k: "ret", t: sched::me(), r: shown(r)});
                    sched::point();
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    sched::run(bodies);
    sched::stop()
}
pub fn concurrent(out: &mut Out, rng: &mut Rng, thorough: bool) {
    sched::init();
    for n in 0..if thorough { 150 } else { 30 } {
        let threads = 2 + n % 2;
        let p: Prog = (0..threads).map(|_| (0..2 + rng.below(2)).map(|_| (rng.below(3), secs(rng) >> 21, nanos(rng) % 1_000_000_000, rng.chance(1, 2))).collect()).collect();
        let instant = n % 4 == 3;
        let mut d = Dfs::new(2);
        let mut count = 0;
        loop {
            out.begin(&format!("{p:?} instant={instant} schedule {count}"));
            let r = go(&p, instant, Policy::Dfs(d));
            out.trace_meta(J::L(vec![]), r.log, J::from(format!("{p:?} {:?}", r.choices)));
            d = match r.policy {
                Policy::Dfs(d) => d,
                _ => unreachable!(),
            };
            count += 1;
            if count > 400 || !d.advance() {
                break;
            }
        }
    }
}
