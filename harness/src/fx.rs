//! Side effects observed while the code under test runs.
use crate::J;
use std::sync::Mutex;
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Fx {
    /// Tokens destroyed, in order.
    pub d: Vec<u32>,
    /// Tokens cloned: (from, to).
    pub c: Vec<(u32, u32)>,
    /// Blocks allocated: (block, size, align, allocator).
    pub al: Vec<(u32, usize, usize, u32)>,
    /// Blocks freed.
    pub fr: Vec<u32>,
    /// Things that must never happen.
    pub bad: Vec<String>,
}
static FX: Mutex<Option<Fx>> = Mutex::new(None);
/// When set, effects are also handed out one at a time to an observer (concurrent suites).
pub enum Effect {
    Destroy(u32),
    Clone(u32, u32),
    Alloc(u32, usize, usize, u32),
    Free(u32),
    Bad(String),
}
static OBS: Mutex<Option<fn(Effect)>> = Mutex::new(None);
pub fn observe(f: Option<fn(Effect)>) {
    *OBS.lock().unwrap() = f;
}
pub fn emit(e: Effect) {
    let o = *OBS.lock().unwrap();
    if let Some(o) = o {
        return o(e);
    }
    let mut g = FX.lock().unwrap();
    let f = g.get_or_insert_with(Fx::default);
    match e {
        Effect::Destroy(i) => f.d.push(i),
        Effect::Clone(a, b) => f.c.push((a, b)),
        Effect::Alloc(a, b, c, d) => f.al.push((a, b, c, d)),
        Effect::Free(a) => f.fr.push(a),
        Effect::Bad(s) => f.bad.push(s),
    }
}
pub fn bad(s: impl Into<String>) {
    emit(Effect::Bad(s.into()))
}
pub fn take() -> Fx {
    FX.lock().unwrap().take().unwrap_or_default()
}
impl Fx {
    pub fn dj(&self) -> J {
        J::from(self.d.clone())
    }
    pub fn cj(&self) -> J {
        J::L(self.c.iter().map(|(a, b)| J::L(vec![J::from(*a), J::from(*b)])).collect())
    }
    pub fn alj(&self) -> J {
        J::L(self.al.iter().map(|(a, ..)| J::from(*a)).collect())
    }
    pub fn frj(&self) -> J {
        J::from(self.fr.clone())
    }
    pub fn badj(&self) -> J {
        J::L(self.bad.iter().map(|s| J::S(s.clone())).collect())
    }
}
