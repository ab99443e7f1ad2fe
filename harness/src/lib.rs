//! Conformance harness: drives the real stabby code and records histories that TLC validates against
//! the TLA+ specifications in /verif/spec.
pub mod fx;
pub mod galloc;
pub mod json;
pub mod out;
pub mod peer;
pub mod rng;
pub mod sched;
pub mod talloc;
pub mod tok;

pub use fx::Fx;
pub use json::J;
pub use out::Out;
pub use rng::Rng;
pub use talloc::TrackAlloc;
pub use tok::Tok;

use std::panic::{catch_unwind, AssertUnwindSafe};

/// Runs `f`, turning a panic into `None`.
pub fn catch<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
pub fn quiet_panics() {
    if std::env::var("VERIF_DEBUG").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}
pub struct Args {
    pub suite: String,
    pub out: String,
    pub seed: u64,
    pub thorough: bool,
    pub replay: Option<String>,
}
/// `bin SUITE OUTDIR [REPLAY]`, VERIF_SEED, VERIF_TIER.
pub fn args() -> Args {
    let a: Vec<String> = std::env::args().collect();
    quiet_panics();
    Args {
        suite: a.get(1).cloned().unwrap_or_default(),
        out: a.get(2).cloned().unwrap_or_else(|| ".".into()),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
        replay: a.get(3).cloned(),
    }
}
