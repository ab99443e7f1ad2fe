//! Wakers, futures, closures, iterators, maps and views across the stable boundary.
#![allow(clippy::all)]
use vharness::galloc::Galloc;
use vharness::{args, quiet_panics, Out, Rng};
#[path = "../wakers.rs"]
mod wakers;
#[path = "../futures.rs"]
mod futures;
#[path = "../calls.rs"]
mod calls;
#[path = "../views.rs"]
mod views;
#[path = "../cursors.rs"]
mod cursors;
#[global_allocator]
static G: Galloc = Galloc;
vharness::route_c_allocator!();
fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a.out, &a.suite);
    let mut rng = Rng::new(a.seed);
    match a.suite.as_str() {
        "F01" => wakers::run(&mut out, &mut rng, a.thorough),
        "F01c" => wakers::concurrent(&mut out, &mut rng, a.thorough),
        "F02" => futures::run(&mut out, &mut rng, a.thorough),
        "K01" => calls::run(&mut out, &mut rng, a.thorough),
        "C07" => cursors::run(&mut out, &mut rng, a.thorough),
        "G01" => views::run(&mut out, &mut rng, a.thorough),
        s => panic!("unknown suite {s}"),
    }
    out.finish();
}
