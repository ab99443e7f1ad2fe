//! Descriptions of types, and what is imported or loaded on their word.
#![allow(clippy::all)]
use vharness::galloc::Galloc;
use vharness::{args, quiet_panics, Out, Rng};
#[path = "../imports.rs"]
mod imports;
#[path = "../library.rs"]
mod library;
#[path = "../reports.rs"]
mod reports;
#[global_allocator]
static G: Galloc = Galloc;
fn main() {
    quiet_panics();
    let a = args();
    let mut out = Out::new(&a.out, &a.suite);
    let mut rng = Rng::new(a.seed);
    match a.suite.as_str() {
        "R01" => reports::run(&mut out, &mut rng, a.thorough),
        "R02" => imports::run(&mut out, &mut rng, a.thorough),
        "R02c" => imports::concurrent(&mut out, &mut rng, a.thorough, false),
        "R02h" => imports::concurrent(&mut out, &mut rng, a.thorough, true),
        "R03" => library::run(&mut out, &mut rng, a.thorough),
        s => panic!("unknown suite {s}"),
    }
    out.finish();
}
