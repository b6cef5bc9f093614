//! Conformance driver for the Bevy crates: collider back end and editor transmission.
mod families;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/runner.rs"]
mod runner;
mod world;
use world as source;

fn main() {
    runner::main();
}
