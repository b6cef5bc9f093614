mod families;
mod rng;
mod runner;
mod world;

fn main() {
    runner::main();
}
