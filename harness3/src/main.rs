//! Conformance driver for the editor: its own modules, driven through the events and resources of its user interface.
use std::sync::atomic::{AtomicUsize, Ordering};

#[path = "/repo/crates/bevy_rerecast_editor/src/build.rs"]
mod build;
#[path = "/repo/crates/bevy_rerecast_editor/src/get_navmesh_input.rs"]
mod get_navmesh_input;
#[path = "/repo/crates/bevy_rerecast_editor/src/visualization.rs"]
mod visualization;

mod families;
#[path = "../../harness2/src/families.rs"]
mod families2;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/runner.rs"]
mod runner;
#[path = "../../harness2/src/world.rs"]
mod source;
mod world;

/// Errors of systems and observers, which the editor reports as warnings.
pub static ERRORS: AtomicUsize = AtomicUsize::new(0);

fn main() {
    let _ = bevy::ecs::error::GLOBAL_ERROR_HANDLER.set(|e, c| {
        if std::env::var("EDITOR_ERRORS").is_ok() {
            eprintln!("{c}: {e}");
        }
        ERRORS.fetch_add(1, Ordering::SeqCst);
    });
    runner::main();
}
