#![allow(dead_code, unused_imports, clippy::all)]
// All of the code under test gets these instead
extern crate mystd as std;
#[path = "/repo/bfffs-core/src/cache/mod.rs"]
pub mod cache;
#[path = "/repo/bfffs-core/src/types.rs"]
pub mod types;
#[path = "/repo/bfffs-core/src/writeback/mod.rs"]
pub mod writeback;
pub use crate::types::*;

mod c_cache;
mod c_wb;

/// Run `f` under the schedule that `seed` says
pub fn explore(kind: u64, seed: u64, f: impl Fn() + Send + Sync + 'static) {
    use shuttle::{scheduler::*, Config, FailurePersistence, MaxSteps, Runner};
    let mut c = Config::new();
    c.failure_persistence = FailurePersistence::None;
    c.silence_warnings = true;
    c.max_steps = MaxSteps::FailAfter(200_000);
    match kind {
        0 => Runner::new(RandomScheduler::new_from_seed(seed, 1), c).run(f),
        k => Runner::new(PctScheduler::new_from_seed(seed, k as usize, 1), c).run(f),
    };
}

fn main() {
    // Let shuttle install its panic hook before the engine's
    explore(0, 0, || ());
    engine::main(vec![c_wb::property(), c_cache::property()])
}
