//! Concurrency: all interleavings (up to a preemption bound) of small programs on the real stores,
//! caches and forests, at every lock operation (see shim/) and at the callbacks into user code.
#[macro_use]
#[path = "../../mc/src/engine.rs"]
#[allow(dead_code)]
mod engine;
#[path = "../../mc/src/driver.rs"]
mod driver;
#[path = "../../mc/src/types.rs"]
#[allow(dead_code)]
mod types;
#[path = "../../mc/src/q.rs"]
#[allow(dead_code)]
mod q;
mod p20;

fn main() {
    driver::run(
        |id| match id {
            "P20" => Some((p20::explore, p20::replay)),
            _ => None,
        },
        |_| None,
    )
}
