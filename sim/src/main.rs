//! Deterministic simulation of partial-pretty-printer. See /verif/DESIGN.md.

mod alloc;
mod gen;
mod harness;
mod model;
mod panes;
mod props;
mod rng;
mod sched;
mod session;
mod shrink;
mod simdoc;
mod spec;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

#[cfg(feature = "span")]
pub fn set_span_hook(f: Option<fn(&'static str)>) -> Option<fn(&'static str)> {
    no_nonsense_flamegraphs::set_hook(f)
}
#[cfg(not(feature = "span"))]
pub fn set_span_hook(_: Option<fn(&'static str)>) -> Option<fn(&'static str)> {
    None
}

fn main() {
    // Everything runs on threads with a known stack size (see harness).
    std::process::exit(harness::main());
}
