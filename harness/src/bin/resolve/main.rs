//! Resolution properties.
use harness::*;

mod cache;
mod dangling;
mod deps;
mod dups;
mod graph;
mod inherit;
mod order;
mod refs;

fn main() {
    main_with(&[order::SPEC, refs::SPEC, inherit::SPEC, dangling::SPEC, dups::SPEC, deps::SPEC, graph::SPEC, cache::SPEC])
}
