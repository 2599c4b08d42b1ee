//! Properties of the OTLP receiver and of what weaver sends over OTLP.
use harness::*;

mod emit;
mod findings;
mod infer;
mod ingest;
#[allow(dead_code)]
#[path = "../live/model.rs"]
mod model;
mod session;
mod sink;
mod wire;

fn main() {
    main_with(&[ingest::SPEC, infer::SPEC, emit::SPEC])
}
