//! Properties of resolved schemas.
use harness::*;

mod convert;
mod diff;

fn main() {
    main_with(&[convert::SPEC, diff::SPEC])
}
