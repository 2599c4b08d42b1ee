//! Properties of artifact generation.
use harness::*;

mod apply;
mod comment;
mod helpers;
mod layers;
mod select;

fn main() {
    main_with(&[layers::SPEC, apply::SPEC, select::SPEC, comment::SPEC, helpers::SPEC])
}
