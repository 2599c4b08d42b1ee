//! Properties of markdown files that are kept up to date.
use harness::*;

mod update;

fn main() {
    main_with(&[update::SPEC])
}
