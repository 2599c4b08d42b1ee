//! Properties of live check.
use harness::*;

mod attrs;
mod model;
mod rules;
mod signals;

fn main() {
    main_with(&[attrs::SPEC, signals::SIGNALS, signals::ENTITIES, rules::MODIFIER, rules::STATS])
}
