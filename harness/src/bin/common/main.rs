//! Properties of what all commands share: sources of registries, credentials, project configuration.
use harness::*;

mod archive;
mod auth;
mod config;
mod policy;

fn main() {
    main_with(&[archive::SPEC, auth::SPEC, config::SPEC, policy::SPEC])
}
