//! Properties of the services: search, lookup, HTTP API, MCP.
use harness::*;

mod api;
mod mcp;
mod search;

fn main() {
    main_with(&[search::SPEC])
}
