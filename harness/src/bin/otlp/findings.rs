//! The findings of a live check, sent as log records.
use harness::*;
use std::sync::Arc;

pub fn run(_chk: &Arc<Check>) {}
