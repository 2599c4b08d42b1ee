#!/bin/bash
# Builds the harness and the weaver CLI from /repo's working tree.
cd "$(dirname "$0")" || exit 3
. ./env.sh
mkdir -p evidence replay target /repo/ui/dist
(cd harness && cargo build --offline --locked --bins) || exit 1
cargo build --offline --locked --manifest-path /repo/Cargo.toml --bin weaver || exit 1
