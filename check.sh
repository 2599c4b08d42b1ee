#!/bin/bash
# usage: check.sh <ID> <quick|thorough> [--case NAME]
cd "$(dirname "$0")" || exit 3
. ./env.sh
id=$1; tier=$2; shift 2
line=$(grep -E "^$id " bins.txt) || { echo "unknown property $id" >&2; exit 3; }
bin=$(echo "$line" | awk '{print $2}')
needs_cli=$(echo "$line" | awk '{print $3}')
mkdir -p evidence replay target
log=target/build-$id.log
build() {
  (cd harness && cargo build --offline --locked --bin "$bin") >"$log" 2>&1 || return 1
  if [ "$needs_cli" = cli ]; then
    mkdir -p /repo/ui/dist
    cargo build --offline --locked --manifest-path /repo/Cargo.toml --bin weaver >>"$log" 2>&1 || return 1
  fi
}
if ! build; then
  echo "engine error: build failed" >&2; tail -30 "$log" >&2; exit 3
fi
export VERIF_TIER=$tier WEAVER_BIN="$CARGO_TARGET_DIR/debug/weaver"
exec "$CARGO_TARGET_DIR/debug/$bin" "$id" "$tier" "$@"
