#!/bin/bash
# Builds the demonstration beside this script against /repo and runs it: 0 = the property held.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs" && cp "$here/common.rs" "$tmp/src/" && cp /repo/Cargo.lock "$tmp/" || exit 3
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.1"
edition = "2021"
[workspace]
[dependencies]
thermal_parser = { path = "/repo/thermal_parser" }
thermal_renderer = { path = "/repo/thermal_renderer" }
T
cd "$tmp" && timeout 280 cargo run --offline -q 2>&1 | tail -5
exit ${PIPESTATUS[0]}
