#!/bin/bash
# Build the framework once, offline, from the committed files.
set -eu
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd harness && cargo build --release --offline)
(cd nostd && cargo build --release --offline)
