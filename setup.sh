#!/bin/bash
# Builds the extractor and the bounded harness from the committed files (offline). Checks build what they need again.
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true
(cd tools/vx && cargo build --offline --release --quiet) || exit 1
(cd harness && cargo build --offline --quiet)
