#!/bin/bash
# Builds the harness against /repo and checks that the specification parses.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh 2>/dev/null || true
(cd harness && cargo build --release --offline --quiet)
java -version 2>&1 | head -1
