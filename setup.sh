#!/bin/bash
set -e
cd "$(dirname "$0")"
mkdir -p work
(cd replay && cargo build --release --offline 2>&1 | tail -1)
[ -d vx ] && (cd vx && cargo build --release --offline 2>&1 | tail -1)
exit 0
