#!/bin/bash
# Build the fact driver and the first set of facts (compiles /repo's dependencies once). Offline.
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
python3 - <<'P'
import sys; sys.path.insert(0,'va')
import factsbuild
factsbuild.build_driver()
print(factsbuild.ensure())
P
