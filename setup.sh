#!/bin/bash
# Nothing to install: every check builds what it needs from /repo and /verif/cw.  This only verifies the tools.
set -e
cd "$(dirname "$0")"
cargo kani --version
python3 -c 'import json'
mkdir -p evidence .build
