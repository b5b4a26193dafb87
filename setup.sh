#!/bin/bash
# compile the arithmetic overrides of spec/Fix.tla
set -e
cd "$(dirname "$0")"
python3 -c "import sys; sys.path.insert(0, 'harness'); import tlc; tlc.build()"
