#!/bin/bash
# Builds the MIR extractor and warms the per-crate dependency builds.
cd "$(dirname "$0")/.." || exit 1
exec python3 - <<'P'
import sys
sys.path.insert(0, 'engine')
import os, build
build.build_mirdump()
for k in ('lib', 'html', 'cli'):
    try:
        os.unlink(build.dump(k))
    except build.BuildError as e:
        print(str(e)[-2000:])
print('ready')
P
