#!/bin/bash
# Everything is built on demand by the checks; this only warms the cache.
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import sys; sys.path.insert(0, "lib")
import vp
vp.java_classes()
P
