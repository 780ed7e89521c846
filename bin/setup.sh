#!/bin/bash
# Builds the framework from the committed files: Java overrides of TLC and the harness crates.
cd "$(dirname "$0")/.." || exit 1
exec python3 - <<'P'
import sys
sys.path.insert(0, "lib")
import common as C
C.java_overrides()
C.build_core()
try:
    import ida
except ImportError:
    ida = None
if ida:
    ida.build()
print("ready")
P
