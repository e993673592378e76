#!/bin/bash
# Builds the harness once, so that a broken toolchain or harness shows at once and build caches are warm.
cd "$(dirname "$0")/.." && python3 check.py --build-only
