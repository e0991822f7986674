#!/bin/sh
# nothing to build: the verifier is Python and runs from the committed files; check that it starts
cd "$(dirname "$0")/.." && exec ./tools/selftest.py
