#!/bin/bash
# Builds the conformance harness from the committed files and /repo's working tree.
cd "$(dirname "$0")" && python3 check.py --build
