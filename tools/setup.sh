#!/bin/bash
# Builds the conformance harness once (every check rebuilds it from /repo's current tree).
cd "$(dirname "$0")" && exec python3 -c 'import vlib; print(vlib.build())'
