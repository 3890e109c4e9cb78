#!/bin/bash
# Builds the conformance driver against /repo's current tree.
cd "$(dirname "$0")"
exec python3-vt -c 'import sys; sys.path.insert(0, "tools"); import vplib; print(vplib.build())'
