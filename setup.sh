#!/bin/bash
# Warm the compiler-output cache of the analyser (dependencies + current tree).
cd "$(dirname "$0")" || exit 1
python3 vsa/front.py victor lester || echo "setup: the tree does not compile yet; checks will say so"
exit 0
