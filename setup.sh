#!/bin/bash
# Nothing to install: every check builds what it needs from /repo's current tree.
cd "$(dirname "$0")" && mkdir -p evidence replay target && python3 -c "import json;json.load(open('MANIFEST.json'))"
