#!/bin/bash
# run every claimed check, one after another
cd "$(dirname "$0")/.."
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do python3-vt check.py $p 2>&1 | grep -v '^ *$' | cut -c1-300 | head -${1:-3}; done
