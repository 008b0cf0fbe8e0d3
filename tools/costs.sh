#!/bin/bash
# Runs every check on the unchanged tree, one after the other, and keeps the summary lines.
cd "$(dirname "$0")/.."
for i in $(python3 -c "import json;print(*[json.loads(l)['id'] for l in open('properties.jsonl')])"); do
  ./check $i 2>&1 | grep "^$i: "
done > tools/costs.new
mv tools/costs.new tools/costs.txt
