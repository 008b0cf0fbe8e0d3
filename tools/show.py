#!/usr/bin/env python3
"""Shows the part of a replay file around the rejected event."""
import json, sys
d = json.load(open(sys.argv[1]))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 14
print(d["scenario"], d["status"], d["what"][:300])
p = d["rejected_at"]
for i, e in enumerate(d["trace"][:p + 3]):
    if i == 0 or i > p - n:
        print("%s%4d %s" % (">>" if i == p else "  ", i, json.dumps(e)[:420]))
if d["stderr"] and "-e" in sys.argv:
    print(d["stderr"][:2500])
