#!/usr/bin/env python3
"""Prints a replay file with the numbers decoded."""
import json, struct, sys
r = json.load(open(sys.argv[1]))
def dec(v):
    if isinstance(v, list) and len(v) == 2 and all(isinstance(i, int) for i in v) and max(map(abs, v)) > 1000:
        return struct.unpack('>d', struct.pack('>ii', *v))[0]
    if isinstance(v, list): return [dec(i) for i in v]
    if isinstance(v, dict): return {k: dec(i) for k, i in v.items()}
    return v
print(r["what"])
t = json.loads(r["data"]["trace"]); p = r["data"]["pos"]
print("pos", p)
keys = sys.argv[2:]
for k, v in t.items():
    if not keys or k in keys:
        if isinstance(v, list) and k in ("steps", "cbs", "ops", "calls", "ev"):
            for i, s in enumerate(v): print(k, i + 1, dec(s))
        else: print(k, dec(v))
