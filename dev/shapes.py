#!/usr/bin/env python3
"""Development aid: `shapes.py REPORT DIR` writes, from an extraction report of the unchanged tree,
DIR/shapes.txt (the loops each contract's invariants were written for: kind, nesting, breaks) and
DIR/private.txt (the private functions under contract: if one is gone, its callers are verified
without it and nothing is left to prove about it)."""
import json, sys
d = json.load(open(sys.argv[1]))["functions"]
o = sys.argv[2]
open(o + "/shapes.txt", "w").write("".join(f"{k}\t{f['shape']}\n" for k, f in sorted(d.items()) if f["kind"] == "contracted" and f["shape"]))
open(o + "/private.txt", "w").write("".join(f"{k}\n" for k, f in sorted(d.items()) if f["kind"] == "contracted" and f["private"]))
