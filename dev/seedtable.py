#!/usr/bin/env python3
"""Development aid: the table of planted bugs for DESIGN.md. `seedtable.py LOG` replaces everything after
the heading "## Planted bugs"; LOG has one line per bug, `ID rc=.. nofail=.. <last lines of the check>`."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = {l.split()[0]: l for l in open(sys.argv[1]) if " rc=" in l}
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    l = log.get(i, "")
    failed = re.findall(r"failed: \[([^\]]*)\]", l)
    failed = failed[0].replace("'", "") if failed else ""
    failed = ", ".join(x.split("::", 1)[-1] if x.count("::") > 2 else x for x in failed.split(", ")) if failed else ""
    how = "not run" if not l else "missed" if "rc=1" not in l else "obligation only" if "nofail=0" not in l else "failing input"
    if "rc=1" in l:
        how += f"; failed: {failed}" if failed else "; no obligation (out of reach or undecided)"
    rows.append(f"| {i} | {m['property']} | {m['needs'].strip().rstrip('.')} | {how} |")
s = open(V + "/DESIGN.md").read()
h = "## Planted bugs\n"
s = s[:s.index(h)] + h + f"""
{len(rows)} changes in `seeded/`, each confirmed to build, pass the existing tests and fail its own demonstration. Last run of
the check of its property on each (quick tier):

| bug | property | needs | caught by |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(s)
