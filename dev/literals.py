"""Development aid: writes replay/literals.json, the constants of the current sources (see check.py, hints)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
i, f = check.literals()
json.dump({"ints": {str(k): v for k, v in sorted(i.items())}, "floats": {repr(k): v for k, v in sorted(f.items())}}, open(V + "/replay/literals.json", "w"), indent=0)
