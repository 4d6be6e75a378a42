#!/usr/bin/env python3
"""recfix.py PROPERTY COMMIT "what failed": append a fixed entry to known_findings.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p)); pid, c, w = sys.argv[1:4]
d["findings"].append({"property": pid, "status": "fixed", "commit": c, "what": w, "line": f"fixed: property={pid} {c} {w}"})
json.dump(d, open(p, "w"), indent=1); open(p, "a").write("\n")
