#!/usr/bin/env python3
"""kf.py PROP SHA TEXT: record a repaired defect."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"); k = json.load(open(p)); a = sys.argv[1:]
k["findings"].append({"property": a[0], "status": "fixed", "entry": f"fixed: property={a[0]} {a[1]} {a[2]}"}); json.dump(k, open(p, "w"), indent=1)
