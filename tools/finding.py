#!/usr/bin/env python3
"""finding.py COMMIT PROPERTY TEXT: record a fixed defect."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(p))
c, pid, w = sys.argv[1:4]
k["findings"].append({"status": "fixed", "property": pid, "commit": c, "what": w, "line": "fixed: property=%s %s %s" % (pid, c, w)})
json.dump(k, open(p, "w"), indent=1)
