#!/usr/bin/env python3
"""fixed.py PROP COMMIT LABEL TEXT: record a repaired defect in known_findings.json"""
import json, os, sys
f = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/known_findings.json"
k = json.load(open(f))
l = k if isinstance(k, list) else next(v for v in k.values() if isinstance(v, list))
p, c, lab, t = sys.argv[1:5]
l.append({"property": p, "status": "fixed", "label": lab, "what": "fixed: property=%s %s %s" % (p, c, t)})
json.dump(k, open(f, "w"), indent=1)
