#!/usr/bin/env python3
"""addfix.py PROP COMMIT KEY WHAT : record a repaired defect in known_findings.json"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p)); prop, commit, key, what = sys.argv[1:5]
d["findings"].append({"property": prop, "key": key, "status": "fixed", "commit": commit, "what": "fixed: property=%s %s %s" % (prop, commit, what)})
open(p, "w").write('{"findings": [\n' + ",\n".join(" " + json.dumps(f) for f in d["findings"]) + "\n]}\n")
