"""usage: addfix.py PROP COMMIT TEXT  -- records a repaired defect in known_findings.json (run by hand)"""
import json
import sys

d = json.load(open("/verif/known_findings.json"))
d["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
json.dump(d, open("/verif/known_findings.json", "w"), indent=1)
