"""writes MANIFEST.json from properties.jsonl, the check modules present and the reasons below"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = {}
exec(open(os.path.join(H, "tools", "notes.py")).read())
mods = {f[:3].upper() for f in os.listdir(os.path.join(H, "checks")) if f[0] == "c" and f[1:3].isdigit()}
checks, na = [], []
for line in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in mods and i not in NA:
        checks.append({
            "property": i, "quick_cmd": "bash run.sh %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough bash run.sh %s" % i,
            "technique": NOTE.get(i, ("", ""))[0] or "symbolic execution of the traced code, decided by z3",
            "level": "model_checking",
            "level_note": (NOTE.get(i, ("", ""))[1] + " " if i in NOTE else "") + COMMON})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
