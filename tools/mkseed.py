"""mkseed.py SPEC.py [--norun]: author a seeded bug from a spec file and confirm it (build, stable tests, demo both ways, check).
The spec defines ID, PROP, EDITS=[(file, old, new)...], NEEDS, WHAT, DEMO (python text)."""
import json, os, subprocess, sys
sp = {}
exec(open(sys.argv[1]).read(), sp)
d = "/verif/seeded/" + sp["ID"]
os.makedirs(d, exist_ok=True)
open(d + "/demo.py", "w").write(sp["DEMO"].lstrip())
open(d + "/demo.sh", "w").write('#!/bin/bash\n. /opt/vp/env.sh\nexport JAX_ENABLE_X64=1 TF_CPP_MIN_LOG_LEVEL=3 PYTHONWARNINGS=ignore PYTHONPATH=/repo\nexec $PY "$(dirname "$0")/demo.py"\n')
json.dump({"property": sp["PROP"], "needs": sp["NEEDS"], "what_it_breaks": sp["WHAT"]}, open(d + "/meta.json", "w"), indent=1)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert sh("git -C /repo status --porcelain").stdout.strip() == "", "dirty /repo"
r0 = sh("cd /repo && bash %s/demo.sh" % d)
print("demo clean rc", r0.returncode, r0.stdout[-300:], r0.stderr[-600:] if r0.returncode else "")
try:
    for f, a, b in sp["EDITS"]:
        s = open("/repo/" + f).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open("/repo/" + f, "w").write(s.replace(a, b))
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    if "--norun" not in sys.argv:
        print("build rc", sh("bash /opt/vp/build.sh").returncode)
        sh("bash /opt/vp/test.sh /tmp/o.json")
        b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/o.json"))
        st = b["stable"] if isinstance(b["stable"], list) else list(b["stable"])
        print("stable tests failing:", [t for t in st if t not in o["passed"]])
    r1 = sh("cd /repo && bash %s/demo.sh" % d)
    print("demo patched rc", r1.returncode, r1.stdout[-300:], r1.stderr[-300:])
    if "--nocheck" not in sys.argv:
        r = sh("cd /verif && bash run.sh %s" % sp["PROP"])
        print("check rc", r.returncode, r.stdout[-1500:][:1500])
finally:
    sh("git -C /repo checkout -- .")
