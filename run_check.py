"""Runner: run_check.py <ID> [--replay FILE]; see DESIGN.md."""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
EVID = os.path.join(HERE, "evidence")


def load(pid):
    for f in sorted(os.listdir(os.path.join(HERE, "checks"))):
        if f.lower().startswith(pid.lower() + "_") and f.endswith(".py"):
            return importlib.import_module("checks." + f[:-3])
    raise SystemExit("no check module for %s" % pid)


def worker(pid, tier, outdir, only=None):
    """claim scenarios one after the other; write one json per scenario"""
    import warnings

    warnings.filterwarnings("ignore")
    from symx import harness
    from symx.poly import Unsupported
    from symx.engine import PathLimit

    def on_alarm(*_):
        raise Unsupported("time limit of the scenario reached")

    signal.signal(signal.SIGALRM, on_alarm)
    try:
        mod = load(pid)
        scs = mod.scenarios(tier)
    except Exception as e:
        with open(os.path.join(outdir, "worker-%d.err" % os.getpid()), "w") as f:
            f.write(traceback.format_exc())
        return
    deadline = time.time() + float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "7200"))
    with open(os.path.join(outdir, "names.json.%d" % os.getpid()), "w") as f:
        json.dump([s[0] for s in scs], f)
    for name, build in scs:
        if only and name != only:
            continue
        try:
            fd = os.open(os.path.join(outdir, "claim-" + name), os.O_CREAT | os.O_EXCL)
            os.close(fd)
        except FileExistsError:
            continue
        if os.path.exists(os.path.join(outdir, "stop")):
            return
        res = {"name": name}
        t0 = time.time()
        cap = float(os.environ.get("VERIF_CAP", "300" if tier == "quick" else "3600"))
        # repeated, since code under test may swallow the exception
        signal.setitimer(signal.ITIMER_REAL, max(1, min(cap, deadline - time.time())), 2)
        try:
            try:
                sc = build()
            except (Unsupported, ImportError):
                raise
            except Exception as e:
                if harness.in_repo(e.__traceback__):
                    raise harness.Violation(name, "construction raises", {}, [
                        ("raises", "%s: %s" % (type(e).__name__, str(e)[:300]), "an object")])
                raise
            sc.name = name
            res.update(harness.run_scenario(sc, deadline))
            res["status"] = "ok"
        except harness.Violation as v:
            res.update(status="violation", label=v.label, inputs=harness.jsonable(v.inputs),
                       detail=[list(map(str, d)) for d in v.detail][:5])
            open(os.path.join(outdir, "stop-" + name), "w").close()
        except (Unsupported, PathLimit, harness.EncodingError) as e:
            res.update(status="undecided", error="%s: %s" % (type(e).__name__, e),
                       trace=traceback.format_exc()[-3000:])
        except Exception as e:
            res.update(status="violation" if (harness.in_repo(e.__traceback__) and getattr(e, "_from_repo", False)) else "error",
                       error="%s: %s" % (type(e).__name__, e), trace=traceback.format_exc()[-6000:])
        signal.setitimer(signal.ITIMER_REAL, 0)
        res.setdefault("wall_s", round(time.time() - t0, 2))
        tmp = os.path.join(outdir, "tmp-%d" % os.getpid())
        with open(tmp, "w") as f:
            json.dump(res, f)
        os.rename(tmp, os.path.join(outdir, "res-" + name + ".json"))


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if len(sys.argv) > 3 and sys.argv[2] == "--worker":
        return worker(pid, tier, sys.argv[3], sys.argv[4] if len(sys.argv) > 4 else None)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay(pid, tier, sys.argv[3])
    if len(sys.argv) > 3 and sys.argv[2] == "--only":
        only = sys.argv[3]
    else:
        only = None
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    evf = os.path.join(EVID, pid + ".json")
    outdir = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    nw = int(os.environ.get("VERIF_WORKERS", "8")) if only is None else 1
    err = []
    try:
        procs = []
        cmd = [sys.executable, os.path.abspath(__file__), pid, "--worker", outdir]
        if only:
            cmd.append(only)
        for k in range(nw):
            procs.append(subprocess.Popen(cmd, cwd=HERE, stdout=subprocess.DEVNULL if not only else None,
                                          stderr=open(os.path.join(outdir, "stderr-%d" % k), "w")))
        end = t0 + float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "7200")) + 40
        for p in procs:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        results = []
        names = None
        for f in sorted(os.listdir(outdir)):
            if f.startswith("res-"):
                results.append(json.load(open(os.path.join(outdir, f))))
            elif f.startswith("names.json."):
                names = json.load(open(os.path.join(outdir, f)))
            elif f.endswith(".err"):
                err.append(open(os.path.join(outdir, f)).read())
        stderr = ""
        for k in range(nw):
            stderr += open(os.path.join(outdir, "stderr-%d" % k)).read()[-1500:]
        got = {r["name"] for r in results}
        missing = [n for n in (names or []) if n not in got and (only is None or n == only)]
    finally:
        shutil.rmtree(outdir, ignore_errors=True)
    if names is None:
        print("ERROR: no worker could build the scenarios\n" + "\n".join(err[:1]) + stderr[-3000:])
        write_evidence(evf, pid, tier, seed, [], t0, 0, ["harness could not start"])
        return 2
    viol, known = [], []
    kf = known_findings()
    for r in results:
        if r["status"] == "violation":
            hit = None
            for k in kf:
                if k.get("property") == pid and k.get("status") == "known" and matches(k, r):
                    hit = k
            (known if hit else viol).append((r, hit))
    und = [r for r in results if r["status"] in ("undecided", "error")]
    ok = [r for r in results if r["status"] == "ok"]
    for r, k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for r in und:
        print("UNDECIDED %s: %s" % (r["name"], str(r.get("error"))[:300]))
        if os.environ.get("VERIF_DEBUG"):
            print((r.get("trace") or "")[-int(os.environ["VERIF_DEBUG"]):])
    for n in missing:
        print("MISSING result for scenario %s (worker died?)" % n)
    write_evidence(evf, pid, tier, seed, results, t0, len(viol), missing)
    if viol:
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        r, _ = viol[0]
        path = os.path.join(EVID, "replay", "%s-%s.json" % (pid, r["name"]))
        json.dump({"property": pid, "scenario": r["name"], "label": r.get("label"),
                   "inputs": r.get("inputs"), "detail": r.get("detail"), "tier": tier,
                   "how": "bash run.sh %s --replay %s" % (pid, path)}, open(path, "w"), indent=1)
        for r2, _ in viol:
            print("violated: %s / %s: %s" % (r2["name"], r2.get("label"), r2.get("detail") or r2.get("error")))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if only is None and (not ok or len(und) + len(missing) > len(ok)):
        print("ERROR: %d scenarios undecided, %d decided" % (len(und) + len(missing), len(ok)))
        return 2
    print("OK property=%s scenarios=%d undecided=%d paths=%d queries=%d wall=%.1fs" % (
        pid, len(ok), len(und) + len(missing), sum(r.get("paths", 0) for r in ok),
        sum(r.get("queries", 0) for r in ok), time.time() - t0))
    return 0


def matches(k, r):
    import fnmatch

    if not fnmatch.fnmatch(r["name"], k["scenario"]):
        return False
    lab = k.get("label")
    return lab is None or fnmatch.fnmatch(str(r.get("label")), lab)


def replay(pid, tier, path):
    from symx import harness

    d = json.load(open(path))
    mod = load(pid)
    for name, build in mod.scenarios(d.get("tier", tier)):
        if name == d["scenario"]:
            sc = build()
            sc.name = name
            if hasattr(sc, "prepare"):
                sc.prepare()
            if hasattr(sc, "replay_concrete"):
                bad = sc.replay_concrete(harness.from_json(d["inputs"]))
            else:
                bad = harness.try_concrete(sc, harness.from_json(d["inputs"]))
            for b in bad:
                print("REPRODUCED %s: got %s expected %s" % tuple(map(str, b[:3])))
            return 1 if bad else 0
    print("scenario not found")
    return 2


def write_evidence(evf, pid, tier, seed, results, t0, nviol, missing):
    ok = [r for r in results if r["status"] == "ok"]
    prims = {}
    for r in ok:
        for k, v in r.get("prims", {}).items():
            prims[k] = prims.get(k, 0) + v
    asm = sorted({a for r in ok for a in r.get("assumptions", [])})
    funcs = sorted({f for r in ok for f in r.get("functions", [])})
    samples = []
    for r in ok:
        samples.extend(r.get("samples", [])[:1])
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": sum(r.get("paths", 0) for r in ok),
            "transitions": sum(r.get("eqns", 0) for r in ok),
            "traces_validated_against_impl": sum(r.get("validated", 0) for r in ok),
            "samples": samples[:8],
            "meaning": "states = feasible symbolic paths; transitions = IR operations interpreted symbolically",
            "solver": "z3",
            "assertions_decided": sum(r.get("assertions", 0) for r in ok),
            "assertions_settled_by_an_identical_earlier_query": sum(r.get("reused", 0) for r in ok),
            "queries_discharged": sum(r.get("queries", 0) for r in ok),
            "queries_unsat": sum(r.get("unsat", 0) for r in ok),
            "feasibility_queries": sum(r.get("feasibility", 0) for r in ok),
            "nontrivial_identities": sum(r.get("nontrivial", 0) for r in ok),
            "solver_seconds": round(sum(r.get("solver_s", 0) for r in ok), 3),
            "functions_encoded": funcs,
            "primitives_interpreted": prims,
            "scenarios": [{"name": r["name"], "bound": r.get("bound", ""), "paths": r.get("paths"),
                           "queries": r.get("queries"), "wall_s": r.get("wall_s")} for r in ok],
            "undecided": [{"name": r["name"], "why": r.get("error")} for r in results
                          if r["status"] in ("undecided", "error")] + [{"name": str(m), "why": "no result"} for m in missing],
        },
        "assumptions": asm + ["floating point values are modelled as exact real/complex numbers"],
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    json.dump(ev, open(evf, "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
