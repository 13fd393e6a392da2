#!/usr/bin/env python3-vt
"""check.py PROPERTY: decides one property of /repo's current working tree.

Exit 0: every obligation was discharged.  Exit 1: one was not (VIOLATION line).
"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

REPO = os.environ.get("PYVC_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else "python3"


def falsify(prop, seed, seconds, procs):
    """A concrete failing input, if one is found."""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    ps = [subprocess.Popen(
        [PY, os.path.join(HERE, "falsify", "falsify.py"), prop, "--seed", str(seed + 7919 * k),
         "--seconds", str(seconds), "--repo", REPO],
        stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True)
        for k in range(procs)]
    found, cases = None, 0
    end = time.time() + seconds * 2 + 60
    todo = list(ps)
    while todo and found is None:
        for p in list(todo):
            if p.poll() is None:
                if time.time() > end:
                    p.kill()
                    todo.remove(p)
                continue
            todo.remove(p)
            try:
                d = json.loads(p.stdout.read().strip().splitlines()[-1])
            except Exception:
                continue
            cases += d.get("stats", {}).get("cases", 0) + d.get("stats", {}).get("lexed", 0)
            if d.get("found"):
                found = d
                break
        time.sleep(.1)
    for p in ps:
        if p.poll() is None:
            p.kill()
    return found, cases


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    known = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            if line.startswith("finding: property=%s " % a.prop):
                known.append(line[len("finding: "):].strip())
    from pyvc import kinds, properties            # noqa: F401
    from pyvc.jobs import run_all
    from pyvc.source import Package
    prop = properties.PROPS[a.prop]
    try:
        digest = Package().digest
        results = run_all(prop.jobs)
    except (SyntaxError, OSError) as e:
        results, digest = [], None
        bad = [("source", False, "the source cannot be read: %s" % e, "")]
    else:
        bad = [o for r in results for o in r.obs if not o[1]]
    n = sum(len(r.obs) for r in results)
    by = {}
    for r in results:
        by[r.job] = dict(obligations=len(r.obs), discharged=sum(1 for o in r.obs if o[1]),
                         wall_s=round(r.wall, 2))
    cov = dict(
        obligations=n, discharged=n - len(bad) if results else 0,
        checker_cmd="python3-vt check.py %s" % a.prop,
        trusted_base=properties.TRUST,
        functions_under_contract=sorted({f for r in results for f in r.functions}),
        solver="z3 (SMT), one query per path condition and obligation",
        solver_queries=sum(r.checks for r in results),
        solver_unknown=sum(r.unknown for r in results),
        solver_s=round(sum(r.solver for r in results), 2),
        jobs=by, source_sha256=digest)
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level="proof", coverage=cov,
              assumptions=prop.assumptions, violations=0)
    for k in known:
        print("KNOWN-FINDING: %s" % k)
    code = 0
    if bad:
        code = 1
        names = []
        for o in bad:
            if o[0] not in names:
                names.append(o[0])
        print("%d of %d obligations not discharged:" % (len(bad), n))
        for x in names[:12]:
            print("  %s" % x)
        secs = float(os.environ.get("VERIF_FALSIFY_S", "45" if a.tier == "quick" else "180"))
        found, cases = falsify(a.prop, seed, secs, min(8, os.cpu_count() or 1))
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        path = os.path.join(HERE, "replay", "%s.json" % a.prop)
        with open(path, "w") as f:
            json.dump(dict(
                property=a.prop, failed_obligations=names,
                verifier_output=[dict(obligation=o[0], detail=o[2], where=o[3][:2000])
                                 for o in bad[:8]],
                input=found,
                replay="%s %s --replay %s" % (PY, os.path.join(HERE, "falsify", "falsify.py"),
                                              path) if found else None,
                searched_cases=cases), f, indent=1)
        if found:
            print("failing input: %s" % json.dumps({k: found[k] for k in found if k != "stats"})[:1500])
        ev["violations"] = 1
        print("VIOLATION property=%s replay=%s%s" % (
            a.prop, path, "" if found else " no-failing-input-found"))
    else:
        print("%s: %d obligations discharged, %d functions under contract" % (
            a.prop, n, len(cov["functions_under_contract"])))
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", "%s.json" % a.prop), "w") as f:
        json.dump(ev, f, indent=1)
    return code


if __name__ == "__main__":
    sys.exit(main())
