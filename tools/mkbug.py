"""Make a planted bug: python3 mkbug.py SPECFILE [IDS...]

SPECFILE defines bug(id, prop, edits=[(file, old, new)], demo=..., needs=..., breaks=...).
Checks that the stable tests pass with the change and that the demonstration tells the two trees
apart, then writes /verif/seeded/<id>/.
"""
import json, os, shutil, subprocess, sys

OUT = "/verif/seeded"
BUGS = {}
DEMO = """#!/bin/bash
# exit 0 iff the property holds on the tree in the current directory
d="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 timeout 60 /opt/venv/bin/python "$d/demo.py"
"""


def bug(id, prop, edits, demo, needs, breaks):
    BUGS[id] = (prop, edits, demo, needs, breaks)


def run(cmd, cwd, env=None, t=120):
    try:
        return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t,
                              env=dict(os.environ, **(env or {})))
    except subprocess.TimeoutExpired:
        class R: returncode, stdout, stderr = 124, "", "timeout"
        return R


def main():
    exec(open(sys.argv[1]).read(), {"bug": bug})
    ids = sys.argv[2:] or list(BUGS)
    for i in ids:
        prop, edits, demo, needs, breaks = BUGS[i]
        tree = "/tmp/bugtree"
        shutil.rmtree("/tmp/bugtree", ignore_errors=True)
        shutil.copytree("/repo", tree, symlinks=True)
        bad = None
        for f, old, new in edits:
            p = f"{tree}/src/reparsec/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                bad = f"{f}: {s.count(old)} matches of {old[:50]!r}"
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(i, "BAD EDIT", bad)
            continue
        d = f"/tmp/bugdemo"
        shutil.rmtree("/tmp/bugdemo", ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.py", "w").write(demo.lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO)
        t = run("PYTHONPATH=$PWD/src PYTHONDONTWRITEBYTECODE=1 timeout 100 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --doctest-modules --doctest-glob=*.rst tests src docs/source/pages 2>&1 | tail -4", tree)
        tests = " passed" in t.stdout and "failed" not in t.stdout and "error" not in t.stdout.lower()
        good = run(f"bash {d}/demo.sh", "/repo")
        broken = run(f"bash {d}/demo.sh", tree)
        diff = run("git diff -- src", tree).stdout
        ok = tests and good.returncode == 0 and broken.returncode != 0
        print(i, prop, "OK" if ok else "NO", "tests" if tests else "TESTS: " + t.stdout[-300:],
              "" if good.returncode == 0 else "GOOD FAILS " + good.stderr[-300:],
              "" if broken.returncode else "DEMO PASSES")
        if ok:
            o = f"{OUT}/{i}"
            os.makedirs(o, exist_ok=True)
            open(o + "/patch.diff", "w").write(diff)
            shutil.copy(d + "/demo.py", o)
            shutil.copy(d + "/demo.sh", o)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                      open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree("/tmp/bugtree", ignore_errors=True)
    shutil.rmtree("/tmp/bugdemo", ignore_errors=True)


main()
