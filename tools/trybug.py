"""python3-vt trybug.py [IDS...]: run the check of each planted bug's property against a scratch copy."""
import json, os, shutil, subprocess, sys, time
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
for i in ids:
    d = f"/verif/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    shutil.rmtree("/tmp/trytree", ignore_errors=True)
    shutil.copytree("/repo", "/tmp/trytree", symlinks=True)
    a = subprocess.run(["git", "apply", d + "/patch.diff"], cwd="/tmp/trytree", capture_output=True, text=True)
    if a.returncode:
        print(i, "PATCH DOES NOT APPLY", a.stderr[:200]); continue
    t = time.time()
    r = subprocess.run(["python3-vt", "/verif/check.py", meta["property"]], cwd="/verif", capture_output=True,
                       text=True, env=dict(os.environ, PYVC_REPO="/tmp/trytree"))
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(i, meta["property"], "rc", r.returncode, f"{time.time()-t:.0f}s", (v or [r.stdout[-200:] + r.stderr[-200:]])[0][:200], flush=True)
shutil.rmtree("/tmp/trytree", ignore_errors=True)
