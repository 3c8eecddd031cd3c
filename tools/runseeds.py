#!/usr/bin/python3
"""runseeds.py [IDs]: run each planted bug's check against a scratch copy of /repo with the patch applied (development aid)"""
import sys, os, shutil, subprocess, tempfile, json, time
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
for i in ids:
    m = json.load(open(f"/verif/seeded/{i}/meta.json"))
    d = tempfile.mkdtemp(prefix="seed"); shutil.copytree("/repo/mentpy", d + "/mentpy")
    subprocess.run(["git", "apply", f"/verif/seeded/{i}/patch.diff"], cwd=d, check=True)
    t = time.time()
    r = subprocess.run(["/opt/venv/bin/python", "/verif/run.py", m["property"], os.environ.get("TIER", "quick")], env=dict(os.environ, VERIF_REPO=d, VERIF_SCRATCH=d), capture_output=True, text=True, cwd="/verif")
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(i, "exit", r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", f"{time.time() - t:.0f}s", flush=True)
    shutil.rmtree(d)
