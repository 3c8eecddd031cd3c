#!/usr/bin/python3
"""trymut.py CHECKS FILE OLD NEW [COUNT]: run checks against a scratch copy of /repo with one textual change (development aid)"""
import sys, os, shutil, subprocess, tempfile
checks, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut")
shutil.copytree("/repo/mentpy", d + "/mentpy")
p = os.path.join(d, "mentpy", f); s = open(p).read()
assert old in s, "text not found"
s = s.replace(old, new, int(sys.argv[5]) if len(sys.argv) > 5 else 1)
open(p, "w").write(s)
env = dict(os.environ, VERIF_REPO=d, VERIF_SCRATCH=d)
for c in checks.split(","):
    r = subprocess.run(["/opt/venv/bin/python", "/verif/run.py", c, os.environ.get("TIER", "quick")], env=env, capture_output=True, text=True, cwd="/verif")
    print(c, "exit", r.returncode, "|", (r.stdout + r.stderr)[-700:])
shutil.rmtree(d)
