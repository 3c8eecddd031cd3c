#!/usr/bin/python3
"""mkseed.py [ID...]: build /verif/seeded/<id>/ from tools/seeds.py and confirm each in a scratch copy of /repo
   (patch touches only original lines, demo passes without and fails with it, stable tests pass with it)."""
import sys, os, shutil, subprocess, tempfile, json, re
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
import seeds
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/mplconfig", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", NUMBA_NUM_THREADS="1")
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--grep", "^fix:", "--invert-grep", "-n1", "HEAD"], capture_output=True, text=True).stdout.strip()
def original(f, old):
    "are the lines that `old` covers lines of the original repository?"
    src = open("/repo/" + f).read(); assert src.count(old) == 1, (f, old, src.count(old))
    a = src[:src.index(old)].count("\n") + 1
    return a
def blame(f, a, b):
    o = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-L", f"{a},{b}", f], capture_output=True, text=True).stdout
    return [l for l in o.splitlines() if not (l.startswith("^" + BASE[:7]) or BASE.startswith(l.split()[0].lstrip("^")))]
def main(ids):
    for s in seeds.SEEDS:
        if ids and s["id"] not in ids: continue
        out = os.path.join(os.environ.get("SEEDOUT", os.path.join(V, "seeded")), s["id"])
        if not ids and os.path.exists(out + "/meta.json"): continue
        d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
        try:
            subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
            r = d + "/r"
            for f, old, new in s["edits"]:
                p = os.path.join(r, f); src = open(p).read()
                if src.count(old) != 1: print(s["id"], "edit does not apply", src.count(old), repr(old)); break
                open(p, "w").write(src.replace(old, new))
            else:
                diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
                # removed lines must be original
                bad = []
                cur = None; ln = 0
                for l in diff.splitlines():
                    if l.startswith("--- a/"): cur = l[6:]
                    elif l.startswith("@@"): ln = int(re.match(r"@@ -(\d+)", l).group(1))
                    elif l.startswith("-") and not l.startswith("---"): bad += blame(cur, ln, ln); ln += 1
                    elif l.startswith(" "): ln += 1
                if bad: print(s["id"], "WARNING removes lines added by fixes:", bad)
                demo = d + "/demo"; os.makedirs(demo)
                open(demo + "/demo.py", "w").write(s["demo"])
                open(demo + "/demo.sh", "w").write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nd="$(cd "$(dirname "$0")" && pwd)"\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$d/demo.py"\n')
                a = subprocess.run(["bash", demo + "/demo.sh"], cwd="/repo", env=ENV, capture_output=True, text=True)
                b = subprocess.run(["bash", demo + "/demo.sh"], cwd=r, env=ENV, capture_output=True, text=True)
                if a.returncode != 0: print(s["id"], "demo fails on clean tree:", (a.stdout + a.stderr)[-500:]); continue
                if b.returncode == 0: print(s["id"], "demo passes with the change"); continue
                if not os.environ.get("NOTEST"):
                    t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", os.environ.get("SEEDJ", "6"), "--dist", "worksteal", "--timeout=600", "-o", "junit_family=xunit2"], cwd=r, env=ENV, capture_output=True, text=True)
                    last = t.stdout.strip().splitlines()[-1]
                    if t.returncode != 0: print(s["id"], "TESTS FAIL:", last); continue
                else: last = "(tests not run)"
                shutil.rmtree(out, ignore_errors=True); shutil.copytree(demo, out)
                open(out + "/patch.diff", "w").write(diff)
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
                print(s["id"], "ok;", last, "| demo:", (b.stdout + b.stderr).strip().splitlines()[-1][:150], flush=True)
        finally: shutil.rmtree(d, ignore_errors=True)
main(sys.argv[1:])
