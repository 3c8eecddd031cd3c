#!/opt/venv/bin/python
"""dbg.py CHECK NAME-SUBSTRING [tier] [secs]: explore one configuration with tracing"""
import os, sys
os.environ.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", SX_DEBUG="1", PYTHONHASHSEED="0")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.setrecursionlimit(6000)
import warnings; warnings.simplefilter("ignore")
import importlib, time, json, collections, traceback
from symx import runner, core, load
m = importlib.import_module("checks." + sys.argv[1])
load.load(merge=getattr(m, "MERGE", False))
tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
secs = float(sys.argv[4]) if len(sys.argv) > 4 else 60
cnt = collections.Counter()
ob = core.Ctx.branch
def br(self, lit, site=None):
    n0 = len(self.pending)
    r = ob(self, lit, site)
    if len(self.pending) > n0:
        st = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_stack()[-14:-1] if "symx/core" not in f.filename]
        cnt[" < ".join(reversed(st[-5:]))] += 1
    return r
if os.environ.get("FORKS"): core.Ctx.branch = br
for cfg in m.configs(tier):
    if sys.argv[2] in cfg["name"]:
        t = time.time()
        r = runner.explore(m, cfg, t + secs, eager=cfg.get("eager", False))
        print(cfg["name"], r["status"], r["why"], r["violation"], {k: v for k, v in r["stats"].items() if v}, round(r["wall"], 2))
for k, v in cnt.most_common(12): print(v, k)
