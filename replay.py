#!/opt/venv/bin/python
"""replay.py FILE     re-run a counterexample against the unmodified code (exit 1: it fails, 0: it does not)
   replay.py --serve PROPERTY   answer replay requests on stdin"""
import os, sys, json, warnings, traceback
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(1, os.environ.get("VERIF_REPO", "/repo"))
warnings.simplefilter("ignore")
import importlib
def once(mod, cfg, inputs):
    fn = getattr(mod, "replay_" + cfg["h"]) if "h" in cfg else mod.replay
    try:
        r = fn(inputs, cfg)
        return {"ok": r is None, "msg": r}
    except Exception as e:
        return {"ok": False, "msg": f"the real code raised {type(e).__name__}: {e}", "tb": traceback.format_exc()[-1500:]}
if sys.argv[1] == "--serve":
    mod = importlib.import_module("checks." + sys.argv[2])
    out = os.fdopen(os.dup(1), "w"); os.dup2(2, 1)
    for line in sys.stdin:
        q = json.loads(line)
        r = once(mod, q["cfg"], q["inputs"])
        if os.environ.get("SX_DEBUG") and not r["ok"]: print(r, file=sys.stderr)
        out.write(json.dumps(r, default=str) + "\n"); out.flush()
else:
    d = json.load(open(sys.argv[1]))
    mod = importlib.import_module("checks." + d["property"])
    r = once(mod, d["cfg"], d["inputs"])
    print(r["msg"] if not r["ok"] else "holds")
    sys.exit(0 if r["ok"] else 1)
