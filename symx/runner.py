"""Exploration of a harness configuration and the command-line driver of a check."""
import sys, os, json, time, importlib, subprocess, traceback, hashlib, random, signal
import multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from symx import core
VPY = "/opt/venv/bin/python"

def one_path(mod, cfg, prefix, demoted, stats, deadline, eager):
    from symx import poly
    core.reset_graph(); poly.reset(); poly._norms.clear()
    mode = cfg.get("mode", getattr(mod, "MODE", "bits"))
    c = core.Ctx(prefix, demoted, stats, deadline, mode=mode, qtimeout_ms=cfg.get("qtimeout", 60000 if mode == "bits" else 10000))
    c.eager = eager; c.nomerge = eager
    if mode == "poly": c.hints.append(poly.hints)
    core.CTX = c
    res = ("ok", None)
    try:
        fn = getattr(mod, "run_" + cfg["h"]) if "h" in cfg else mod.run
        fn(c, cfg)
        stats.paths += 1
    except core.PathEnd:
        stats.infeasible += 1
    except core.Violation as v:
        res = ("violation", {"msg": v.msg, "inputs": v.inputs, "info": v.info})
    except core.Engine:
        raise
    except RecursionError:
        res = ("exc", "RecursionError")
    except Exception as e:
        if os.environ.get("SX_DEBUG"): traceback.print_exc()
        if c.glit != core.T and c.guards:
            raise core.NeedFork(c.guards[-1][1], f"exception {type(e).__name__}: {e}")
        m = c.model()
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-4:]
        if m is None: raise core.Inconclusive(f"exception on a path without a model: {e!r}")
        res = ("violation", {"msg": f"unexpected {type(e).__name__}: {e}", "inputs": c.concretise(m), "info": {"where": where}, "exc": True})
    return c, res

def explore(mod, cfg, deadline, eager=False, maxval=2):
    "depth-first over all paths of one configuration"
    stats = core.Stats()
    demoted = set()
    out = {"cfg": cfg, "status": "ok", "violation": None, "samples": [], "reach": set(), "why": None}
    t0 = time.time()
    restarts = 0
    while True:
        stack = [[]]
        out["samples"] = []; stats.paths = 0
        try:
            while stack:
                if time.time() > deadline: raise core.Timeout()
                prefix = stack.pop()
                c, res = one_path(mod, cfg, prefix, demoted, stats, deadline, eager)
                stack.extend(c.pending)
                out["reach"] |= c.reach
                if res[0] == "violation":
                    out["status"] = "violation"; out["violation"] = res[1]
                    break
                if len(out["samples"]) < maxval and c.inputs and c.reach:
                    try:
                        m = c.model()
                        if m is not None: out["samples"].append(c.concretise(m))
                    except core.Timeout: pass
            break
        except core.NeedFork as e:
            restarts += 1; stats.restarts += 1
            if e.site in demoted or restarts > 200:
                out["status"] = "unsupported"; out["why"] = f"cannot fork at {e}"; break
            if os.environ.get("SX_DEBUG"): print("demote", e, file=sys.stderr)
            demoted.add(e.site)
        except core.Unsupported as e:
            out["status"] = "unsupported"; out["why"] = str(e)
            if os.environ.get("SX_DEBUG"): traceback.print_exc()
            break
        except core.Inconclusive as e:
            out["status"] = "inconclusive"; out["why"] = str(e); break
        except core.Timeout:
            out["status"] = "timeout"; out["why"] = "deadline"; break
    core.CTX = None
    out["stats"] = stats.as_dict(); out["wall"] = time.time() - t0; out["reach"] = sorted(out["reach"])
    out["demoted"] = len(demoted)
    return out

# ------------------------------------------------------------------ replay on the unmodified code
class Replayer:
    def __init__(self, pid): self.pid = pid; self.p = None
    def start(self):
        env = dict(os.environ); env.setdefault("MPLBACKEND", "Agg")
        self.p = subprocess.Popen([VPY, os.path.join(HERE, "replay.py"), "--serve", self.pid], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
    def ask(self, cfg, inputs, timeout=120):
        if self.p is None or self.p.poll() is not None: self.start()
        self.p.stdin.write(json.dumps({"cfg": cfg, "inputs": inputs}) + "\n"); self.p.stdin.flush()
        import select
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.p.kill(); self.p = None
            return {"ok": None, "msg": "replay timed out"}
        line = self.p.stdout.readline()
        if not line: return {"ok": None, "msg": "replay process died"}
        return json.loads(line)
    def stop(self):
        if self.p is not None:
            try: self.p.stdin.close(); self.p.wait(5)
            except Exception: self.p.kill()

_MOD = None; _DEADLINE = None; _RP = None; _VAL = 1
def _work(job):
    idx, cfg = job
    global _RP
    from symx import load
    load._seen.clear() if False else None
    load.start_coverage()
    share = cfg.get("budget")
    dl = min(_DEADLINE, time.time() + share) if share else _DEADLINE
    eager_only = cfg.get("eager", False)
    try:
        r = explore(_MOD, cfg, dl, eager=eager_only, maxval=_VAL)
        if r["status"] == "unsupported" and not eager_only and time.time() < _DEADLINE:
            r2 = explore(_MOD, cfg, dl, eager=True, maxval=_VAL)
            if r2["status"] in ("ok", "violation") or r["status"] == "unsupported":
                r2["fallback"] = r["why"]; r = r2
        # replay
        if r["status"] == "violation":
            if _RP is None: _RP = Replayer(_MOD.__name__.split(".")[-1])
            a = _RP.ask(cfg, r["violation"]["inputs"])
            r["replay"] = a
            if a.get("ok") is not False and not eager_only and "fallback" not in r and time.time() < _DEADLINE:
                r2 = explore(_MOD, cfg, dl, eager=True, maxval=_VAL)
                r2["fallback"] = f"counterexample did not reproduce: {r['violation']['msg']}"
                if r2["status"] == "violation":
                    r2["replay"] = _RP.ask(cfg, r2["violation"]["inputs"])
                r2["nonrepro"] = r["violation"]
                r = r2
        r["validated"] = 0; r["mismatch"] = None
        if r["status"] in ("ok", "timeout"):
            for s in r["samples"]:
                if _RP is None: _RP = Replayer(_MOD.__name__.split(".")[-1])
                a = _RP.ask(cfg, s)
                if a.get("ok") is True: r["validated"] += 1
                elif a.get("ok") is False: r["mismatch"] = {"inputs": s, "msg": a["msg"]}; break
                else: r["replay_error"] = a.get("msg")
    except BaseException as e:
        r = {"cfg": cfg, "status": "error", "why": "".join(traceback.format_exception(e))[-3000:], "stats": core.Stats().as_dict(), "wall": 0, "samples": [], "reach": [], "validated": 0}
    r["covered"] = load.covered(); r["idx"] = idx
    return r

def _serve(conn):
    while True:
        try: job = conn.recv()
        except EOFError: break
        if job is None: break
        conn.send(_work(job))
    if _RP is not None: _RP.stop()
    conn.close(); os._exit(0)
def pool_map(nproc, jobs):
    """run the jobs in forked workers; a worker that dies (or does not answer long after the
    deadline) costs only its own job"""
    from multiprocessing.connection import wait
    cx = mp.get_context("fork"); res = []; todo = list(jobs)[::-1]; ws = {}
    def spawn():
        a, b = cx.Pipe(); p = cx.Process(target=_child, args=(b, a, list(ws)), daemon=True); p.start(); b.close(); ws[a] = [p, None]; return a
    def give(a):
        if todo: ws[a][1] = todo.pop(); a.send(ws[a][1])
        else:
            try: a.send(None)
            except OSError: pass
            ws.pop(a)
    def dead(a, why):
        p, job = ws.pop(a); p.join(1)
        if p.is_alive(): p.kill()
        if job is not None: res.append({"cfg": job[1], "idx": job[0], "status": "inconclusive", "why": f"{why} (exit {p.exitcode})", "stats": core.Stats().as_dict(), "wall": 0, "samples": [], "reach": [], "validated": 0, "covered": [], "violation": None})
        if todo: give(spawn())
    for _ in range(nproc): give(spawn())
    while ws:
        for a in wait(list(ws), 5):
            try: r = a.recv()
            except (EOFError, OSError): dead(a, "the worker process died"); continue
            ws[a][1] = None; res.append(r); give(a)
        if time.time() > _DEADLINE + 60:
            for a in list(ws): ws[a][0].kill(); todo.clear(); dead(a, "no answer by the deadline")
    return res
def _child(conn, parent_end, others):
    parent_end.close()
    for o in others:
        try: o.close()
        except OSError: pass
    _serve(conn)

def known_findings(pid):
    out = {}
    f = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known: property=" + pid + " "):
                rest = l.split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                out[key] = text
    return out

def main(pid, tier):
    t0 = time.time()
    global _MOD, _DEADLINE, _VAL
    seed = int(os.environ.get("VERIF_SEED", "1"))
    random.seed(seed)
    mod = importlib.import_module("checks." + pid)
    _MOD = mod
    from symx import load
    budget = getattr(mod, "BUDGET", {}).get(tier, 90 if tier == "quick" else 700)
    loaderr = None
    try:
        load.load(merge=getattr(mod, "MERGE", False))
    except Exception as e:
        loaderr = e
    if loaderr is not None:
        print(f"error: the package does not import: {loaderr!r}"); return 2
    _DEADLINE = time.time() + budget
    _VAL = getattr(mod, "VALIDATE", {}).get(tier, 1)
    cfgs = mod.configs(tier)
    known = known_findings(pid)
    jobs = list(enumerate(cfgs))
    if getattr(mod, "SHUFFLE", False): random.Random(seed).shuffle(jobs)
    jobs.sort(key=lambda j: -j[1].get("weight", 0))
    nproc = int(os.environ.get("SX_PROCS", "0")) or min(8, os.cpu_count() or 1, max(1, len(jobs)))
    results = []
    os.makedirs(os.path.join(os.environ.get("VERIF_SCRATCH", HERE), "evidence"), exist_ok=True)
    if nproc == 1: 
        for j in jobs: results.append(_work(j))
    else:
        results = pool_map(nproc, jobs)
    results.sort(key=lambda r: r["idx"])
    agg = {}
    if os.environ.get("SX_SLOW"):
        for r in sorted(results, key=lambda r: -r["wall"])[:12]: print("slow", r["cfg"].get("name"), round(r["wall"], 1), r["stats"].get("paths"))
    for r in results:
        for k, v in r["stats"].items(): agg[k] = agg.get(k, 0) + v
    covered = sorted(set(x for r in results for x in r.get("covered", [])))
    bad = []; kf = set(); errors = []; incon = []
    for r in results:
        name = r["cfg"].get("name", str(r["idx"]))
        key = r["cfg"].get("known")
        st = r["status"]
        if st == "error": errors.append((name, r["why"]))
        elif st in ("unsupported", "inconclusive", "timeout"): incon.append((name, st + ": " + str(r["why"])))
        v = None
        if st == "violation":
            a = r.get("replay", {})
            if a.get("ok") is False: v = {"inputs": r["violation"]["inputs"], "msg": r["violation"]["msg"], "concrete": a["msg"]}
            else: incon.append((name, f"counterexample does not reproduce on the real code: {r['violation']} replay={a}"))
        elif r.get("mismatch"):
            v = {"inputs": r["mismatch"]["inputs"], "msg": "witness of a path considered fine fails on the real code", "concrete": r["mismatch"]["msg"]}
        if r.get("nonrepro") and st == "ok": incon.append((name, "symbolic counterexample did not reproduce; decided by the eager exploration instead: " + r["nonrepro"]["msg"]))
        if v is not None:
            if key and key in known: kf.add((key, known[key]))
            else: bad.append((name, r["cfg"], v))
    base = os.environ.get("VERIF_SCRATCH", HERE); rdir = os.path.join(base, "replays"); os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"): os.unlink(os.path.join(rdir, f))
    lines = []
    for k, (name, cfg, v) in enumerate(bad[:5]):
        path = os.path.join(rdir, f"{pid}-{k}.json")
        with open(path, "w") as fh: json.dump({"property": pid, "cfg": cfg, **v}, fh, indent=1)
        lines.append(f"VIOLATION property={pid} replay={path}")
        print(f"violation in {name}: {v['msg']}\n  inputs {json.dumps(v['inputs'])[:600]}\n  on the real code: {v['concrete'][:600]}")
    ok = [r for r in results if r["status"] == "ok"]
    nontriv = [r for r in ok if r["reach"]]
    cov = {
        "states": agg.get("paths", 0), "transitions": agg.get("branches", 0) + agg.get("paths", 0),
        "traces_validated_against_impl": sum(r.get("validated", 0) for r in results),
        "samples": [{"config": r["cfg"].get("name"), "path_witness": r["samples"][0]} for r in results if r.get("samples")][:6],
        "configurations": len(cfgs), "configurations_decided": len(ok), "configurations_reaching_assertions": len(nontriv),
        "queries_discharged": agg.get("queries", 0), "queries_unsat": agg.get("unsat", 0), "queries_sat": agg.get("sat", 0), "queries_unknown": agg.get("unknown", 0),
        "assertions_checked": agg.get("checks", 0), "solver_seconds": round(agg.get("solver_s", 0), 3),
        "merged_branches": agg.get("merges", 0), "restarts_to_fork_a_branch": agg.get("restarts", 0), "infeasible_paths": agg.get("infeasible", 0),
        "functions_encoded": covered, "bounds": getattr(mod, "BOUNDS", {}).get(tier, getattr(mod, "BOUNDS", "")) if isinstance(getattr(mod, "BOUNDS", ""), dict) else mod.BOUNDS,
        "assertions": sorted(set(x for r in results for x in r["reach"])),
        "not_decided": [{"config": n, "why": w[:300]} for n, w in incon + errors][:20],
        "decided_after_falling_back_to_early_forking": sum(1 for r in ok if r.get("fallback")),
        "explanation": "states = completed symbolic paths; transitions = branch decisions; each assertion is one z3 query over all values of its path",
        "known_findings": sorted(k for k, _ in kf),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"), "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + ["floating-point numbers are treated as exact reals"] * (getattr(mod, "MODE", "bits") == "poly"),
          "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    with open(os.path.join(os.environ.get("VERIF_SCRATCH", HERE), "evidence", pid + ".json"), "w") as fh: json.dump(ev, fh, indent=1, default=str)
    for k, text in sorted(kf): print(f"KNOWN-FINDING: property={pid} {k} {text}")
    for l in lines: print(l)
    print(f"{pid} {tier}: {len(ok)}/{len(cfgs)} configurations decided, {agg.get('paths',0)} paths, {agg.get('queries',0)} queries, {agg.get('checks',0)} assertions, validated {cov['traces_validated_against_impl']}, {time.time()-t0:.1f}s")
    for n, w in incon[:5]: print(f"  not decided: {n}: {w[:300]}")
    if bad: return 1
    for n, w in errors[:3]: print(f"error in {n}: {w}")
    if not nontriv:
        print("error: no configuration reached its assertions"); return 2
    return 0
