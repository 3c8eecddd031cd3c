"""Parameter-shift derivatives are exact on trigonometric polynomials of frequency one."""
import itertools, math
import numpy as np
from checks import common as cm
MODE = "poly"
BOUNDS = {"quick": "cost functions of up to 3 parameters (gradient) and 2 parameters (Hessian, also 3) with one symbolic coefficient per product of 1, cos, sin of the parameters; all real points; all shifts with non-zero sine; the default shift; all documented method names",
          "thorough": "up to 4 parameters for the gradient and the Hessian"}
ASSUMPTIONS = ["sin(shift) != 0", "for the default shift: coefficients bounded by 1 and equality up to 1e-9 (the divisor is a rounded number)"]
NAMES = ["parameter-shift", "psr", "parametershift", None]
def configs(tier):
    T = tier == "thorough"; out = []
    for d in range(1, (4 if T else 3) + 1):
        for n in ["direct"] + (NAMES if d < 3 or T else [None]):
            for w in ("gradient", "hessian"):
                out.append({"name": f"{w} d={d} {n} symbolic shift", "what": w, "d": d, "via": n, "shift": "sym", "weight": 3 ** d})
        for n in ("direct", None):
            for w in ("gradient", "hessian"): out.append({"name": f"{w} d={d} {n} default shift", "what": w, "d": d, "via": n, "shift": None, "weight": 3 ** d})
    for w in ("gradient", "hessian"):
        for n in ("psr ", "parameter_shift", "", "PSR", "shift"): out.append({"name": f"{w} unknown {n!r}", "h": "unknown", "what": w, "via": n})
    return out
def _basis(d): return list(itertools.product((0, 1, 2), repeat=d))
def _call(G, P, cfg, f, x, kw):
    w, n = cfg["what"], cfg["via"]
    if n == "direct": return (P.psr_gradient if w == "gradient" else P.psr_hessian)(f, x, **kw)
    g = G.get_gradient if w == "gradient" else G.get_hessian
    return g(f, x, **kw) if n is None else g(f, x, method=n, **kw)
def _true(co, trig, d, which):
    "derivative of sum co[b] prod basis_b(x_k) with respect to the indices in `which` (a list)"
    acc = 0
    for b, k in co.items():
        t = k
        for i in range(d):
            c, s = trig[i]; n = which.count(i)
            # derivatives of (1, cos, sin)
            v = {0: [1, c, s], 1: [0, -s, c], 2: [0, -c, -s]}[n][b[i]]
            t = t * v
        acc = acc + t
    return acc
def run(c, cfg):
    from symx import poly, load, arr, core
    mp = load.load(); from mentpy import gradients as G; from mentpy.gradients import _parameter_shift as P
    d = cfg["d"]
    th = [poly.angle(f"x{i}") for i in range(d)]
    co = {b: poly.real("k" + "".join(map(str, b))) for b in _basis(d)}
    c.inp("x", th); c.inp("k", [co[b] for b in _basis(d)])
    kw = {}
    if cfg["shift"] == "sym":
        s = poly.angle("shift"); c.inp("shift", s); kw["shift"] = s
        c.assume(core.mk_not(s.sin() == 0))
    def trig(v):
        "cos and sin of a linear form plus a rational number"
        v = poly.lift(v); k = v.n[0].get(0)
        if k is None: return v.cos(), v.sin()
        k = complex(poly.cfloat(k)).real / v.n[1]; u = v - k
        a, b = u.cos(), u.sin(); p, q = math.cos(k), math.sin(k)
        return a * p - b * q, a * q + b * p
    def cost(x):
        ts = [trig(v) for v in arr.raw(x).ravel()]
        c.check(len(ts) == d, "cost is called on points of the right dimension")
        return _true(co, ts, d, [])
    x = arr.mk(np.array(th, dtype=object), "f")
    got = _call(G, P, cfg, cost, x, kw)
    tt = [(t.cos(), t.sin()) for t in th]
    want = np.array([_true(co, tt, d, [i]) for i in range(d)], dtype=object) if cfg["what"] == "gradient" else np.array([[_true(co, tt, d, [i, j]) for j in range(d)] for i in range(d)], dtype=object)
    if cfg["shift"] == "sym": poly.check_eq(c, arr.raw(got), want, "equals the true derivative")
    else: poly.check_close(c, arr.raw(got), want, 1e-9, "equals the true derivative (default shift)")
    poly.check_eq(c, arr.raw(x), np.array(th, dtype=object), "evaluation point unchanged")
def replay(inp, cfg):
    import warnings
    from mentpy import gradients as G; from mentpy.gradients import _parameter_shift as P
    d = cfg["d"]; co = dict(zip(_basis(d), [float(k) for k in inp["k"]])); x = np.array([float(v) for v in inp["x"]]); x0 = x.copy()
    kw = {"shift": float(inp["shift"])} if cfg["shift"] == "sym" else {}
    if kw and abs(math.sin(kw["shift"])) < 1e-6: return None
    cost = lambda y: _true(co, [(math.cos(v), math.sin(v)) for v in y], d, [])
    got = np.asarray(_call(G, P, cfg, cost, x, kw))
    tt = [(math.cos(v), math.sin(v)) for v in x0]
    want = np.array([_true(co, tt, d, [i]) for i in range(d)]) if cfg["what"] == "gradient" else np.array([[_true(co, tt, d, [i, j]) for j in range(d)] for i in range(d)])
    if got.shape != want.shape: return f"shape {got.shape}"
    if not np.allclose(got, want, atol=1e-6, rtol=1e-6): return f"{cfg['what']} at {x0.tolist()} with shift {kw or 'default'} is {got.tolist()}, true value {want.tolist()}"
    if not np.array_equal(x, x0): return "the evaluation point was changed"
def _unk(cfg, cost):
    from mentpy import gradients as G
    g = G.get_gradient if cfg["what"] == "gradient" else G.get_hessian
    try: g(cost, np.array([0.5]), method=cfg["via"])
    except Exception: return None
    return f"unknown method {cfg['via']!r} accepted"
def run_unknown(c, cfg):
    from symx import load
    load.load(); m = _unk(cfg, lambda x: 0.0); c.check(m is None, "unknown method rejected")
def replay_unknown(inp, cfg): return _unk(cfg, lambda x: 0.0)
