"""Finite differences are exact where the scheme is exact."""
import itertools, math
import numpy as np
from checks import common as cm
MODE = "poly"
BOUNDS = {"quick": "all quadratics in up to 3 variables with symbolic coefficients, all points, all non-zero real steps and the default step, the three schemes and the default scheme, direct calls and every documented method name", "thorough": "up to 5 variables"}
ASSUMPTIONS = ["step != 0", "default step: coefficients and point bounded by 1, equality up to 1e-9", "exact real arithmetic (rounding of the difference quotients is outside the claim)"]
NAMES = ["finite-differences", "fd", "finitedifferences"]
def configs(tier):
    T = tier == "thorough"; out = []
    for d in range(1, (5 if T else 3) + 1):
        for n in ["direct"] + (NAMES if d <= 2 else NAMES[:1]):
            for w in ("gradient", "hessian"):
                for ty in ("central", "forward", "backward", None):
                    for h in ("sym", None): out.append({"name": f"{w} d={d} {n} {ty} step={h}", "what": w, "d": d, "via": n, "type": ty, "h_": h, "weight": d})
    for w in ("gradient", "hessian"):
        for n in ("direct", "fd"):
            for ty in ("centre", "", "CENTRAL", "fwd", "back"): out.append({"name": f"{w} {n} unknown scheme {ty!r}", "h": "unknown", "what": w, "via": n, "type": ty})
        for n in ("finite_differences", "FD", "", "finite-difference "): out.append({"name": f"{w} unknown method {n!r}", "h": "unknown", "what": w, "via": n, "type": "central"})
    return out
def _call(cfg, f, x, kw):
    from mentpy import gradients as G; from mentpy.gradients import _finite_difference as F
    w, n = cfg["what"], cfg["via"]
    if n == "direct": return (F.fd_gradient if w == "gradient" else F.fd_hessian)(f, x, **kw)
    return (G.get_gradient if w == "gradient" else G.get_hessian)(f, x, method=n, **kw)
def _poly2(k, b, A, x):
    d = len(b); t = k
    for i in range(d):
        t = t + b[i] * x[i]
        for j in range(i, d): t = t + A[i][j] * x[i] * x[j]
    return t
def _grad(b, A, x):
    d = len(b); g = []
    for i in range(d):
        t = b[i]
        for j in range(d): t = t + (2 * A[i][i] * x[i] if i == j else A[min(i, j)][max(i, j)] * x[j])
        g.append(t)
    return g
def _hess(A, d): return [[2 * A[i][i] if i == j else A[min(i, j)][max(i, j)] for j in range(d)] for i in range(d)]
def _want(cfg, b, A, x, h):
    if cfg["what"] == "hessian": return _hess(A, len(b))
    g = _grad(b, A, x)
    s = {"forward": 1, "backward": -1}.get(cfg["type"], 0)
    return [v + s * h * A[i][i] for i, v in enumerate(g)] if s else g
def run(c, cfg):
    from symx import poly, load, arr, core
    load.load(); d = cfg["d"]
    x = [poly.real(f"x{i}") for i in range(d)]; b = [poly.real(f"b{i}") for i in range(d)]; k = poly.real("k")
    A = [[poly.real(f"a{i}{j}") if j >= i else 0 for j in range(d)] for i in range(d)]
    kw = {} if cfg["type"] is None else {"type": cfg["type"]}
    h = 1e-5
    if cfg["h_"] == "sym": h = poly.real("h"); c.inp("h", h); c.assume(core.mk_not(h == 0)); kw["h"] = h
    c.inp("x", x); c.inp("k", k); c.inp("b", b); c.inp("A", [[A[i][j] for j in range(d)] for i in range(d)])
    X = arr.mk(np.array(x, dtype=object), "f")
    def cost(y):
        y = list(arr.raw(y).ravel()); c.check(len(y) == d, "cost is called on points of the right dimension")
        return _poly2(k, b, A, y)
    got = _call(cfg, cost, X, kw)
    W = np.array(_want(cfg, b, A, x, h), dtype=object)
    if cfg["h_"] is None: poly.check_close(c, arr.raw(got), W, 1e-9, "difference quotient with the default step has the exact value")
    else: poly.check_eq(c, arr.raw(got), W, "difference quotient has the exact value")
    poly.check_eq(c, arr.raw(X), np.array(x, dtype=object), "evaluation point unchanged")
def replay(inp, cfg):
    d = cfg["d"]; x = np.array([float(v) for v in inp["x"]]); x0 = x.copy(); b = [float(v) for v in inp["b"]]; A = [[float(v) for v in r] for r in inp["A"]]; k = float(inp["k"])
    kw = {} if cfg["type"] is None else {"type": cfg["type"]}
    h = 1e-5
    if cfg["h_"] == "sym": h = kw["h"] = float(inp["h"])
    if abs(h) < 1e-6: return None
    got = np.asarray(_call(cfg, lambda y: _poly2(k, b, A, list(y)), x, kw)); want = np.array(_want(cfg, b, A, x0, h))
    sc = 1 + abs(k) + np.abs(b).max() + np.abs(np.array(A)).max() * (1 + np.abs(x0).max()) ** 2 + np.abs(np.array(b)).max() * np.abs(x0).max()
    tol = 1e-13 * sc / min(1, h * h) + 1e-7 * sc if cfg["what"] == "hessian" else 1e-13 * sc / min(1, abs(h)) + 1e-7 * sc
    if got.shape != want.shape: return f"shape {got.shape}"
    if cfg["h_"] is None and cfg["what"] == "hessian": tol = 1e-4 * sc
    if not np.all(np.abs(got - want) <= tol): return f"{cfg['what']} ({cfg['type']}) at {x0.tolist()} with step {h} is {got.tolist()} instead of {want.tolist()}"
    if not np.array_equal(x, x0): return "the evaluation point was changed"
def _unk(cfg):
    try: _call(cfg, lambda x: 0.0, np.array([0.5]), {"type": cfg["type"]})
    except Exception: return None
    return f"{cfg['type']!r} of method {cfg['via']!r} accepted"
def run_unknown(c, cfg):
    from symx import load
    load.load(); m = _unk(cfg); c.check(m is None, "unknown scheme or method rejected")
def replay_unknown(inp, cfg): return _unk(cfg)
