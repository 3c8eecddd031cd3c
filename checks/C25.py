"""Optimizers: update rules, equality of both drivers, callbacks, reset."""
import math, random, contextlib, io
import numpy as np
from checks import common as cm
MODE = "poly"
BOUNDS = {"quick": "up to 3 iterations in 1 and 2 dimensions (Adam: 2 iterations, 3 for fixed rational hyper-parameters), arbitrary cost function (uninterpreted), arbitrary starting point, symbolic hyper-parameters, every sequence of random coordinates; gradient by parameter shift and by finite differences", "thorough": "up to 4 iterations, 3 dimensions (Adam: 2 iterations; a third one is beyond the reach of the exact arithmetic)"}
ASSUMPTIONS = ["0 < b1, b2 < 1 and eps > 0 (Adam)", "exact real arithmetic"]
BUDGET = {"quick": 300, "thorough": 850}
def configs(tier):
    T = tier == "thorough"; out = []
    def add(kind, d, n, **k): out.append({"name": f"{kind} d={d} n={n} {k}", "kind": kind, "d": d, "n": n, "weight": d * n, **k})
    for gm in ({}, {"method": "fd"}, {"method": "fd", "type": "forward"}):
        for d in (1, 2, 3) if T else (1, 2):
            for n in range(0, 5 if T else 4):
                for nest in (False, True): add("sgd", d, n, nesterov=nest, grad=gm)
                if n <= 2 and (T or d == 1 or n == 1 or not gm): add("adam", d, n, grad=gm)
    add("adam", 1, 3, grad={}, fix={"b1": 0.5, "b2": 0.75, "step": 0.25, "eps": 0.125})
    for d in (1, 2, 3) if T else (1, 2):
        for n in range(0, 5 if T else 4):
            if d ** n > 81: continue
            for ad in (False, True): add("rcd", d, n, adaptive=ad, grad={})
    for kind in ("sgd", "adam", "rcd"): out.append({"name": f"{kind} defaults", "h": "defaults", "kind": kind})
    return out
class Cost:
    "uninterpreted cost: equal points (as rational functions) get equal values"
    def __init__(self, poly, arr): self.poly, self.arr, self.tab = poly, arr, []
    def __call__(self, x):
        p = self.poly; key = [p.lift(e) for e in self.arr.raw(x).ravel()]
        for k, v in self.tab:
            if all(self.same(a, b) for a, b in zip(k, key)): return v
        v = p.real(f"f{len(self.tab)}"); self.tab.append((key, v)); return v
    def same(self, a, b):
        p = self.poly
        if a.q is None and b.q is None: return a.n == b.n
        return p.pmul(a.n, b.q or p.ONE) == p.pmul(b.n, a.q or p.ONE)
@contextlib.contextmanager
def coords(seq):
    "random coordinates come from the given sequence"
    it = {"k": 0}
    def nxt(n):
        v = seq(it["k"]) % n; it["k"] += 1; return v
    sv = {m: getattr(random, m) for m in ("randint", "randrange", "choice")}; nv = {m: getattr(np.random, m) for m in ("randint", "choice")}
    random.randint = lambda a, b: a + nxt(b - a + 1)
    random.randrange = lambda a, b=None: nxt(a) if b is None else a + nxt(b - a)
    random.choice = lambda s: list(s)[nxt(len(s))]
    np.random.randint = lambda a, b=None, *r, **k: nxt(a) if b is None else a + nxt(b - a)
    np.random.choice = lambda s, *r, **k: nxt(s) if isinstance(s, int) else list(s)[nxt(len(s))]
    try: yield
    finally:
        for m, f in sv.items(): setattr(random, m, f)
        for m, f in nv.items(): setattr(np.random, m, f)
def make(O, cfg, hp):
    k = cfg["kind"]
    if k == "sgd": return O.SGDOptimizer(step_size=hp["step"], momentum=hp["mom"], nesterov=cfg["nesterov"])
    if k == "adam": return O.AdamOptimizer(step_size=hp["step"], b1=hp["b1"], b2=hp["b2"], eps=hp["eps"])
    return O.RCDOptimizer(step_size=hp["step"], adaptive=cfg["adaptive"])
def reference(cfg, hp, f, x0, grad, sq, seq, vec):
    "iterates and squared gradient norms of the textbook method"
    d, n = cfg["d"], cfg["n"]; x = list(x0); X, N = [], []
    m = [0] * d; v = [0] * d
    for i in range(n):
        if cfg["kind"] == "rcd":
            k = seq(i); h = 1e-5
            pt = lambda s: vec([e + (s * h if j == k else 0) for j, e in enumerate(x)])
            g = (f(pt(1)) - f(pt(-1))) / (2 * h)
            st = hp["step"] / math.sqrt(i + 1) if cfg["adaptive"] else hp["step"]
            x = [e - st * g if j == k else e for j, e in enumerate(x)]; N.append(g * g)
        else:
            g = list(grad(f, vec(x)))
            t = 0
            for e in g: t = t + e * e
            N.append(t)
            if cfg["kind"] == "sgd":
                v = [hp["mom"] * a - hp["step"] * b for a, b in zip(v, g)]
                x = [e + (hp["mom"] * a - hp["step"] * b if cfg["nesterov"] else a) for e, a, b in zip(x, v, g)]
            else:
                b1, b2 = hp["b1"], hp["b2"]
                m = [b1 * a + (1 - b1) * b for a, b in zip(m, g)]; v = [b2 * a + (1 - b2) * b * b for a, b in zip(v, g)]
                mh = [a / (1 - b1 ** (i + 1)) for a in m]; vh = [a / (1 - b2 ** (i + 1)) for a in v]
                x = [e - hp["step"] * a / (sq(b) + hp["eps"]) for e, a, b in zip(x, mh, vh)]
        X.append(x)
    return X, N
def run(c, cfg):
    from symx import poly, load, arr, core
    load.load(); from mentpy import optimizers as O; from mentpy.gradients import get_gradient
    d, n = cfg["d"], cfg["n"]
    hp = {k: poly.real(k) for k in {"sgd": ("step", "mom"), "adam": ("step", "b1", "b2", "eps"), "rcd": ("step",)}[cfg["kind"]]}
    hp.update(cfg.get("fix", {}))
    if cfg["kind"] == "adam" and "fix" not in cfg:
        for k in ("b1", "b2"): c.assume(hp[k] > 0); c.assume(hp[k] < 1)
        c.assume(hp["eps"] > 0)
    x0 = [poly.real(f"x{i}") for i in range(d)]
    c.inp("hp", dict(hp)); c.inp("x0", x0)
    ks = [c.choose(f"k{i}", list(range(d))) for i in range(n)] if cfg["kind"] == "rcd" else []
    c.inp("ks", ks); seq = lambda i: ks[i]
    f = Cost(poly, arr); vec = lambda x: arr.mk(np.array(list(x), dtype=object), "f")
    grad = lambda f_, x: arr.raw(get_gradient(f_, x, **cfg["grad"])).ravel()
    X, N = reference(cfg, hp, f, x0, grad, lambda y: poly.lift(y).sqrt(), seq, vec)
    want = X[-1] if n else x0
    eq = lambda a, b, msg: poly.check_eq(c, arr.raw(a).ravel(), np.array(list(b), dtype=object), msg)
    opt = make(O, cfg, hp)
    def drive(o, what, norm):
        log = []; st = vec(x0)
        with coords(seq), contextlib.redirect_stdout(io.StringIO()):
            r = (o.optimize_and_gradient_norm if norm else o.optimize)(f, st, num_iters=n, callback=lambda x, i: log.append((i, list(arr.raw(x).ravel()))), **cfg["grad"])
        eq(st, x0, what + ": starting point unchanged")
        x = r[0] if norm else r
        eq(x, want, what + ": result follows the update rule")
        c.check([i for i, _ in log] == list(range(n)), what + ": callback sees every iterate once in order")
        for (i, y), z in zip(log, X): poly.check_eq(c, np.array(y, dtype=object), np.array(z, dtype=object), what + ": iterates follow the update rule")
        if norm:
            ns = list(arr.raw(r[1]).ravel()) if n else []
            c.check(len(r[1]) == n, what + ": one norm per iteration")
            for a, b in zip(ns, N):
                poly.check_eq(c, [poly.lift(a) * a], [b], what + ": norm of the gradient used")
                c.check(poly.lift(a) >= 0, what + ": norms are not negative")
    drive(opt, "optimize", False)
    opt.reset(); drive(opt, "optimize after reset", False)
    opt.reset(); drive(opt, "norm driver after reset", True)
    opt = make(O, cfg, hp); drive(opt, "norm driver", True)
    opt.reset(); drive(opt, "optimize after the norm driver and reset", False)
    # stepping by hand
    opt = make(O, cfg, hp); x = vec(x0)
    with coords(seq):
        for i in range(n):
            y = list(arr.raw(x).ravel()); nx_ = opt.step(f, x, i, **cfg["grad"])
            eq(x, y, "step does not modify its argument"); x = nx_
            eq(x, X[i], "step follows the update rule")
def _close(a, b): return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-7, atol=1e-9)
def replay(inp, cfg):
    from mentpy import optimizers as O; from mentpy.gradients import get_gradient
    d, n = cfg["d"], cfg["n"]; seq = lambda i: int(inp["ks"][i])
    fs = [lambda x: float(np.sum(np.sin(1.3 * np.asarray(x) + np.arange(d)) + 0.2 * np.asarray(x) ** 2) + 0.3 * np.prod(x)), lambda x: float(np.sum(np.cos(0.7 * np.asarray(x)) * (1 + np.arange(d))))]
    hps = [{k: float(v) for k, v in inp["hp"].items()}, {"step": 0.15, "mom": 0.8, "b1": 0.7, "b2": 0.9, "eps": 1e-3}]
    for f in fs:
        for hp in hps:
            for x0 in ([float(v) for v in inp["x0"]], [0.4 + 0.3 * i for i in range(d)]):
                m = _rep(O, get_gradient, f, hp, x0, cfg, seq)
                if m: return m + f" (hyper-parameters {hp}, start {x0})"
def _rep(O, gg, f, hp, x0, cfg, seq):
    n = cfg["n"]
    X, N = reference(cfg, hp, f, x0, lambda f_, x: gg(f_, x, **cfg["grad"]), math.sqrt, seq, np.array)
    if not np.all(np.isfinite(np.array(X, float))): return None
    want = X[-1] if n else x0
    def drive(o, what, norm):
        log = []; st = np.array(x0)
        with coords(seq), contextlib.redirect_stdout(io.StringIO()):
            r = (o.optimize_and_gradient_norm if norm else o.optimize)(f, st, num_iters=n, callback=lambda x, i: log.append((i, np.array(x))), **cfg["grad"])
        if not np.array_equal(st, x0): return what + " changed the starting point"
        x = r[0] if norm else r
        if not _close(x, want): return f"{what} returns {np.asarray(x).tolist()} instead of {np.asarray(want).tolist()}"
        if [i for i, _ in log] != list(range(n)): return f"{what}: callbacks {[i for i, _ in log]}"
        for (i, y), z in zip(log, X):
            if not _close(y, z): return f"{what}: iterate {i} is {y.tolist()} instead of {z}"
        if norm and (len(r[1]) != n or (n and not _close(r[1], np.sqrt(N)))): return f"{what}: norms {list(r[1])} instead of {np.sqrt(N).tolist()}"
    opt = make(O, cfg, hp)
    m = drive(opt, "optimize", False)
    if m: return m
    opt.reset(); m = drive(opt, "optimize after reset", False)
    if m: return m
    opt.reset(); m = drive(opt, "norm driver after reset", True)
    if m: return m
    opt = make(O, cfg, hp); m = drive(opt, "norm driver", True)
    if m: return m
    opt.reset(); m = drive(opt, "optimize after the norm driver and reset", False)
    if m: return m
    opt = make(O, cfg, hp); x = np.array(x0)
    with coords(seq):
        for i in range(n):
            y = x.copy(); z = opt.step(f, x, i, **cfg["grad"])
            if not np.array_equal(x, y): return "step modifies its argument"
            x = z
            if not _close(x, X[i]): return f"step {i} gives {np.asarray(x).tolist()} instead of {X[i]}"
def _def(O, kind):
    o = {"sgd": O.SGDOptimizer, "adam": O.AdamOptimizer, "rcd": O.RCDOptimizer}[kind]()
    doc = {"sgd": {"step_size": 0.1, "momentum": 0.0, "nesterov": False}, "adam": {"step_size": 0.1, "b1": 0.9, "b2": 0.999, "eps": 1e-8}, "rcd": {"step_size": 0.1, "adaptive": False}}[kind]
    for k, v in doc.items():
        if hasattr(o, k) and getattr(o, k) != v: return f"default {k} is {getattr(o, k)} instead of {v}"
def run_defaults(c, cfg):
    from symx import load
    load.load(); from mentpy import optimizers as O
    m = _def(O, cfg["kind"]); c.check(m is None, "documented default hyper-parameters")
def replay_defaults(inp, cfg):
    from mentpy import optimizers as O
    return _def(O, cfg["kind"])
