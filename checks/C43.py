"""Expressivity estimates: sampled fidelities belong to their own circuit runs, and the estimate is the requested divergence."""
import itertools
import numpy as np
import scipy.special, scipy.spatial.distance
from checks import common as cm, simref as sr
from checks.C30 import Env
MODE = "poly"
BOUNDS = {"quick": "sampling: 1 to 3 samples on five circuits with up to 5 nodes and 2 inputs, every input state, every angle, every outcome sequence of the feed-forward run; estimate: every placement of up to 3 fidelities in [0, 1] into up to 4 bins, 1 and 2 outputs, all three divergences",
          "thorough": "sampling: up to 3 samples on eight circuits with up to 6 nodes; estimate: up to 5 fidelities, up to 6 bins, up to 3 outputs"}
ASSUMPTIONS = ["the Haar generator is replaced by an arbitrary matrix (its distribution is C34) and np.random by arbitrary draws in [0, 1)", "PennyLane applies the recorded operations as documented (counterexamples are replayed with the real PennyLane)", "no fidelity lies within 1e-6 of an interior bin edge", "scipy's kl_div, rel_entr and jensenshannon are what they claim", "how fast the estimate converges is C35"]
BUDGET = {"quick": 240, "thorough": 850}
#         n, edges, I, O, kinds of the measured nodes (XY, fix, X, Y)
CIRC = {"wire2": (2, [[0, 1]], [0], [1], {}), "wire3": (3, [[0, 1], [1, 2]], [0], [2], {}), "wire3 fixed": (3, [[0, 1], [1, 2]], [0], [2], {0: "fix"}),
        "wire4 mixed": (4, [[0, 1], [1, 2], [2, 3]], [0], [3], {1: "Y"}), "two wires": (4, [[0, 1], [2, 3], [0, 2]], [0, 2], [1, 3], {}), "two wires swapped": (4, [[0, 1], [2, 3], [1, 3]], [2, 0], [1, 3], {}),
        "reversed": (4, [[3, 1], [1, 0], [0, 2]], [3], [2], {3: "X"}), "wire5": (5, [[0, 1], [1, 2], [2, 3], [3, 4]], [0], [4], {2: "X", 3: "fix"})}
def configs(tier):
    T = tier == "thorough"; out = []
    for k in list(CIRC)[:8 if T else 6]:
        for m in (1, 2, 3):
            meas = CIRC[k][0] - len(CIRC[k][3])
            if m * meas > (7 if T else 6): continue
            out.append({"name": f"sample {k} samples={m}", "h": "sample", "c": k, "m": m, "weight": 2 ** (m * meas)})
    for m in range(1, 6 if T else 4):
        for b in range(1, 7 if T else 5):
            for n in (1, 2, 3) if T else (1, 2):
                for meth in ("KL", "RE", "JS", None): 
                    if b ** m <= 250: out.append({"name": f"estimate {meth} samples={m} bins={b} outputs={n}", "h": "est", "m": m, "b": b, "n": n, "meth": meth, "weight": b ** m})
    for meth in ("kl", "", "covering"): out.append({"name": f"method {meth!r}", "h": "bad", "meth": meth})
    return out
def _circ(mp, cfg, FIX):
    n, E, I, O, kinds = CIRC[cfg["c"]]
    g = mp.GraphState(); g.add_nodes_from(range(n)); g.add_edges_from([tuple(e) for e in E])
    kinds = {v: kinds.get(v, "XY") for v in range(n) if v not in O}
    ms = {v: mp.Ment("XY") if k == "XY" else mp.Ment(FIX, "XY") if k == "fix" else mp.Ment(k) for v, k in kinds.items()}
    return mp.MBQCircuit(g, input_nodes=list(I), output_nodes=list(O), measurements=ms), n, E, I, O, kinds
def _bras(kinds, tr, ts, f, FIX): return {v: f(k, ts[tr.index(v)] if v in tr else FIX if k == "fix" else None) for v, k in kinds.items()}
class Draws:
    "scripted np.random: one row of angles per draw, or all rows in one draw; a row is t as an angle, t / (2 pi) as a draw from [0, 1)"
    def __init__(self, wrap, ts): self.ts, self.used, self.shapes, self.wrap = ts, 0, [], wrap
    def _draw(self, shape, turns):
        self.shapes.append(tuple(shape)); w = len(self.ts[0])
        if tuple(shape) == (w,) and self.used < len(self.ts): rows = [self.ts[self.used]]
        elif tuple(shape) == (len(self.ts), w) and not self.used: rows = self.ts
        else: raise BadDraw(f"draw of shape {shape} after {self.used} rows of {w} angles")
        self.used += len(rows); r = [self.wrap(t, turns) for t in rows]
        return r[0] if len(shape) == 1 else self.stack(r)
    def stack(self, rows):
        from symx import arr
        a = np.array([[x for x in arr.raw(r)] for r in rows], dtype=object)
        return arr.mk(a, "f") if any(not isinstance(x, float) for x in a.ravel()) else a.astype(float)
    def rand(self, *shape, size=None):
        if size is not None: shape = size if isinstance(size, (tuple, list)) else (size,)
        elif len(shape) == 1 and isinstance(shape[0], (tuple, list)): shape = tuple(shape[0])
        return self._draw(shape, True)
    def uniform(self, low=0.0, high=1.0, size=None):
        shape = size if isinstance(size, (tuple, list)) else (size,)
        if np.isclose(float(high - low), 1.0): return self._draw(shape, True) + low if low else self._draw(shape, True)
        if np.isclose(float(high - low), 2 * np.pi): return self._draw(shape, False)
        raise BadDraw(f"angles are drawn from [{low}, {high})")
class BadDraw(Exception): pass
def run_sample(c, cfg):
    from symx import poly, load, arr, core
    mp = load.load()
    FIX = poly.angle("fix"); c.inp("fix", FIX)
    mc, n, E, I, O, kinds = _circ(mp, cfg, FIX); m = cfg["m"]; tr = [v for v in kinds if kinds[v] == "XY"]
    T = [[poly.angle(f"t{k}_{i}") for i in range(len(tr))] for k in range(m)]; c.inp("T", T)
    P = [poly.amps(f"psi{k}", 2 ** len(I)) for k in range(m)]; c.inp("P", P)
    left = list(P)
    def su(q):
        p = left.pop(0); U = np.zeros((len(p), len(p)), dtype=object)
        for i, x in enumerate(p): U[i, 0] = x
        return arr.mk(U, "c")
    two_pi = 2 * poly.lift(np.pi)
    def wrap(t, turns): return arr.mk(np.array([x / two_pi if turns else x for x in t], dtype=object), "f")
    D = Draws(wrap, T)
    import mentpy.utils.expressivity as ex
    try:
        with Env(su=su, rand=D.rand, uniform=D.uniform): f = ex.sample_probability_density_of_fidelities(mc, m)
    except BadDraw as e: c.check(False, "one angle is drawn for every trainable node", draws=str(e))
    c.check(len(f) == m and D.used == m, "one fidelity per sample", got=len(f))
    order = [v for v in mc.trainable_nodes]
    c.check(sorted(order) == sorted(tr), "trainable nodes")
    for k in range(m):
        v = sr.branch(range(n), E, I, P[k], _bras(kinds, order, T[k], sr.sbra, FIX), O)
        nv = ov = 0
        for a, b in zip(P[k], v): nv = nv + poly.lift(b) * poly.lift(b).conj(); ov = ov + poly.lift(a).conj() * b
        poly.check_eq(c, [poly.lift(f[k]) * nv], [ov * poly.lift(ov).conj() * 0.5 ** len(kinds)], "fidelity of the sampled input with the output of its own run")
def replay_sample(inp, cfg):
    import mentpy as mp
    FIX = float(inp["fix"]); mc, n, E, I, O, kinds = _circ(mp, cfg, FIX); order = list(mc.trainable_nodes)
    bad = None
    for P, T in (([sr.cv(p) for p in inp["P"]], [[float(x) for x in t] for t in inp["T"]]), _generic(cfg["m"], len(I), len(inp["T"][0]))):
        P = [p / np.linalg.norm(p) for p in P]; left = list(P)
        def su(q):
            U = np.zeros((2 ** q, 2 ** q), dtype=complex); U[:, 0] = left.pop(0); return U
        def wrap(t, turns): return np.array(t) / (2 * np.pi if turns else 1)
        D = Draws(wrap, T)
        import mentpy.utils.expressivity as ex
        try:
            with Env(su=su, rand=D.rand, uniform=D.uniform): f = ex.sample_probability_density_of_fidelities(mc, cfg["m"])
        except BadDraw as e: return str(e)
        if len(f) != cfg["m"] or D.used != cfg["m"]: return f"{len(f)} fidelities and draws {D.shapes} for {cfg['m']} samples of {len(order)} angles"
        for k in range(cfg["m"]):
            v = sr.branch(range(n), E, I, P[k], _bras(kinds, order, T[k], sr.cbra, FIX), O); v = np.asarray(v, dtype=complex); v = v / np.linalg.norm(v)
            if not np.allclose(f[k], abs(np.vdot(P[k], v)) ** 2, atol=1e-6): bad = bad or f"fidelity {f[k]} of sample {k} instead of {abs(np.vdot(P[k], v)) ** 2}"
    return bad
def _generic(m, q, t):
    g = np.random.RandomState(3); z = g.normal(size=(m, 2 ** q, 2))
    return list(z[..., 0] + 1j * z[..., 1]), g.uniform(0, 6, (m, t)).tolist()
class Circ:
    def __init__(self, n): self.output_nodes = list(range(n)); self.input_nodes = list(range(n)); self.quantum_output_nodes = self.output_nodes
def _est(ex, cfg, samples):
    calls = []
    def stub(circ, n_samples=1000, *a, **k): calls.append((circ, n_samples)); return list(samples)
    old = ex.sample_probability_density_of_fidelities; ex.sample_probability_density_of_fidelities = stub
    circ = Circ(cfg["n"]); kw = {} if cfg["meth"] is None else {"method": cfg["meth"]}
    try: r = ex.expressivity_with_histogram(circ, n_samples=len(samples), n_bins=cfg["b"], **kw)
    finally: ex.sample_probability_density_of_fidelities = old
    return r, calls == [(circ, len(samples))]
def _want(cfg, counts):
    b = cfg["b"]; N = 2 ** cfg["n"]; mid = (np.arange(b) + 0.5) / b
    p = np.array(counts) / sum(counts); q = (N - 1) * (1 - mid) ** (N - 2) / b
    if cfg["meth"] in ("KL", None): return float(np.sum(scipy.special.kl_div(p, q)))
    if cfg["meth"] == "RE": return float(np.sum(scipy.special.rel_entr(p, q)))
    return float(scipy.spatial.distance.jensenshannon(p, q))
def _close(r, w):
    "scipy's Jensen-Shannon distance of equal distributions is 0 or, by rounding, nan"
    r, w = (0.0 if np.isnan(x) else float(x) for x in (r, w))
    return r == w or bool(np.isclose(r, w, atol=1e-7))
def run_est(c, cfg):
    from symx import poly, load, core
    load.load(); import mentpy.utils.expressivity as ex
    F = [poly.real(f"F{i}") for i in range(cfg["m"])]; c.inp("F", F)
    for x in F:
        c.assume(core.mk_and(x >= 0, x <= 1))
        for i in range(1, cfg["b"]): c.assume(core.mk_or(x * cfg["b"] <= i - 1e-6, x * cfg["b"] >= i + 1e-6))
    r, ok = _est(ex, cfg, F)
    c.check(ok, "the requested number of samples is drawn from the given circuit")
    # the placement of the fidelities on this path, computed independently
    counts = [0] * cfg["b"]
    for x in F:
        i = 0
        while i < cfg["b"] - 1 and bool(x * cfg["b"] >= i + 1): i += 1
        counts[i] += 1
    w = _want(cfg, counts)
    c.check(_close(float(r), w), "the estimate is the divergence of the histogram from Haar", got=float(r), want=w)
def replay_est(inp, cfg):
    import mentpy.utils.expressivity as ex
    F = [min(max(float(x), 0.0), 1.0) for x in inp["F"]]
    r, ok = _est(ex, cfg, F)
    if not ok: return "samples of another circuit or another number of samples"
    counts = [0] * cfg["b"]
    for x in F: counts[min(int(x * cfg["b"]), cfg["b"] - 1)] += 1
    w = _want(cfg, counts)
    if not _close(r, w): return f"estimate {r} instead of {w} for fidelities {F} in {cfg['b']} bins"
def run_bad(c, cfg):
    from symx import load
    load.load(); import mentpy.utils.expressivity as ex
    c.check(_bad(ex, cfg), "an unknown divergence is rejected")
def _bad(ex, cfg):
    try: _est(ex, {**cfg, "n": 1, "b": 2}, [0.5])
    except Exception: return True
    return False
def replay_bad(inp, cfg):
    import mentpy.utils.expressivity as ex
    if not _bad(ex, cfg): return f"method {cfg['meth']!r} is accepted"
