"""Density-matrix simulator with every measurement plane, sampled Z outcomes and outcome-dependent measurements."""
import itertools, warnings
import numpy as np
from checks import common as cm, simref as sr
MODE = "poly"
BOUNDS = {"quick": "circuits with flow on all graphs with 2 and 3 nodes (one representative of every overlap of inputs and outputs with at most 2 inputs) a 4-node wire and two wires with an input controlled by a later node; measured nodes and measured outputs in planes XY, XZ, YZ, X, Y, Z, trainable or fixed, or controlled by another outcome or its negation; all angles, all normalised input states, both results of every Z measurement; sampling and expectation mode",
          "thorough": "every assignment of kinds on 3 nodes, every overlap of inputs and outputs, two 4-node circuits"}
ASSUMPTIONS = ["a sampled outcome has probability at least 0.01", "the random generator draws with the probabilities it is given"]
BUDGET = {"quick": 300, "thorough": 850}
KINDS = ["XZ", "YZf", "Z", "XY", "ctl", "ctl~", "YZ", "X", "ctl Y"]
def configs(tier):
    T = tier == "thorough"; out = []
    def add(n, I, O, mout, kinds, tag="", **k):
        for m in ("sample", "expectation"):
            if m == "expectation" and "Z" not in kinds.values(): continue
            if m == "expectation" and any(x.startswith("ctl") for x in kinds.values()): continue
            out.append({"name": f"n={n} I={I} O={O} measured outputs {mout} {kinds} {m} {tag}", "n": n, "I": I, "O": O, "mout": mout, "kinds": {str(a): b for a, b in kinds.items()}, "mode_": m, "weight": n * n + 4 * len(I), **k})
    for I, O in ([([0], [1]), ([1], [0])]):
        for k in KINDS:
            if k.startswith("ctl"): continue
            add(2, I, O, [], {I[0]: k})
        for a, b in itertools.product(["XY", "XZ", "YZf", "Z"] if T else ["XZ", "Z"], ["Z", "ctl", "ctl~", "YZ"] + (["XZ", "ctl Y", "XY"] if T else [])):
            add(2, I, O, O, {I[0]: a, O[0]: b})
    for I, O in [([0], [2]), ([2], [1])] + ([([0], [0]), ([1], [0])] if T else []):
        meas = [v for v in range(3) if v not in O]
        for a, b in itertools.product(KINDS, repeat=2):
            if a.startswith("ctl") and b.startswith("ctl"): continue
            if not T and (a, b) not in {("XZ", "XY"), ("Z", "XZ"), ("Z", "ctl"), ("ctl", "Z"), ("Z", "ctl~"), ("YZf", "Z"), ("YZ", "X"), ("ctl Y", "Z"), ("Z", "Z"), ("XY", "ctl"), ("XZ", "ctl~")}: continue
            add(3, I, O, [], {meas[0]: a, meas[1]: b})
    for I, O in [([0, 1], [1, 2]), ([0, 1], [2, 0])]:
        for k in (KINDS if T else ["Z", "XZ", "YZf"]):
            m = [v for v in range(3) if v not in O]
            if not k.startswith("ctl"): add(3, I, O, [], {m[0]: k})
        m = [v for v in range(3) if v not in O]
        for k in ("ctl", "ctl~", "Z", "XZ"): add(3, I, O, [O[1]], {m[0]: "Z", O[1]: k})
    add(4, [0], [3], [], {0: "Z", 1: "ctl", 2: "XY"}, "wire", edges=[[0, 1], [1, 2], [2, 3]])
    add(4, [0], [3], [], {0: "XY", 1: "Z", 2: "ctl~"}, "wire", edges=[[0, 1], [1, 2], [2, 3]])
    add(5, [0, 3], [2, 4], [], {0: "X", 1: "Z", 3: "ctl Y"}, "input controlled by a later node", edges=[[0, 1], [1, 2], [3, 4]])
    if T:
        add(5, [0, 3], [2, 4], [], {0: "XY", 1: "Z", 3: "ctl"}, "input controlled by a later node", edges=[[0, 1], [1, 2], [3, 4]])
        add(4, [0], [3], [], {0: "XZ", 1: "Z", 2: "XZ"}, "wire", edges=[[0, 1], [1, 2], [2, 3]])
        add(4, [0, 1], [2, 3], [], {0: "Z", 1: "ctl"}, "two wires", edges=[[0, 2], [1, 3], [0, 1]])
        add(4, [0, 1], [2, 3], [3], {0: "Z", 1: "XZ", 3: "ctl"}, "two wires", edges=[[0, 2], [1, 3], [2, 3]])
    seen = {}; [seen.setdefault(x["name"], x) for x in out]
    return list(seen.values())
def _ctl(cfg):
    K = {int(k): v for k, v in cfg["kinds"].items()}
    return K, next((v for v in K if K[v].startswith("ctl")), None), next((v for v in K if not K[v].startswith("ctl") and (K[v] == "Z")), next((v for v in K if not K[v].startswith("ctl")), None))
def build(mp, g, cfg, A):
    K, cv, src = _ctl(cfg); ms = {}
    for v, k in K.items():
        if v == cv: continue
        ms[v] = mp.Ment(A[v], k[:-1]) if k.endswith("f") else mp.Ment(k)
    for v in range(cfg["n"]):
        if v in cfg["O"] and v not in K: ms[v] = None
    if cv is None: return mp.MBQCircuit(g, input_nodes=list(cfg["I"]), output_nodes=list(cfg["O"]), measurements=ms)
    mc = mp.MBQCircuit(g, input_nodes=list(cfg["I"]), output_nodes=list(cfg["O"]), measurements=ms)
    if mc.flow is None: return mc
    cond = mc[src].outcome
    mc[cv] = {"ctl": lambda: mp.ControlMent(cond, None, "XY", 0, "X"), "ctl~": lambda: mp.ControlMent(~cond, A[cv], "YZ", None, "XZ"),
              "ctl Y": lambda: mp.ControlMent(cond, 0, "Y", 0, "Z")}[K[cv]]()
    return mc
def trainables(cfg):
    K, cv, src = _ctl(cfg)
    return sorted(v for v, k in K.items() if k in ("XY", "XZ", "YZ", "ctl", "ctl~"))
def bloch(kind, a, cs):
    "coefficients of X, Y, Z of the measured observable"
    c, s = cs(a) if a is not None else (1, 0)
    return {"XY": (c, s, 0), "XZ": (c, 0, s), "YZ": (0, c, s), "X": (1, 0, 0), "Y": (0, 1, 0), "Z": (0, 0, 1)}[kind]
def observable(cfg, v, A, out, cs):
    K, cv, src = _ctl(cfg); k = K[v]
    if k == "ctl": return bloch("XY", A[v], cs) if out[src] else bloch("X", None, cs)
    if k == "ctl~": return bloch("XZ", A[v], cs) if out[src] else bloch("YZ", A[v], cs)
    if k == "ctl Y": return bloch("Y", None, cs) if out[src] else bloch("Z", None, cs)
    return bloch(k.rstrip("f"), A[v], cs)
def proj(b, o):
    x, y, z = b; s = -1 if o else 1; h = 0.5
    return [[(1 + s * z) * h, (x - 1j * y) * (s * h)], [(x + 1j * y) * (s * h), (1 - s * z) * h]]
def outmat(cfg, edges, psi, P, Q, conj):
    "tr over everything but Q of the projected state; P: node -> 2x2 or None (traced out)"
    n, I = cfg["n"], cfg["I"]; amp = {}
    for b in itertools.product((0, 1), repeat=n):
        s = sum(b[u] & b[v] for u, v in edges) & 1; t = psi[int("".join(str(b[i]) for i in I) or "0", 2)]
        amp[b] = -t if s else t
    M = [v for v in range(n) if v not in Q]; w = 0.5 ** (n - len(I)); res = []
    for qa in itertools.product((0, 1), repeat=len(Q)):
        row = []
        for qb in itertools.product((0, 1), repeat=len(Q)):
            acc = 0; d = dict(zip(Q, qa)); e = dict(zip(Q, qb))
            for ma in itertools.product((0, 1), repeat=len(M)):
                for mb in itertools.product((0, 1), repeat=len(M)):
                    f = 1; ok = True
                    for v, x, y in zip(M, ma, mb):
                        q = P.get(v)
                        if q is None:
                            if x != y: ok = False; break
                        else:
                            if isinstance(q[y][x], (int, float, complex)) and q[y][x] == 0: ok = False; break
                            f = q[y][x] * f
                    if not ok: continue
                    d.update(zip(M, ma)); e.update(zip(M, mb))
                    acc = acc + f * (amp[tuple(d[v] for v in range(n))] * conj(amp[tuple(e[v] for v in range(n))]))
            row.append(acc * w)
        res.append(row)
    return np.array(res, dtype=object)
def tr(m):
    t = 0
    for k in range(len(m)): t = t + m[k][k]
    return t
class Draws:
    "the random generator: every draw is a scripted choice between options, recorded as (probabilities, option taken); a number from [0, 1) is a choice when it is compared"
    def __init__(self, pick): self.pick = pick; self.p = []; self.r = []
    def take(self, a, p):
        k = self.pick(len(self.p), list(a), p); self.p.append(None if p is None else list(p)); self.r.append(k); return list(a)[k]
    def __enter__(self):
        self.old = {n: getattr(np.random, n) for n in ("choice", "random", "random_sample", "rand", "uniform", "binomial")}
        np.random.choice = lambda a, size=None, replace=True, p=None: self.take(range(a) if isinstance(a, int) else a, p)
        for n in ("random", "random_sample", "rand", "uniform"): setattr(np.random, n, lambda low=0.0, high=1.0, size=None: Unit(self))
        np.random.binomial = lambda n, p, size=None: self.take([0, 1], [1 - p, p])
        return self
    def __exit__(self, *a):
        for n, f in self.old.items(): setattr(np.random, n, f)
class Unit:
    __array_priority__ = 1000; __array_ufunc__ = None
    def __init__(self, d, s=1): self.d, self.s = d, s
    def __lt__(self, x): x = x / self.s; return self.d.take([True, False], [x, 1 - x])
    def __ge__(self, x): return not self < x
    def __mul__(self, k): return Unit(self.d, self.s * k)
    __rmul__ = __mul__
    __le__ = __lt__
    def __gt__(self, x): return not self < x
def run(c, cfg):
    from symx import poly, load, arr, nxx
    mp = load.load()
    n, I, O = cfg["n"], cfg["I"], cfg["O"]; K, cv, src = _ctl(cfg); meas = list(K); Q = [v for v in O if v not in K]
    A = {v: poly.angle(f"t{v}") if K[v] in ("XY", "XZ", "YZ", "ctl", "ctl~", "YZf") else None for v in meas}
    psi = poly.amps("psi", 2 ** len(I)); c.inp("psi", psi); c.inp("A", {str(v): A[v] for v in meas})
    if "edges" in cfg:
        g = mp.GraphState(); g.add_nodes_from(range(n)); g.add_edges_from([tuple(e) for e in cfg["edges"]]); c.inp("g", {"nodes": list(range(n)), "edges": cfg["edges"]})
    else: g = nxx.sym_graph(c, mp.GraphState, "g", list(range(n)))
    mc = build(mp, g, cfg, A)
    if mc.flow is None: return
    edges = [tuple(e) for e in mc.graph.edges()]
    c.check(sorted(mc.trainable_nodes) == trainables(cfg), "trainable nodes")
    draws = []; c.inp("draws", draws)
    def pick(k, a, p):
        r = c.choose(f"draw{k}", list(range(len(a)))); draws.append(r)
        if p is not None: c.assume(p[r] >= 0.01)
        return r
    sim = mp.PatternSimulator(mc, input_state=arr.mk(np.array(psi, dtype=object), "c"), backend="numpy-dm")
    with Draws(pick) as D: rho = sim.run([A[u] for u in mc.trainable_nodes], mode=cfg["mode_"])
    out = dict(sim.outcomes)
    c.check(set(out) == set(meas), "an outcome is recorded for exactly the measured nodes")
    cs = lambda a: (np.cos(a), np.sin(a)); conj = lambda z: z.conjugate() if hasattr(z, "conjugate") else z
    exp = cfg["mode_"] == "expectation"
    order = list(out); P = {}; W = 1; drawn = [v for v in order if K[v] == "Z" and not exp]
    c.check(len(D.p) == len(drawn), "one draw per Z measurement")
    for v in order:
        b = observable(cfg, v, A, out, cs)
        if exp and K[v] == "Z":
            w1 = tr(outmat(cfg, edges, psi, {**P, v: proj(b, 1)}, Q, conj))
            poly.check_eq(c, poly.lift(out[v]) * W, poly.lift(w1), "the expectation of a Z measurement is its Born probability"); continue
        o = out[v]
        c.check(o in (0, 1), "outcomes are bits")
        w0 = tr(outmat(cfg, edges, psi, {**P, v: proj(b, 0)}, Q, conj))
        if K[v] == "Z":
            k = drawn.index(v)
            poly.check_eq(c, poly.lift(D.p[k][D.r[k]]) * W, poly.lift(w0 if o == 0 else W - w0), "a Z outcome is drawn with its Born probability")
        elif o == 1: c.check(w0 <= W * 0.001, "outcome 0 is forced whenever it is possible")
        P[v] = proj(b, o); W = w0 if o == 0 else W - w0
    want = outmat(cfg, edges, psi, P, Q, conj)
    poly.check_eq(c, np.array([[poly.lift(x) * W for x in row] for row in arr.raw(rho)], dtype=object), want, "the state is the normalised branch of the recorded outcomes")
def replay(inp, cfg):
    import mentpy as mp
    n, I, O = cfg["n"], cfg["I"], cfg["O"]; K, cv, src = _ctl(cfg); meas = list(K); Q = [v for v in O if v not in K]
    A = {int(k): None if v is None else float(v) for k, v in inp["A"].items()}
    psi = sr.cv(inp["psi"]); psi /= np.linalg.norm(psi)
    mc = build(mp, cm.mk_graph(mp, inp["g"]), cfg, A)
    if mc.flow is None: return
    if sorted(mc.trainable_nodes) != trainables(cfg): return f"trainable nodes {mc.trainable_nodes}"
    edges = inp["g"]["edges"]
    with Draws(lambda k, a, p: inp["draws"][k] if k < len(inp["draws"]) else 0) as D:
        try:
            sim = mp.PatternSimulator(mc, input_state=psi.copy(), backend="numpy-dm")
            rho = sim.run([A[u] for u in mc.trainable_nodes], mode=cfg["mode_"])
        except Exception as e:
            if any(p is not None and p[r] < 0.009 for p, r in zip(D.p, inp["draws"])): return None
            return f"{type(e).__name__}: {e}"
    if any(p is not None and p[r] < 0.009 for p, r in zip(D.p, inp["draws"])): return None
    out = dict(sim.outcomes)
    if set(out) != set(meas): return f"outcomes recorded for {sorted(out)}"
    exp = cfg["mode_"] == "expectation"; P = {}; W = 1; drawn = [v for v in out if K[v] == "Z" and not exp]
    if len(D.p) != len(drawn): return f"{len(D.p)} draws for {len(drawn)} Z measurements"
    cs = lambda a: (np.cos(a), np.sin(a))
    for v in list(out):
        b = observable(cfg, v, A, out, cs); T = lambda o: np.real(tr(outmat(cfg, edges, psi, {**P, v: proj(b, o)}, Q, np.conj)))
        if exp and K[v] == "Z":
            if abs(out[v] - T(1) / W) > 1e-6: return f"expectation {out[v]} of node {v} instead of {T(1) / W}"
            continue
        o = out[v]
        if o not in (0, 1): return f"outcome {o} of node {v}"
        if K[v] == "Z":
            k = drawn.index(v)
            if abs(D.p[k][D.r[k]] - T(o) / W) > 1e-6: return f"outcome {o} of node {v} drawn with {D.p[k]} instead of {T(o) / W}"
        elif o == 1 and T(0) > 0.001 * W + 1e-9: return f"outcome 1 of node {v} although 0 has probability {T(0) / W}"
        P[v] = proj(b, o); W = T(o)
    want = outmat(cfg, edges, psi, P, Q, np.conj).astype(complex) / W
    if np.shape(rho) != want.shape or not np.allclose(rho, want, atol=1e-6): return f"state after outcomes {out}: distance {np.abs(np.asarray(rho) - want).max() if np.shape(rho) == want.shape else np.shape(rho)}"
