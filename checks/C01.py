"""Numpy simulators against the amplitude sum of the all-zero branch."""
import itertools
import numpy as np
from checks import common as cm, simref as sr
MODE = "poly"
BOUNDS = {"quick": "all graphs on up to 4 nodes with flow, one representative of every overlap of inputs and outputs in several declared orders and insertion orders, all normalised input states, all angles; trainable XY everywhere on 4 nodes, every pattern of XY/fixed/X/Y on 3 nodes; every schedule and window on 3 nodes, larger windows on 4 nodes; both simulators",
          "thorough": "all graphs on up to 4 nodes with every choice and order of inputs and outputs, every schedule and window on 4 nodes, all graphs on 5 nodes with at most 3 inputs"}
ASSUMPTIONS = ["schedules given by the user start with the input nodes", "outcome 0 everywhere (the only branch these simulators produce); for measured outputs, that outcome has probability at least 0.01"]
BUDGET = {"quick": 300, "thorough": 850}
KINDS = ["XY", "fix", "X", "Y"]
def configs(tier):
    T = tier == "thorough"
    out = []
    def add(n, I, O, tag="", **k):
        out.append({"name": f"n={n} I={I} O={O} {tag}", "n": n, "I": I, "O": O, "weight": n * 4 + len(I) + k.pop("w", 0), **k})
    for n in (2, 3, 4):
        for I, O in cm.io_types(n):
            P = [(I, O), (I[::-1], O), (I, O[::-1])] if len(I) > 1 else [(I, O)]
            for k, (i, o) in enumerate(P):
                if len(I) == n and n == 4: continue
                add(n, i, o)
            if len(I) == 3 and n == 4:
                for i, o in [(I[1:] + I[:1], O), (I, O[1:] + O[:1]), (I[2:] + I[:2], O[1:] + O[:1])]:
                    add(n, i, o)
                add(n, I[1:] + I[:1], O, "window 4", window=4)
            if 1 < n and len(I) < n: add(n, [n - 1 - v for v in I], [n - 1 - v for v in O], "reversed insertion", order=list(range(n))[::-1])
    for I, O in cm.io_types(3):
        if len(I) < 3: add(3, I, O, "patterns", kinds=True, w=2)
    for n in (3,) + ((4,) if T else ()):
        for I, O in cm.io_types(n):
            if len(I) < n: add(n, I, O, "schedules", sched=True, w=4)
    for I, O in cm.io_types(4):
        if len(I) < 4:
            for w in (3, 4): add(4, I, O, f"window {w}", window=w)
    for n, I, O, m in [(2, [0], [1], [1]), (3, [0, 1], [2, 1], [1]), (3, [0, 1], [1, 2], [2])]:
        add(n, I, O, f"measured output {m}", mout=m, w=20)
    add(5, [0], [4], "wire", w=4, edges=[[0, 1], [1, 2], [2, 3], [3, 4]])
    if T:
        for I, O in cm.io_types(5):
            if len(I) < 4: add(5, I, O, "all graphs", w=20)
        add(5, [4], [2], "wire", w=4, edges=[[4, 0], [0, 3], [3, 1], [1, 2]])
        for I, O in cm.io_types(4):
            if len(I) < 4: add(4, I, O, "patterns", kinds=True, w=4)
        for a in (1, 2, 3):
            for I in itertools.combinations(range(4), a):
                for O in itertools.permutations(range(4), a): add(4, list(I), list(O), "all")
    return out
def build(mp, g, cfg, kinds, A):
    ms = {}
    for v in range(cfg["n"]):
        if v not in kinds: continue
        k = kinds[v]
        ms[v] = mp.Ment("XY") if k == "XY" else mp.Ment(A[v], "XY") if k == "fix" else mp.Ment(k)
    return mp.MBQCircuit(g, input_nodes=list(cfg["I"]), output_nodes=list(cfg["O"]), measurements=ms)
def _sched(c, cfg, meas):
    if not cfg.get("sched"): return None
    rest = [v for v in range(cfg["n"]) if v not in cfg["I"]]
    return c.choose("schedule", [list(i) + list(r) for i in itertools.permutations(cfg["I"]) for r in itertools.permutations(rest)])
def run(c, cfg):
    from symx import poly, load, arr, nxx
    mp = load.load()
    n, I, O = cfg["n"], cfg["I"], cfg["O"]
    meas = [v for v in range(n) if v not in O or v in cfg.get("mout", [])]; Q = [v for v in O if v not in meas]
    A = {v: poly.angle(f"t{v}") for v in meas}
    psi = poly.amps("psi", 2 ** len(I)); c.inp("psi", psi); c.inp("A", {str(v): A[v] for v in meas})
    kinds = {v: (c.choose(f"kind{v}", KINDS) if cfg.get("kinds") else "XY") for v in meas}
    c.inp("kinds", {str(v): k for v, k in kinds.items()})
    if "edges" in cfg:
        g = mp.GraphState(); g.add_nodes_from(range(n)); g.add_edges_from([tuple(e) for e in cfg["edges"]]); edges = cfg["edges"]; c.inp("g", {"nodes": list(range(n)), "edges": edges})
    else:
        g = nxx.sym_graph(c, mp.GraphState, "g", cfg.get("order") or list(range(n)))
    mc = build(mp, g, cfg, kinds, A)
    if mc.flow is None: return
    if "edges" not in cfg: edges = [tuple(e) for e in mc.graph.edges()]; c.check(set(map(frozenset, edges)) == set(map(frozenset, g.edges())), "the circuit has the given edges")
    sched = _sched(c, cfg, meas); c.inp("schedule", sched)
    ws = [cfg.get("window")] if "window" in cfg else list(range(len(I), n + 1)) if sched else [None]
    c.check(list(mc.quantum_output_nodes) == Q, "unmeasured outputs")
    v = sr.branch(range(n), edges, I, psi, {u: sr.sbra(kinds[u], A[u]) for u in meas}, Q)
    if "mout" in cfg:      # the outcome 0 of a measured output can be impossible: not covered
        pr = 0
        for x in v: pr = pr + poly.lift(x) * poly.lift(x).conjugate()
        pr = pr * 2 ** (n - len(O))
        c.assume(pr >= 0.01)
    for w in ws:
        kw = {} if w is None else {"window_size": w}
        if sched: kw["schedule"] = list(sched)
        for be in ("numpy-dm", "numpy-sv"):
            st = arr.mk(np.array(psi, dtype=object), "c")
            try: sim = mp.PatternSimulator(mc, input_state=st, backend=be, **kw)
            except ValueError:
                c.check(w is not None and w < n, "circuits with flow are accepted with the default or the full window")
                continue
            rho = sim.run([A[u] for u in mc.trainable_nodes])
            sr.check_state(c, rho, v, f"{be} returns the normalised all-zero branch")
            poly.check_eq(c, st, np.array(psi, dtype=object), "input state unchanged")
    c.check(sorted(mc.trainable_nodes) == [u for u in meas if kinds[u] == "XY"], "trainable nodes")
def replay(inp, cfg):
    import mentpy as mp
    n, I, O = cfg["n"], cfg["I"], cfg["O"]; meas = [v for v in range(n) if v not in O or v in cfg.get("mout", [])]; Q = [v for v in O if v not in meas]
    kinds = {int(k): v for k, v in inp["kinds"].items()}; A = {int(k): float(v) for k, v in inp["A"].items()}
    psi = sr.cv(inp["psi"]); psi /= np.linalg.norm(psi)
    g = cm.mk_graph(mp, inp["g"]); mc = build(mp, g, cfg, kinds, A)
    if mc.flow is None: return
    sched = inp.get("schedule"); edges = inp["g"]["edges"]
    ws = [cfg.get("window")] if "window" in cfg else list(range(len(I), n + 1)) if sched else [None]
    want = sr.dm(sr.branch(range(n), edges, I, psi, {u: sr.cbra(kinds[u], A[u]) for u in meas}, Q))
    for w in ws:
        kw = {} if w is None else {"window_size": w}
        if sched: kw["schedule"] = list(sched)
        for be in ("numpy-dm", "numpy-sv"):
            st = psi.copy()
            try: sim = mp.PatternSimulator(mc, input_state=st, backend=be, **kw)
            except ValueError as e:
                if w is None or w >= n: return f"{be} rejects a circuit with flow: {e}"
                continue
            rho = sim.run([A[u] for u in mc.trainable_nodes])
            if np.shape(rho) != want.shape or not np.allclose(rho, want, atol=1e-7): return f"{be} window {w} schedule {sched} graph {edges} I={I} O={O}: fidelity with the all-zero branch {np.real(np.trace(np.asarray(rho) @ want)) if np.shape(rho) == want.shape else None}"
            if not np.allclose(st, psi): return "input state modified"
    if sorted(mc.trainable_nodes) != [u for u in meas if kinds[u] == "XY"]: return "trainable nodes"
