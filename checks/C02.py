"""Feed-forward (PennyLane) execution: every outcome sequence gives the all-zero branch."""
import itertools
import numpy as np
from checks import common as cm, simref as sr
from checks.C01 import build
MODE = "poly"
BOUNDS = {"quick": "all graphs on up to 4 nodes with flow, one representative of every overlap of inputs and outputs in several declared orders and insertion orders, all outcome sequences, all normalised input states, all angles; every pattern of XY/fixed/X/Y measurements on 3 nodes; 5-node wires and two graphs with two wires",
          "thorough": "every choice and order of inputs and outputs on 4 nodes, every pattern on 4 nodes, all graphs on 5 nodes with at most 3 inputs"}
ASSUMPTIONS = ["PennyLane applies the recorded operations as documented (a stand-in records them; counterexamples are replayed with the real PennyLane)", "outputs are unmeasured"]
BUDGET = {"quick": 300, "thorough": 850}
KINDS = ["XY", "fix", "X", "Y"]
def configs(tier):
    T = tier == "thorough"
    out = []
    def add(n, I, O, tag="", **k):
        out.append({"name": f"n={n} I={I} O={O} {tag}", "n": n, "I": I, "O": O, "weight": n * 4 + len(I) + k.pop("w", 0), **k})
    for n in (2, 3, 4):
        for I, O in cm.io_types(n):
            P = [(I, O), (I[::-1], O), (I, O[::-1])] if len(I) > 1 else [(I, O)]
            for i, o in P:
                if len(I) == n and n == 4: continue
                add(n, i, o)
            if len(I) < n: add(n, [n - 1 - v for v in I], [n - 1 - v for v in O], "reversed insertion", order=list(range(n))[::-1])
            if len(I) < n: add(n, I, O, "rotated insertion", order=list(range(1, n)) + [0])
    for I, O in cm.io_types(3):
        if len(I) < 3: add(3, I, O, "patterns", kinds=True, w=2)
    add(5, [0], [4], "wire", w=4, edges=[[0, 1], [1, 2], [2, 3], [3, 4]])
    add(5, [4], [2], "wire", w=4, edges=[[4, 0], [0, 3], [3, 1], [1, 2]])
    add(6, [0, 3], [2, 5], "grid", w=9, edges=[[0, 1], [1, 2], [3, 4], [4, 5], [1, 4]])
    add(6, [3, 0], [5, 2], "grid permuted", w=9, edges=[[0, 1], [1, 2], [3, 4], [4, 5], [0, 3], [1, 4], [2, 5]])
    if T:
        for I, O in cm.io_types(4):
            if len(I) < 4: add(4, I, O, "patterns", kinds=True, w=4)
        for a in (1, 2, 3):
            for I in itertools.combinations(range(4), a):
                for O in itertools.permutations(range(4), a): add(4, list(I), list(O), "all")
        for I, O in cm.io_types(5):
            if len(I) < 4: add(5, I, O, "all graphs", w=20)
    return out
def run(c, cfg):
    from symx import poly, load, arr, nxx
    mp = load.load()
    n, I, O = cfg["n"], cfg["I"], cfg["O"]
    meas = [v for v in range(n) if v not in O]
    A = {v: poly.angle(f"t{v}") for v in meas}
    psi = poly.amps("psi", 2 ** len(I)); c.inp("psi", psi); c.inp("A", {str(v): A[v] for v in meas})
    kinds = {v: (c.choose(f"kind{v}", KINDS) if cfg.get("kinds") else "XY") for v in meas}
    c.inp("kinds", {str(v): k for v, k in kinds.items()})
    if "edges" in cfg:
        g = mp.GraphState(); g.add_nodes_from(range(n)); g.add_edges_from([tuple(e) for e in cfg["edges"]]); c.inp("g", {"nodes": list(range(n)), "edges": cfg["edges"]})
    else:
        g = nxx.sym_graph(c, mp.GraphState, "g", cfg.get("order") or list(range(n)))
    mc = build(mp, g, cfg, kinds, A)
    if mc.flow is None: return
    edges = cfg.get("edges") or [tuple(e) for e in g.edges()]
    v = sr.branch(range(n), edges, I, psi, {u: sr.sbra(kinds[u], A[u]) for u in meas}, O)
    st = arr.mk(np.array(psi, dtype=object), "c")
    sim = mp.PatternSimulator(mc, input_state=st)
    rho = arr.raw(sim.run([A[u] for u in mc.trainable_nodes]))
    c.check(sorted(w for w, s in c.qml.outcomes) == meas, "every measured node is measured exactly once")
    c.check(rho.shape == (2 ** len(O),) * 2, "density matrix of the outputs")
    o = sr.outer(v); nv = tr = 0
    for k in range(len(v)): nv = nv + o[k, k]; tr = tr + rho[k, k]
    poly.check_eq(c, np.array([[poly.lift(x) * nv for x in r] for r in rho], dtype=object), np.array([[x * tr for x in r] for r in o], dtype=object), "every outcome sequence gives the all-zero branch")
    poly.check_eq(c, [tr], [0.5 ** len(meas)], "all outcome sequences are equally likely")
    poly.check_eq(c, st, np.array(psi, dtype=object), "input state unchanged")
def replay(inp, cfg):
    import mentpy as mp
    n, I, O = cfg["n"], cfg["I"], cfg["O"]; meas = [v for v in range(n) if v not in O]
    kinds = {int(k): v for k, v in inp["kinds"].items()}; A = {int(k): float(v) for k, v in inp["A"].items()}
    psi = sr.cv(inp["psi"]); psi /= np.linalg.norm(psi)
    g = cm.mk_graph(mp, inp["g"]); mc = build(mp, g, cfg, kinds, A)
    if mc.flow is None: return
    want = sr.dm(sr.branch(range(n), inp["g"]["edges"], I, psi, {u: sr.cbra(kinds[u], A[u]) for u in meas}, O))
    rho = np.asarray(mp.PatternSimulator(mc, input_state=psi.copy()).run([A[u] for u in mc.trainable_nodes]))
    if rho.shape != want.shape or not np.allclose(rho, want, atol=1e-6): return f"feed-forward run on {inp['g']['edges']} I={I} O={O} differs from the all-zero branch: overlap {np.real(np.trace(rho @ want)) if rho.shape == want.shape else rho.shape}"
