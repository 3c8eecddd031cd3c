"""Stabilizers of a graph state."""
import itertools
import numpy as np
from checks import common as cm
MODE = "bits"; MERGE = True
BOUNDS = {"quick": "all graphs with up to 6 nodes (symbolic edges), several node insertion orders and label types; circuits on all graphs with up to 4 nodes",
          "thorough": "all graphs with up to 9 nodes; circuits on all graphs with up to 6 nodes"}
ASSUMPTIONS = ["simple graphs without self loops"]
def configs(tier):
    T = tier == "thorough"
    out = []
    for n in range(1, (9 if T else 6) + 1):
        for nm, order in (("sorted", list(range(n))), ("reversed", list(range(n))[::-1]), ("rotated", [(i * 2 + 1) % n if n % 2 else (i + n // 2) % n for i in range(n)]), ("spread", [10 * (n - i) + (i % 2) * 3 for i in range(n)])):
            out.append({"name": f"graph n={n} {nm}", "h": "graph", "nodes": order})
    for n in (2, 3, 4) + ((5, 6) if T else ()): out.append({"name": f"circuit n={n}", "h": "circ", "nodes": list(range(n))[::-1]})
    return out
def _check(c, op, g, nodes, what):
    from symx import core, arr
    n = len(nodes)
    M = arr.raw(op.matrix)
    c.check(M.shape == (n, 2 * n), what + ": one operator per node")
    snap = c.inputs["g"]
    for i, u in enumerate(nodes):
        c.check(cm.bits_eq(M[i, :n], [int(j == i) for j in range(n)]), what + ": X exactly on its own node")
        c.check(cm.bits_eq(M[i, n:], [core.mkbool(snap.lit(u, v)) if u != v else False for v in nodes]), what + ": Z exactly on the neighbours")
    t = [core.tolit(cm.asbit(x)) for x in M.ravel()]
    c.check(True, what)
    s = arr.raw(op.symplectic_prod(op))
    c.check(cm.bits_eq(s, [[0] * n for _ in range(n)]), what + ": stabilizers commute pairwise")
def run_graph(c, cfg):
    from symx import nxx, load
    mp = load.load()
    g = nxx.sym_graph(c, mp.GraphState, "g", cfg["nodes"])
    _check(c, g.stabilizers(), g, cfg["nodes"], "graph state")
    from symx import core
    c.check(list(g.nodes()) == cfg["nodes"], "the graph keeps its nodes")
def run_circ(c, cfg):
    from symx import nxx, load
    mp = load.load()
    g = nxx.sym_graph(c, mp.GraphState, "g", cfg["nodes"])
    mc = mp.MBQCircuit(g, input_nodes=list(cfg["nodes"]), output_nodes=list(cfg["nodes"]))
    _check(c, mc.stabilizers() if callable(mc.stabilizers) else mc.stabilizers, g, list(mc.graph.nodes()), "circuit")
def _rep(op, nodes, E):
    n = len(nodes); M = np.array(op.matrix)
    if M.shape != (n, 2 * n): return "wrong number of operators"
    for i, u in enumerate(nodes):
        for j, v in enumerate(nodes):
            if M[i, j] != (i == j): return f"X part of stabilizer {i}: {op.txt}"
            if M[i, n + j] != (frozenset((u, v)) in E): return f"Z part of stabilizer {i}: {op.txt!r} for edges {sorted(map(sorted, E))}"
    if cm.rank2(M) != n: return "not independent"
    mats = [cm.pauli_matrix(r) for r in M]
    for a, b in itertools.combinations(mats, 2):
        if np.abs(a @ b - b @ a).max() > 1e-9: return "stabilizers do not commute"
def _g(mp, d):
    g = mp.GraphState(); g.add_nodes_from(d["nodes"]); g.add_edges_from(map(tuple, d["edges"])); return g
def replay_graph(inp, cfg):
    import mentpy as mp
    d = inp["g"]; g = _g(mp, d)
    return _rep(g.stabilizers(), d["nodes"], {frozenset(e) for e in d["edges"]})
def replay_circ(inp, cfg):
    import mentpy as mp
    d = inp["g"]; mc = mp.MBQCircuit(_g(mp, d), input_nodes=list(cfg["nodes"]), output_nodes=list(cfg["nodes"]))
    return _rep(mc.stabilizers() if callable(mc.stabilizers) else mc.stabilizers, list(mc.graph.nodes()), {frozenset(e) for e in d["edges"]})
