"""Lie-algebra generators of a circuit."""
import itertools, warnings
import numpy as np
from checks import common as cm
MODE = "bits"
BOUNDS = {"quick": "all graphs with up to 4 nodes that have causal flow (one input/output choice per cardinality type, also permuted, and several insertion orders), all graphs on 5 nodes for one choice per type; 2x3 grids",
          "thorough": "every ordered input/output choice up to 4 nodes with up to 3 wires; all graphs on 5 and 6 nodes, one choice per cardinality type (at least two wires on 6 nodes); 2x3 grids with permuted labels"}
ASSUMPTIONS = ["circuits with causal flow, equally many inputs and outputs, at least one measured node"]
BUDGET = {"quick": 240, "thorough": 850}
def configs(tier):
    T = tier == "thorough"; out = []
    def add(n, I, O, tag="", **k): out.append({"name": f"n={n} I={I} O={O} {tag}", "n": n, "I": list(I), "O": list(O), "weight": 2 * n + k.pop("w", 0), **k})
    for n in (2, 3, 4):
        for I, O in cm.io_types(n):
            if len(O) == n: continue
            add(n, I, O); add(n, I[::-1], O[::-1], "reversed insertion", order=list(range(n))[::-1])
            add(n, [n - 1 - v for v in I], [n - 1 - v for v in O][::-1], "rotated insertion", order=list(range(1, n)) + [0])
    for I, O in cm.io_types(5):
        if len(O) < 5: add(5, I, O, "", w=8)
    if T:
        for I, O in cm.io_types(6, 2):
            if len(O) < 6: add(6, I, O, "", w=20)
    for lab in [[0, 1, 2, 3, 4, 5], [3, 5, 0, 1, 4, 2]][:2 if T else 1]:
        L = lambda *v: [lab[x] for x in v]
        add(6, L(0, 3), L(2, 5), f"grid {lab}", fix=[L(0, 1), L(1, 2), L(3, 4), L(4, 5)], free=[L(0, 3), L(1, 4), L(2, 5)], w=6)
    if T:
        for a in (1, 2, 3):
            for I in itertools.permutations(range(4), a):
                for O in itertools.combinations(range(4), a): add(4, I, O, "all")
    return out
def _graph(c, mp, cfg):
    from symx import nxx
    nodes = list(cfg.get("order") or range(cfg["n"]))
    if "fix" not in cfg:
        g = nxx.sym_graph(c, mp.GraphState, "g", nodes); s = c.inputs["g"]
        return g, nodes, s.lit
    g = nxx.sym_graph(c, mp.GraphState, "g", nodes, pairs=[tuple(sorted(e)) for e in cfg["free"]]); s = c.inputs["g"]
    from symx import core
    g.add_edges_from(map(tuple, cfg["fix"])); fx = {frozenset(e) for e in cfg["fix"]}
    return g, nodes, lambda u, v: core.T if frozenset((u, v)) in fx else s.lit(u, v)
def run(c, cfg):
    from symx import core, load, arr
    mp = load.load(); A, X, No = core.mk_and, core.mk_xor, core.mk_not
    from mentpy.utils import lie_algebra as la
    g, nodes, lit = _graph(c, mp, cfg); n = len(nodes)
    mc = mp.MBQCircuit(g, input_nodes=list(cfg["I"]), output_nodes=list(cfg["O"]))
    if mc.flow is None: return
    E = lambda u, v: core.mkbool(lit(u, v)) if u != v else False
    meas = [v for v in nodes if v not in cfg["O"]]
    R = la.calculate_complete_gens_lie_algebra(mc)
    M = [[cm.asbit(x) for x in r] for r in arr.raw(R.matrix)]
    oc = list(mc.outputc)
    c.check(len(M) == len(meas) and sorted(oc) == sorted(meas), "one operator per measured node")
    if len(M) != len(meas): return
    ix = {v: k for k, v in enumerate(mc.graph.nodes())}
    for j, row in zip(oc, M):
        x = {v: row[ix[v]] for v in nodes}; z = {v: row[ix[v] + n] for v in nodes}
        for v in nodes: c.check(core.mk_iff(z[v], X(*[A(x[u], E(u, v)) for u in nodes if u != v])), "the operator is a product of stabilizers")
        c.check(z[j], "Z or Y on the node itself")
        for v in meas:
            if v != j: c.check(No(z[v]), "X or identity on the other measured nodes")
        c.check(No(x[j]), "the stabilizer of the node itself is not used")
        for v in nodes:
            if v != j and mc.partial_order(v, j): c.check(No(x[v]), "stabilizers of earlier nodes are not used")
    G = la.calculate_gens_lie_algebra(mc)
    O = [ix[v] for v in cfg["O"]]; cols = O + [k + n for k in O]
    W = [[r[k] for k in cols] for r in M]
    P = [[cm.asbit(x) for x in r] for r in arr.raw(G.matrix)]
    eq = lambda a, b: A(*[core.mk_iff(x, y) for x, y in zip(a, b)])
    c.check(all(len(r) == 2 * len(O) for r in P), "restriction to the outputs")
    keep = []
    for i, r in enumerate(W):
        keep.append(bool(No(core.mk_or(*[eq(r, W[k]) for k in range(i)])) if i else True))
    W = [r for r, k in zip(W, keep) if k]
    c.check(len(P) == len(W), "no repetitions and none lost")
    for a, b in zip(P, W): c.check(eq(a, b), "restriction of the operators in output order")
def replay(inp, cfg):
    import mentpy as mp
    from mentpy.utils import lie_algebra as la
    warnings.simplefilter("ignore")
    d = inp["g"]; g = cm.mk_graph(mp, {"nodes": d["nodes"], "edges": d["edges"] + [list(e) for e in cfg.get("fix", [])]})
    E = {frozenset(e) for e in g.edges()}; nodes = d["nodes"]; n = len(nodes)
    mc = mp.MBQCircuit(g, input_nodes=list(cfg["I"]), output_nodes=list(cfg["O"]))
    if mc.flow is None: return None
    ctx = f" (edges {sorted(map(sorted, E))}, I={cfg['I']}, O={cfg['O']}, insertion order {nodes})"
    M = np.array(la.calculate_complete_gens_lie_algebra(mc).matrix).astype(int)
    ix = {v: k for k, v in enumerate(mc.graph.nodes())}; oc = list(mc.outputc); meas = [v for v in nodes if v not in cfg["O"]]
    if sorted(oc) != sorted(meas) or len(M) != len(oc): return "not one operator per measured node" + ctx
    for j, row in zip(oc, M):
        x = {v: row[ix[v]] for v in nodes}; z = {v: row[ix[v] + n] for v in nodes}; t = cm.pauli_text(row)
        for v in nodes:
            if z[v] != sum(x[u] for u in nodes if frozenset((u, v)) in E and u != v) % 2: return f"{t} of node {j} is not a product of stabilizers" + ctx
        if not z[j] or any(z[v] for v in meas if v != j): return f"{t} of node {j} acts wrongly on the measured nodes" + ctx
        if x[j] or any(x[v] for v in nodes if v != j and mc.partial_order(v, j)): return f"{t} of node {j} uses a stabilizer that is not later" + ctx
    O = [ix[v] for v in cfg["O"]]; cols = O + [k + n for k in O]
    want = list(dict.fromkeys(tuple(int(v) for v in r[cols]) for r in M)); got = [tuple(int(v) for v in r) for r in np.array(la.calculate_gens_lie_algebra(mc).matrix)]
    if got != want: return f"generators {list(map(cm.pauli_text, got))} instead of {list(map(cm.pauli_text, want))}" + ctx
