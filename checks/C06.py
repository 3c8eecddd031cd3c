"""Measurement orders, layers and depth of circuits."""
import itertools, contextlib, io
from checks import common as cm
MODE = "bits"; MERGE = True
BOUNDS = {"quick": "circuits found by the flow search on all graphs with up to 4 nodes (every input/output choice at 3 nodes); every user-supplied strict partial order on up to 4 nodes with every input set size; all permutations of the nodes assigned as order (up to 4 nodes)",
          "thorough": "circuits on all graphs with up to 5 nodes; every strict partial order on up to 4 nodes, with every input list; all permutations assigned (up to 4 nodes, 5 for circuits)"}
ASSUMPTIONS = ["circuits that have a causal flow, or whose flow and order are supplied by the user"]
BUDGET = {"quick": 250, "thorough": 840}
def configs(tier):
    T = tier == "thorough"
    out = []
    for n in range(1, (5 if T else 4) + 1):
        for I, O in (cm.io_all(n) if n < 4 or T and n < 5 else cm.io_types(n)):
            out.append({"name": f"circuit n={n} I={I} O={O}", "h": "circ", "n": n, "I": I[::-1], "O": O, "setter": n <= 4, "weight": n})
    for n in (3, 4):
        for I, O in cm.io_types(n):
            for od in ([list(range(n))[::-1], list(range(1, n)) + [0]]):
                if T or n == 3 or od[0] == 1: out.append({"name": f"circuit n={n} I={I} O={O} insertion order {od}", "h": "circ", "n": n, "I": I, "O": O, "order": od, "setter": n < 4, "weight": n})
    for n in range(1, 5):
        for k in range(n + 1):
            ins = [list(range(k))] if not T else [list(p) for p in itertools.permutations(range(n), k)] if n < 4 else [list(range(k)), list(range(n))[::-1][:k]]
            for I in ins:
                out.append({"name": f"order n={n} I={I}", "h": "order", "n": n, "I": I, "weight": 2 * n})
    return out
def _valid(order, po, nodes):
    if sorted(order) != sorted(nodes): return f"{order} does not list every node once"
    for i in range(len(order)):
        for j in range(i + 1, len(order)):
            if po(order[j], order[i]): return f"{order[i]} comes before {order[j]} in {order}"
def _layers(mc, po, nodes):
    lay = mc.ordered_layers()
    if sorted(v for l in lay for v in l) != sorted(nodes): return f"layers {lay} do not partition the nodes"
    if mc.depth != len(lay) - 1: return f"depth {mc.depth} with {len(lay)} layers"
    at = {v: k for k, l in enumerate(lay) for v in l}
    for u in nodes:
        for v in nodes:
            if po(u, v) and not at[u] < at[v]: return f"{u} precedes {v} but layers are {lay}"
def _set(mc, perm):
    try: mc.measurement_order = list(perm)
    except (ValueError, TypeError): return False
    return True
def _setter(mc, po, nodes, perm):
    before = list(mc.measurement_order)
    ok = _set(mc, perm); want = _valid(list(perm), po, nodes) is None
    if ok != want: return f"assigning {list(perm)}: {'accepted' if ok else 'rejected'}"
    if list(mc.measurement_order) != (list(perm) if ok else before): return f"order after assigning {list(perm)} is {mc.measurement_order}"
def _gf(mc, po, nodes):
    m = _valid(list(mc.gflow.measurement_order), po, nodes)
    return m and "flow object: " + m
def run_circ(c, cfg):
    from symx import nxx, load
    mp = load.load()
    nodes = list(cfg.get("order") or range(cfg["n"])); I, O = list(cfg["I"]), list(cfg["O"])
    g = nxx.sym_graph(c, mp.GraphState, "g", nodes); 
    mc = mp.MBQCircuit(g, input_nodes=I, output_nodes=O)
    if mc.flow is None: c.check(mc.measurement_order is None, "no order without flow"); return
    po = mc.partial_order
    for f in (lambda: _valid(list(mc.measurement_order), po, nodes), lambda: _layers(mc, po, nodes), lambda: _gf(mc, po, nodes)):
        m = f(); c.check(m is None, str(m))
    if cfg["setter"]:
        perm = c.choose("perm", [list(p) for p in itertools.permutations(nodes)] + [nodes[:-1], nodes + nodes[:1]])
        c.inp("perm", perm)
        m = _setter(mc, po, nodes, perm); c.check(m is None, str(m))
def replay_circ(inp, cfg):
    import mentpy as mp
    d = inp["g"]; nodes = d["nodes"]
    mc = mp.MBQCircuit(cm.mk_graph(mp, d), input_nodes=list(cfg["I"]), output_nodes=list(cfg["O"]))
    if mc.flow is None: return None if mc.measurement_order is None else "order without flow"
    po = mc.partial_order
    m = _valid(list(mc.measurement_order), po, nodes) or _layers(mc, po, nodes) or _gf(mc, po, nodes)
    if not m and "perm" in inp: m = _setter(mc, po, nodes, inp["perm"])
    return m
def _mk(mp, cfg, po):
    nodes = list(range(cfg["n"]))
    g = mp.GraphState(); g.add_nodes_from(nodes)
    with contextlib.redirect_stdout(io.StringIO()):
        return mp.MBQCircuit(g, input_nodes=list(cfg["I"]), output_nodes=list(nodes), flow=lambda v: v, partial_order=po)
def _all(mc, po, nodes, perm):
    return _valid(list(mc.measurement_order), po, nodes) or _layers(mc, po, nodes) or _gf(mc, po, nodes) or (_setter(mc, po, nodes, perm) if perm is not None else None)
def run_order(c, cfg):
    from symx import load, core
    mp = load.load()
    n = cfg["n"]; P = {}
    for i in range(n):
        for j in range(n): P[i, j] = c.bool(f"p({i},{j})") if i != j else False
    for i in range(n):
        for j in range(n):
            for k in range(n):
                if i != j and j != k: c.assume(core.mk_or(core.mk_not(P[i, j]), core.mk_not(P[j, k]), P[i, k]))
    c.inp("P", [[P[i, j] for j in range(n)] for i in range(n)])
    mc = _mk(mp, cfg, lambda x, y: P[x, y])
    nodes = list(range(n))
    perm = c.choose("perm", [list(p) for p in itertools.permutations(nodes)]) if n < 4 else c.choose("perm", [[0, 1, 2, 3], [2, 0, 3, 1]])
    c.inp("perm", perm)
    order = list(mc.measurement_order); lay = mc.ordered_layers(); at = {v: k for k, l in enumerate(lay) for v in l}
    c.check(sorted(order) == nodes, "every node is measured once")
    c.check(sorted(at) == nodes and sum(map(len, lay)) == n, "layers partition the nodes")
    c.check(mc.depth == len(lay) - 1, "depth is the number of layers minus one")
    go = list(mc.gflow.measurement_order)
    c.check(sorted(go) == nodes, "flow object: every node once")
    for a, b in itertools.combinations(range(n), 2):
        c.check(core.mk_not(P[order[b], order[a]]), "the order respects the partial order")
        c.check(core.mk_not(P[go[b], go[a]]), "the order of the flow object respects the partial order")
    for u in nodes:
        for v in nodes:
            if u != v: c.check(core.mk_or(core.mk_not(P[u, v]), at[u] < at[v]), "predecessors are in earlier layers")
    want = core.mk_and(*[core.mk_not(P[perm[b], perm[a]]) for a, b in itertools.combinations(range(n), 2)])
    ok = _set(mc, perm)
    c.check(core.mk_iff(ok, want), "an order is accepted exactly when it respects the partial order")
    c.check(list(mc.measurement_order) == (list(perm) if ok else order), "the assigned order is stored")
def replay_order(inp, cfg):
    import mentpy as mp
    P = inp["P"]; po = lambda x, y: bool(P[x][y])
    mc = _mk(mp, cfg, po)
    return _all(mc, po, list(range(cfg["n"])), inp["perm"])
