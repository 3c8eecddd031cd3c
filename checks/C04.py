"""Causal flow search: soundness and completeness."""
import itertools
from checks import common as cm
MODE = "bits"; MERGE = True
BOUNDS = {"quick": "all graphs with up to 4 nodes and all equally large input/output sets; all graphs with 5 nodes, one input/output choice per cardinality type; circuits on all graphs with up to 4 nodes",
          "thorough": "all graphs with up to 5 nodes and all equally large input/output sets, 6 nodes for input/output types with at most 3 measured nodes; circuits on all graphs with up to 5 nodes"}
ASSUMPTIONS = ["simple undirected graphs", "input and output sets of equal size (others are rejected by the search)"]
BUDGET = {"quick": 200, "thorough": 840}
def configs(tier):
    T = tier == "thorough"
    out = []
    for n in range(1, (5 if T else 4) + 1):
        for I, O in cm.io_all(n, lo=0 if n < 3 else 1):
            out.append({"name": f"n={n} I={I} O={O}", "h": "cflow", "n": n, "I": I, "O": O, "weight": n})
    if not T:
        for I, O in cm.io_types(5):
            out.append({"name": f"n=5 I={I} O={O}", "h": "cflow", "n": 5, "I": I, "O": O, "weight": 5})
            out.append({"name": f"n=5 I={I} O={O} shuffled", "h": "cflow", "n": 5, "I": I, "O": O, "perm": [3, 0, 4, 1, 2], "weight": 5})
    else:
        for I, O in cm.io_types(6, 3): out.append({"name": f"n=6 I={I} O={O}", "h": "cflow", "n": 6, "I": I, "O": O, "weight": 6})
    for n in range(2, (5 if T else 4) + 1):
        for I, O in cm.io_types(n): out.append({"name": f"circuit n={n} I={I} O={O}", "h": "circ", "n": n, "I": I, "O": O, "weight": n + .5})
    out.append({"name": "sizes differ", "h": "sizes", "n": 3})
    return out
def _labels(cfg):
    p = cfg.get("perm") or list(range(cfg["n"]))
    return p
def _check(c, snap, nodes, I, O, res, what):
    from symx import core
    E = lambda u, v: core.mkbool(snap.lit(u, v))
    f, order = res[0], res[1]
    if f is None:
        c.check(order is None, what + ": no order without a flow")
        w = cm.sym_cflow(c, E, nodes, I, O)
        c.check(core.mk_not(w), what + ": a flow exists but none was found")
        return
    im = {}
    for u in nodes:
        for v in nodes:
            for w in nodes:
                if order(u, v) and order(v, w): c.check(order(u, w), what + ": order is transitive")
        c.check(not order(u, u), what + ": order is irreflexive")
    for u in nodes:
        if u in O: continue
        try: v = f(u)
        except Exception as e: c.fail(f"{what}: measured node without image ({e!r})")
        c.check(v not in im.values(), what + ": images are distinct"); im[u] = v
        c.check(v in nodes and v not in I, what + ": image is not an input")
        c.check(E(u, v), what + ": image is a neighbour")
        c.check(order(u, v), what + ": node precedes its image")
        for w in nodes:
            if w != u: c.check(core.mk_or(core.mk_not(E(v, w)), order(u, w)), what + ": node precedes the other neighbours of its image")
    if len(res) > 2:
        depth, ln = res[2], res[3]
        c.check(set(ln) == set(nodes), what + ": every node has a layer")
        c.check(depth == max(ln.values()), what + ": depth is the largest layer")
        for u in nodes:
            for v in nodes: c.check(bool(order(u, v)) == (ln[u] > ln[v]), what + ": layers agree with the order")
def run_cflow(c, cfg):
    from symx import nxx, load
    mp = load.load()
    from mentpy.mbqc.flow import find_cflow
    nodes = _labels(cfg); I, O = list(cfg["I"]), list(cfg["O"])
    g = nxx.sym_graph(c, mp.GraphState, "g", nodes); snap = c.inputs["g"]
    res = find_cflow(g, I, O)
    c.check(I == cfg["I"] and O == cfg["O"], "arguments are kept")
    _check(c, snap, nodes, I, O, res, "search")
def run_circ(c, cfg):
    from symx import nxx, load
    mp = load.load()
    nodes = _labels(cfg); I, O = list(cfg["I"]), list(cfg["O"])
    g = nxx.sym_graph(c, mp.GraphState, "g", nodes); snap = c.inputs["g"]
    mc = mp.MBQCircuit(g, input_nodes=I, output_nodes=O)
    _check(c, snap, nodes, I, O, (mc.flow, mc.partial_order), "circuit")
def run_sizes(c, cfg):
    from symx import nxx, load
    mp = load.load()
    from mentpy.mbqc.flow import find_cflow
    g = nxx.sym_graph(c, mp.GraphState, "g", [0, 1, 2])
    try: find_cflow(g, [0, 1], [2])
    except ValueError: c.check(True, "sizes rejected"); return
    c.fail("different sizes accepted")
def _rep(E, nodes, I, O, res):
    f, order = res[0], res[1]
    if f is None:
        w = cm.has_cflow(E, nodes, I, O)
        return f"no flow found for edges {sorted(map(sorted, E))}, I={I}, O={O}, but {w} is one" if w else None
    m = cm.is_cflow(E, nodes, I, O, f, order)
    if m: return m + f" (edges {sorted(map(sorted, E))}, I={I}, O={O})"
    if len(res) > 2:
        depth, ln = res[2], res[3]
        if set(ln) != set(nodes) or depth != max(ln.values()): return f"depth {depth} layers {ln}"
        for u in nodes:
            for v in nodes:
                if bool(order(u, v)) != (ln[u] > ln[v]): return "order and layers disagree"
def replay_cflow(inp, cfg):
    import mentpy as mp
    from mentpy.mbqc.flow import find_cflow
    d = inp["g"]; g = cm.mk_graph(mp, d)
    return _rep(cm.edges_of(d), d["nodes"], cfg["I"], cfg["O"], find_cflow(g, list(cfg["I"]), list(cfg["O"])))
def replay_circ(inp, cfg):
    import mentpy as mp
    d = inp["g"]; mc = mp.MBQCircuit(cm.mk_graph(mp, d), input_nodes=list(cfg["I"]), output_nodes=list(cfg["O"]))
    return _rep(cm.edges_of(d), d["nodes"], cfg["I"], cfg["O"], (mc.flow, mc.partial_order))
def replay_sizes(inp, cfg):
    import mentpy as mp
    from mentpy.mbqc.flow import find_cflow
    try: find_cflow(cm.mk_graph(mp, inp["g"]), [0, 1], [2])
    except ValueError: return None
    return "different sizes accepted"
