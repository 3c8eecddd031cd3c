"""Generalised flow search: soundness and completeness."""
import itertools, warnings
import numpy as np
from checks import common as cm
MODE = "bits"; MERGE = True
BOUNDS = {"quick": "all graphs with up to 4 nodes: every input/output choice up to 3 nodes and one per cardinality type at 4; 5 nodes for types with at most 3 measured nodes; combined flow object on all graphs with up to 4 nodes; several insertion orders of the nodes",
          "thorough": "all graphs with up to 4 nodes and every input/output choice; 5 nodes, one choice per cardinality type; combined flow object on all graphs with up to 5 nodes"}
ASSUMPTIONS = ["simple undirected graphs", "all measured nodes in the XY plane", "the combined flow object is only asked about equally many inputs and outputs (others are rejected)"]
BUDGET = {"quick": 200, "thorough": 840}
def configs(tier):
    T = tier == "thorough"
    out = []
    for n in range(1, 5):
        for I, O in (cm.io_all(n, lo=0, equal=False) if n < 4 or T else cm.io_types(n, lo=1, equal=False)):
            if not O: continue
            out.append({"name": f"n={n} I={I} O={O}", "h": "gflow", "n": n, "I": I, "O": O, "weight": n})
    for I, O in cm.io_types(5, 1, equal=False):
        if T or len(O) >= 3: out.append({"name": f"n=5 I={I} O={O}", "h": "gflow", "n": 5, "I": I, "O": O, "weight": 9 - len(O)})
    for n in (3, 4):
        for I, O in cm.io_types(n, 1, equal=False):
            for k, od in enumerate([list(range(n))[::-1], list(range(1, n)) + [0], [1, 0] + list(range(2, n))]):
                if n == 4 and not T and (k + len(I) + len(O)) % 3: continue
                out.append({"name": f"n={n} I={I} O={O} insertion order {od}", "h": "gflow" if k < 2 or len(I) != len(O) else "obj", "n": n, "I": I, "O": O, "order": od, "weight": n})
    for n in range(1, (5 if T else 4) + 1):
        for I, O in cm.io_types(n): out.append({"name": f"object n={n} I={I} O={O}", "h": "obj", "n": n, "I": I, "O": O, "weight": n})
    return out
def _exists(c, E, nodes, I, O):
    "fresh variables describing a generalised flow"
    from symx import core
    A, Or, No = core.mk_and, core.mk_or, core.mk_not
    M = [u for u in nodes if u not in O]
    P = {(u, v): c.bool(f"o({u},{v})") for u in nodes for v in nodes if u != v}
    cs = []
    for u in M:
        K = {v: c.bool(f"k({u},{v})") for v in nodes if v not in I and v != u}
        for v in K: cs.append(Or(No(K[v]), P[u, v]))
        for w in nodes:
            odd = core.mk_xor(*[A(K[v], E(v, w)) for v in K if v != w]) if any(v != w for v in K) else False
            cs.append(odd if w == u else Or(No(odd), P[u, w]))
    for u in nodes:
        for v in nodes:
            if u == v: continue
            cs.append(No(A(P[u, v], P[v, u])))
            for w in nodes:
                if w not in (u, v): cs.append(Or(No(P[u, v]), No(P[v, w]), P[u, w]))
    return A(*cs)
def _check(c, snap, nodes, I, O, res, what):
    from symx import core, arr
    A, No = core.mk_and, core.mk_not
    E = lambda u, v: core.mkbool(snap.lit(u, v)) if u != v else False
    f, order = res[0], res[1]
    if f is None:
        c.check(order is None, what + ": no order without a flow")
        c.check(No(_exists(c, E, nodes, I, O)), what + ": a generalised flow exists but none was found")
        return
    depth, ln = res[2], res[3]
    c.check(set(ln) == set(nodes), what + ": every node has a layer")
    c.check(all((ln[v] == 0) == (v in O) for v in nodes), what + ": exactly the outputs are in layer zero")
    c.check(depth == max(ln.values()), what + ": depth is the largest layer")
    for u in nodes:
        for v in nodes: c.check(bool(order(u, v)) == (ln[u] > ln[v]), what + ": order follows the layers")
    for u in nodes:
        if u in O: continue
        cols = [v for v in nodes if ln[v] < ln[u] and v not in I]
        rows = [w for w in nodes if ln[w] >= ln[u]]
        y = {w: c.bool(f"y({u},{w})") for w in rows}
        inf = A(y[u], *[No(core.mk_xor(*[A(y[w], E(w, v)) for w in rows])) for v in cols])
        c.check(No(inf), what + ": a correction set in later layers exists")
        x = f(u)
        if isinstance(x, (set, frozenset)): continue
        x = arr.raw(x).ravel() if not isinstance(x, (int, np.integer)) else None
        if x is None:
            c.check(A(x in nodes), what); continue
        c.check(len(x) == len(cols), what + ": one coefficient per candidate node")
        if nodes == sorted(nodes) and len(x) == len(cols):
            for w in rows:
                odd = core.mk_xor(*[A(core.mkbool(core.tolit(cm.asbit(k))), E(w, v)) for k, v in zip(x, sorted(cols))]) if cols else False
                c.check(odd if w == u else No(odd), what + ": the correction set has the right odd neighbourhood")
def run_gflow(c, cfg):
    from symx import nxx, load
    mp = load.load()
    from mentpy.mbqc.flow import find_gflow
    nodes = list(cfg.get("order") or range(cfg["n"])); I, O = list(cfg["I"]), list(cfg["O"])
    g = nxx.sym_graph(c, mp.GraphState, "g", nodes); snap = c.inputs["g"]
    res = find_gflow(g, I, O)
    _check(c, snap, nodes, I, O, res, "search")
def run_obj(c, cfg):
    from symx import nxx, load, core
    mp = load.load()
    from mentpy.mbqc.flow import Flow
    nodes = list(cfg.get("order") or range(cfg["n"])); I, O = list(cfg["I"]), list(cfg["O"])
    g = nxx.sym_graph(c, mp.GraphState, "g", nodes); snap = c.inputs["g"]
    fl = Flow(g, I, O)
    E = lambda u, v: core.mkbool(snap.lit(u, v)) if u != v else False
    if fl.func is None:
        c.check(fl.layers is None and fl.partial_order is None and fl.depth is None and fl.measurement_order is None, "object: nothing reported without flow")
        c.check(core.mk_not(_exists(c, E, nodes, I, O)), "object: a flow exists but none is reported")
        return
    lay = fl.layers
    c.check(sorted(v for l in lay for v in l) == sorted(nodes), "object: layers partition the nodes")
    c.check(len(lay) == fl.depth + 1, "object: depth is the number of layers minus one")
    ln = fl.layers_dict
    c.check(all(set(lay[len(lay) - 1 - k]) == {v for v in nodes if ln[v] == k} for k in range(len(lay))), "object: layers follow the layer numbers")
    for u in nodes:
        for v in nodes: c.check(bool(fl.partial_order(u, v)) == (ln[u] > ln[v]), "object: order follows the layers")
    for u in nodes:
        if u in O: continue
        cols = [v for v in nodes if ln[v] < ln[u] and v not in I]; rows = [w for w in nodes if ln[w] >= ln[u]]
        y = {w: c.bool(f"y({u},{w})") for w in rows}
        c.check(core.mk_not(core.mk_and(y[u], *[core.mk_not(core.mk_xor(*[core.mk_and(y[w], E(w, v)) for w in rows])) for v in cols])), "object: a correction set in later layers exists")
def _rep(E, nodes, I, O, f, order, depth, ln, vec=True):
    want = cm.gflow_layers(E, nodes, I, O)
    ctx = f" (edges {sorted(map(sorted, E))}, I={I}, O={O})"
    if f is None: return None if want is None else f"no generalised flow found but the layers {want} are one" + ctx
    if want is None: return "reported a generalised flow that does not exist" + ctx
    if set(ln) != set(nodes): return f"layers {ln} do not cover the nodes" + ctx
    if depth != max(ln.values()) or any((ln[v] == 0) != (v in O) for v in nodes): return f"layers {ln} depth {depth}" + ctx
    for u in nodes:
        for v in nodes:
            if bool(order(u, v)) != (ln[u] > ln[v]): return "order and layers disagree" + ctx
    for u in nodes:
        if u in O: continue
        cols = sorted(v for v in nodes if ln[v] < ln[u] and v not in I); rows = [w for w in nodes if ln[w] >= ln[u]]
        A = [[int(frozenset((r, x)) in E) for x in cols] for r in rows]; b = [int(r == u) for r in rows]
        if cm.rank2([a + [z] for a, z in zip(A, b)]) != cm.rank2(A): return f"node {u} has no correction set in layers before {ln[u]}: {ln}" + ctx
        if vec:
            x = f(u)
            if isinstance(x, (set, frozenset, int, np.integer)): continue
            x = np.array(x).ravel()
            if len(x) != len(cols): return f"{len(x)} coefficients for {len(cols)} candidates of node {u}" + ctx
            if list(nodes) == sorted(nodes) and any((np.array(A).reshape(len(rows), len(cols)) @ x) % 2 != np.array(b)): return f"wrong odd neighbourhood of the corrections of {u}" + ctx
def replay_gflow(inp, cfg):
    import mentpy as mp
    from mentpy.mbqc.flow import find_gflow
    warnings.simplefilter("ignore")
    d = inp["g"]
    return _rep(cm.edges_of(d), d["nodes"], cfg["I"], cfg["O"], *find_gflow(cm.mk_graph(mp, d), list(cfg["I"]), list(cfg["O"])))
def replay_obj(inp, cfg):
    import mentpy as mp
    from mentpy.mbqc.flow import Flow
    warnings.simplefilter("ignore")
    d = inp["g"]; fl = Flow(cm.mk_graph(mp, d), list(cfg["I"]), list(cfg["O"]))
    if fl.func is None and (fl.layers is not None or fl.partial_order is not None): return "layers reported without flow"
    m = _rep(cm.edges_of(d), d["nodes"], cfg["I"], cfg["O"], fl.func, fl.partial_order, fl.depth, fl.layers_dict, vec=False)
    if m or fl.func is None: return m
    if len(fl.layers) != fl.depth + 1 or sorted(v for l in fl.layers for v in l) != sorted(d["nodes"]): return f"layers {fl.layers}"
    for k, l in enumerate(fl.layers[::-1]):
        if set(l) != {v for v in d["nodes"] if fl.layers_dict[v] == k}: return f"layers {fl.layers} vs {fl.layers_dict}"
