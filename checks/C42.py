"""Legacy flow search (path cover and suprema): soundness, and completeness for disjoint inputs and outputs."""
import itertools, warnings, contextlib, io
from checks import common as cm
MODE = "bits"
BOUNDS = {"quick": "all graphs with up to 4 nodes, all equally large input/output sets (both orders of the outputs), several insertion orders and labellings (gaps, negative numbers, strings), with and without the final self-check; 5 nodes with two inputs",
          "thorough": "all graphs with 4 nodes and every labelling, all graphs with 5 nodes for every disjoint input/output choice of two nodes and half of the choices of one node"}
ASSUMPTIONS = ["simple graphs", "completeness is claimed when no input is an output (otherwise the search gives up)"]
BUDGET = {"quick": 250, "thorough": 850}
LAB = {"plain": lambda n: list(range(n)), "reversed": lambda n: list(range(n))[::-1], "gaps": lambda n: [3 * k + 1 for k in range(n)], "partial": lambda n: [0, 7, 2, 9, 4][:n], "strings": lambda n: list("cadbe")[:n], "negative": lambda n: [-k for k in range(n)]}
def configs(tier):
    T = tier == "thorough"; out = []
    def add(n, I, O, lab, sc): out.append({"name": f"n={n} I={I} O={O} {lab} check={sc}", "n": n, "I": list(I), "O": list(O), "lab": lab, "sc": sc, "weight": n * n + len(I) + (n == 5) * 20})
    for n in (1, 2, 3, 4):
        for I, O in cm.io_all(n):
            if n == 4 and len(I) == 1 and (I, O) not in cm.io_types(4) and not T and (I[0] + O[0]) % 2: continue
            add(n, I, O, "plain", True)
            if len(I) > 1: add(n, I, O[::-1], "plain", False)
            if n < 4 or T or (I, O) in cm.io_types(4):
                for lab in LAB:
                    if lab != "plain": add(n, I[::-1], O, lab, True)
                add(n, I, O, "gaps", False)
    for I, O in (cm.io_all(5) if T else [([0, 1], [3, 4])]):
        if len(I) > 2 or T and (len(I) == 1 and (I[0] + O[0]) % 2): continue
        if set(I) & set(O): continue
        add(5, I, O, "plain", False)
    add(3, [0, 1], [2], "plain", True)
    return out
def _call(g, I, O, sc):
    from mentpy.mbqc.flow import find_flow
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return find_flow(g, I, O, sanity_check=sc)
def run(c, cfg):
    from symx import nxx, load, core
    mp = load.load()
    L = LAB[cfg["lab"]](cfg["n"]); I, O = [L[v] for v in cfg["I"]], [L[v] for v in cfg["O"]]; i0, o0 = list(I), list(O)
    g = nxx.sym_graph(c, mp.GraphState, "g", L); snap = c.inputs["g"]
    E = lambda u, v: core.mkbool(snap.lit(u, v))
    if len(I) != len(O):
        try: _call(g, I, O, cfg["sc"])
        except ValueError: c.check(True, "sizes rejected"); return
        c.fail("different sizes accepted")
    f, order = _call(g, I, O, cfg["sc"])
    c.check(I == i0 and O == o0, "arguments are kept")
    c.check(list(g.nodes) == L, "the graph is kept")
    for k, u in enumerate(L):
        for v in L[k + 1:]: c.check(core.mk_iff(E(u, v), g.has_edge(u, v)), "the graph is kept")
    if f is None:
        c.check(order is None, "no order without a flow")
        if not set(I) & set(O): c.check(core.mk_not(cm.sym_cflow(c, E, L, I, O)), "a flow exists but none was found")
        return
    im = []
    for u in L:
        for v in L:
            if u != v: c.check(not (order(u, v) and order(v, u)), "the order is antisymmetric")
            for w in L:
                if order(u, v) and order(v, w): c.check(order(u, w), "the order is transitive")
        if u in O: continue
        v = f(u)
        c.check(v in L and v not in im and v not in I, "images are distinct non-inputs"); im.append(v)
        c.check(E(u, v), "image is a neighbour"); c.check(order(u, v), "node precedes its image")
        for w in L:
            if w != u: c.check(core.mk_or(core.mk_not(E(v, w)), order(u, w)), "node precedes the other neighbours of its image")
def replay(inp, cfg):
    import mentpy as mp
    d = inp["g"]; L = LAB[cfg["lab"]](cfg["n"]); I, O = [L[v] for v in cfg["I"]], [L[v] for v in cfg["O"]]
    g = cm.mk_graph(mp, d); E = {frozenset(e) for e in g.edges()}; who = f"edges {list(g.edges())}, I={I}, O={O}"
    if len(I) != len(O):
        try: _call(g, I, O, cfg["sc"])
        except ValueError: return None
        return "different sizes accepted"
    i0, o0 = list(I), list(O)
    try: f, order = _call(g, I, O, cfg["sc"])
    except BaseException as e: return f"{type(e).__name__}: {e} ({who})"
    if I != i0 or O != o0 or list(g.nodes) != L or {frozenset(e) for e in g.edges()} != E: return "arguments modified"
    if f is None: return f"no flow found although there is one ({who})" if not set(I) & set(O) and cm.has_cflow(E, L, I, O) else None if order is None else "order without flow"
    im = []
    for u in L:
        for v in L:
            if u != v and order(u, v) and order(v, u): return f"order is not antisymmetric ({who})"
            for w in L:
                if order(u, v) and order(v, w) and not order(u, w): return f"order is not transitive ({who})"
        if u in O: continue
        v = f(u)
        if v not in L or v in im or v in I or not g.has_edge(u, v) or not order(u, v) or not all(order(u, w) for w in g.neighbors(v) if w != u): return f"{u} -> {v} violates the flow conditions ({who})"
        im.append(v)
