"""The flow checker: yes exactly when the flow conditions hold."""
import itertools, contextlib, io
from checks import common as cm
MODE = "bits"; MERGE = True
BOUNDS = {"quick": "all graphs with up to 3 nodes and every output set, 4 nodes with two and three outputs: every map from measured nodes to nodes, every relation as order (one bit per ordered pair)",
          "thorough": "all graphs with 4 nodes and every output set, 5 nodes with three or four outputs; several insertion orders"}
ASSUMPTIONS = ["simple graphs"]
BUDGET = {"quick": 200, "thorough": 850}
def configs(tier):
    T = tier == "thorough"; out = []
    for n in (1, 2, 3, 4) + ((5,) if T else ()):
        for k in range(n + 1):
            if n == 4 and k < (1 if T else 2) or n == 5 and k < 3: continue
            for O in itertools.combinations(range(n), k):
                if n == 4 and not T and O not in ((2, 3), (0, 3), (1, 2, 3)): continue
                if n == 5 and O not in ((2, 3, 4), (0, 2, 4), (1, 2, 3, 4)): continue
                meas = [v for v in range(n) if v not in O]
                for f0 in (range(n) if n > 3 and meas else (None,)):
                    out.append({"name": f"n={n} O={O} f0={f0}", "n": n, "O": list(O), "f0": f0, "weight": n * 3 + len(meas)})
    return out
def run(c, cfg):
    from symx import load, nxx, core
    mp = load.load(); n, O = cfg["n"], cfg["O"]; meas = [v for v in range(n) if v not in O]
    from mentpy.mbqc.flow import check_if_flow as check
    f = {v: c.choose(f"f{v}", list(range(n))) if k or cfg["f0"] is None else cfg["f0"] for k, v in enumerate(meas)}; c.inp("f", {str(v): w for v, w in f.items()})
    P = {(i, j): c.bool(f"p({i},{j})") for i in range(n) for j in range(n)}; c.inp("P", [[P[i, j] for j in range(n)] for i in range(n)])
    g = nxx.sym_graph(c, mp.GraphState, "g", list(range(n))[::-1])
    with contextlib.redirect_stdout(io.StringIO()): got = check(g, [0], list(O), lambda v: f[v], lambda u, v: P[u, v])
    want = []
    for u in meas:
        want += [g.has_edge(u, f[u]), P[u, f[u]]]
        want += [core.mk_or(core.mk_not(g.has_edge(f[u], w)), P[u, w]) for w in range(n) if w != u]
    c.check(core.mk_iff(got != 0, core.mk_and(*want)), "the checker accepts exactly the maps that satisfy the flow conditions")
def replay(inp, cfg):
    import mentpy as mp
    from mentpy.mbqc.flow import check_if_flow
    n, O = cfg["n"], cfg["O"]; f = {int(k): v for k, v in inp["f"].items()}; P = inp["P"]; g = cm.mk_graph(mp, inp["g"])
    with contextlib.redirect_stdout(io.StringIO()): got = bool(check_if_flow(g, [0], list(O), lambda v: f[v], lambda u, v: bool(P[u][v])))
    want = all(g.has_edge(u, f[u]) and P[u][f[u]] and all(P[u][w] for w in g.neighbors(f[u]) if w != u) for u in f)
    if got != want: return f"map {f} with the order {P} on {list(g.edges())}: checker says {got}"
