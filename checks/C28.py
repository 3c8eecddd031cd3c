"""Local-Clifford equivalence test: soundness and completeness."""
import itertools
import numpy as np
from checks import common as cm
MODE = "bits"
BOUNDS = {"quick": "all pairs of graphs with up to 4 nodes (any insertion orders), graph objects and circuits, both output forms; one connected graph on 5 nodes against all graphs",
          "thorough": "all pairs of graphs with up to 4 nodes; 12 graphs on 5 nodes (the connected orbit representatives and their complements) against all graphs on 5 nodes"}
ASSUMPTIONS = ["the returned matrices act on (z, x) columns, as in the cited reference", "empty graphs are excluded (reported as inequivalent)"]
BUDGET = {"quick": 240, "thorough": 850}
G5 = {"star": [[0, 1], [0, 2], [0, 3], [0, 4]], "path": [[0, 1], [1, 2], [2, 3], [3, 4]], "ring": [[0, 1], [1, 2], [2, 3], [3, 4], [4, 0]], "fork": [[0, 1], [1, 2], [2, 3], [2, 4]],
      "path4": [[3, 0], [0, 2], [2, 4]], "triangle edge": [[0, 3], [3, 4], [4, 0], [1, 2]], "complete": [[a, b] for a, b in itertools.combinations(range(5), 2)], "empty": [], "house": [[0, 1], [1, 2], [2, 3], [3, 4], [4, 0], [1, 4]],
      "bull": [[0, 1], [0, 2], [1, 2], [1, 3], [2, 4]], "two edges": [[0, 4], [1, 3]], "K23": [[a, b] for a in (0, 1) for b in (2, 3, 4)]}
def configs(tier):
    T = tier == "thorough"; out = []
    for n in (1, 2, 3): out.append({"name": f"pairs n={n}", "n": n, "pre": [], "weight": n})
    for pre in itertools.product((0, 1), repeat=5 if not T else 5): out.append({"name": f"pairs n=4, first edges {pre}", "n": 4, "pre": list(pre), "weight": 6, "order": [2, 0, 3, 1] if sum(pre) % 2 else [0, 1, 2, 3]})
    for nm in (list(G5) if T else ["ring"]):
        for pre in itertools.product((0, 1), repeat=3): out.append({"name": f"{nm} against all, first edges {pre}", "n": 5, "fix": nm, "pre": list(pre), "weight": 8})
    for n in (1, 2, 3): out.append({"name": f"circuits n={n}", "n": n, "pre": [], "circ": True, "weight": n})
    for n, m in ((1, 2), (2, 3), (3, 2), (4, 3)): out.append({"name": f"sizes {n},{m}", "h": "sizes", "n": [n, m]})
    return out
def _prob(mp, g, h, cfg, form):
    from mentpy.utils import lc_equivalence as lc
    return lc.are_lc_equivalent(g, h, clifford_form=form) if form else lc.are_lc_equivalent(g, h)
def _parts(res, glob, n):
    "the four diagonals"
    t = [[int(x) for x in (res[i][0][0], res[i][0][1], res[i][1][0], res[i][1][1])] for i in range(n)]
    G = np.array(glob).astype(int)
    W = np.zeros((2 * n, 2 * n), dtype=int)
    for i in range(n):
        W[i, i], W[i, n + i], W[n + i, i], W[n + i, n + i] = t[i]
    return t, (G.shape == W.shape and (G == W).all())
def run(c, cfg):
    from symx import nxx, load, core
    mp = load.load(); n = cfg["n"]; N = list(range(n))
    A, X, No = core.mk_and, core.mk_xor, core.mk_not
    if "fix" in cfg: g = cm.mk_graph(mp, {"nodes": N, "edges": G5[cfg["fix"]]}); e = {frozenset(x) for x in G5[cfg["fix"]]}; EG = lambda u, v: frozenset((u, v)) in e
    else:
        g = nxx.sym_graph(c, mp.GraphState, "g", N); s = c.inputs["g"]; EG = lambda u, v: core.mkbool(s.lit(u, v)) if u != v else False
    h = nxx.sym_graph(c, mp.GraphState, "h", cfg.get("order", N)); sh = c.inputs["h"]; EH = lambda u, v: core.mkbool(sh.lit(u, v)) if u != v else False
    pairs = [(EH, p) for p in itertools.combinations(N, 2)] + [(EG, p) for p in itertools.combinations(N, 2)]
    for (E, p), b in zip(pairs, cfg["pre"]): c.assume(E(*p) if b else No(E(*p)))
    G, H = g, h
    if cfg.get("circ"): G, H = (mp.MBQCircuit(x, input_nodes=[0], output_nodes=[n - 1]) for x in (g, h))
    yes, cl = _prob(mp, G, H, cfg, None); y2, gl = _prob(mp, G, H, cfg, "global")
    c.check(bool(yes) == bool(y2), "the answer does not depend on the output form")
    if yes:
        t, same = _parts(cl, gl, n)
        c.check(same, "both output forms are the same operation")
        c.check(all((a * d + b * e) % 2 == 1 and {a, b, e, d} <= {0, 1} for a, b, e, d in t), "every factor is a Clifford")
        # columns of Q (theta_G ; 1) satisfy z = theta_H x
        for j in N:
            for k in N:
                z = X(A(bool(t[k][0]), EG(k, j)), bool(t[k][1] and j == k))
                w = X(*[A(EH(k, i), X(A(bool(t[i][2]), EG(i, j)), bool(t[i][3] and i == j))) for i in N if i != k]) if n > 1 else False
                c.check(No(X(z, w)), "the returned Clifford maps the first graph state to the second")
    else:
        q = {(k, i): c.bool(f"q{k}({i})") for k in "abcd" for i in N}
        cs = [X(A(q["a", i], q["d", i]), A(q["b", i], q["c", i])) for i in N]
        for j in N:
            for k in N:
                z = X(A(q["a", k], EG(k, j)), A(q["b", k], j == k))
                w = X(*[A(EH(k, i), X(A(q["c", i], EG(i, j)), A(q["d", i], i == j))) for i in N if i != k]) if n > 1 else False
                cs.append(No(X(z, w)))
        c.check(No(A(*cs)), "inequivalent graphs are related by no local Clifford")
INV = [m for m in itertools.product((0, 1), repeat=4) if (m[0] * m[3] + m[1] * m[2]) % 2]
def _maps(t, TG, TH):
    n = len(TG); d = lambda k: np.diag([x[k] for x in t])
    return not ((d(0) @ TG + d(1) - TH @ (d(2) @ TG + d(3))) % 2).any()
def replay(inp, cfg):
    import mentpy as mp
    n = cfg["n"]; N = list(range(n))
    g = {"nodes": N, "edges": G5[cfg["fix"]]} if "fix" in cfg else inp["g"]; h = inp["h"]
    M = []
    for d in (g, h):
        m = np.zeros((n, n), dtype=int)
        for u, v in d["edges"]: m[u, v] = m[v, u] = 1
        M.append(m)
    G, H = cm.mk_graph(mp, g), cm.mk_graph(mp, h)
    if cfg.get("circ"): G, H = (mp.MBQCircuit(x, input_nodes=[0], output_nodes=[n - 1]) for x in (G, H))
    yes, cl = _prob(mp, G, H, cfg, None); y2, gl = _prob(mp, G, H, cfg, "global")
    ctx = f" (edges {g['edges']} and {h['edges']})"
    if bool(yes) != bool(y2): return "answer depends on the output form" + ctx
    if yes:
        t, same = _parts(cl, gl, n)
        if not same: return "output forms differ" + ctx
        if any((a * d + b * e) % 2 != 1 for a, b, e, d in t): return f"not a Clifford: {t}" + ctx
        if not _maps(t, *M): return f"the returned operation {t} does not map one state to the other" + ctx
    else:
        for t in itertools.product(INV, repeat=n):
            if _maps(t, *M): return f"reported inequivalent, but {t} maps one state to the other" + ctx
def run_sizes(c, cfg):
    from symx import nxx, load
    mp = load.load()
    g, h = (nxx.sym_graph(c, mp.GraphState, x, list(range(n))) for x, n in zip("gh", cfg["n"]))
    for f in (None, "global"):
        r = _prob(mp, g, h, cfg, f); c.check(not r[0] and r[1] is None, "graphs of different sizes are inequivalent")
def replay_sizes(inp, cfg):
    import mentpy as mp
    for f in (None, "global"):
        r = _prob(mp, cm.mk_graph(mp, inp["g"]), cm.mk_graph(mp, inp["h"]), cfg, f)
        if r[0] or r[1] is not None: return "graphs of different sizes reported equivalent"
