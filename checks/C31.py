"""Clustering is a partition by the equivalence test; expressivity edges point to lower values."""
import itertools, types, warnings, contextlib, io
import numpy as np
import networkx as nx
from checks import common as cm
MODE = "poly"
BOUNDS = {"quick": "every equivalence relation and every symmetric relation on up to 4 nodes (sanity check on, off and default); every real expressivity assignment on every graph of up to 3 nodes and three graphs on 4 nodes; the fidelity density for every fidelity on 1 to 4 qubits; clustering by the real equivalence test of 3 graphs with symbolic edges on 3 vertices",
          "thorough": "relations on up to 5 nodes, every graph of 4 nodes, the density up to 6 qubits, the real test on 4 graphs"}
ASSUMPTIONS = ["the equivalence test is any relation that is symmetric and reflexive (its own correctness is C28)", "expressivity estimates are any real numbers (their distribution is C35)"]
BUDGET = {"quick": 240, "thorough": 850}
LAB = {"int": [0, 1, 2, 3, 4], "rev": [7, 5, 3, 2, 0], "str": ["b", "a", "d", "c", "e"]}
def configs(tier):
    T = tier == "thorough"; out = []
    def add(h, **k): out.append({"name": " ".join([h] + [f"{a}={b}" for a, b in k.items()]), "h": h, "weight": 3 ** k.get("m", 1), **k})
    for m in range(6 if T else 5):
        for lab in LAB:
            for san in (True, False, None): add("cluster", m=m, lab=lab, sanity=san)
        if m < 5:
            for san in (True, None): add("relation", m=m, lab="rev", sanity=san)
    for m in (2, 3) + ((4,) if T else ()):
        for lab in ("int", "rev"): out.append({"name": f"real test m={m} {lab}", "h": "real", "m": m, "lab": lab, "mode": "bits", "weight": 90})
    for m in range(1, 4):
        for lab in LAB:
            for kw in ({}, {"method": "RE"}, {"method": "JS", "n_samples": 5}): add("digraph", m=m, lab=lab, kw=kw)
    for E in ([[0, 1], [1, 2], [2, 3]], [[0, 1], [1, 2], [2, 3], [0, 3]], [[0, 1], [0, 2], [0, 3], [1, 2], [1, 3], [2, 3]]): add("digraph", m=4, lab="rev", kw={}, E=E)
    if T: add("digraph", m=4, lab="int", kw={})
    for n in range(1, 7 if T else 5): add("density", n=n)
    return out
@contextlib.contextmanager
def _patched(names, f):
    import mentpy.utils.expressivity as ex, mentpy.utils.lc_equivalence as lc
    old = []
    for mod in (ex, lc):
        for n in names:
            if hasattr(mod, n): old.append((mod, n, getattr(mod, n))); setattr(mod, n, f)
    try: yield ex
    finally:
        for mod, n, v in old: setattr(mod, n, v)
class Circ:
    def __init__(self, i, g): self.i, self.graph = i, g
class Gr:
    def __init__(self, i): self.i = i
def _cluster(cfg, eq):
    lab = LAB[cfg["lab"]][:cfg["m"]]; G = nx.Graph(); gs = [Gr(i) for i in range(cfg["m"])]
    for i, v in enumerate(lab): G.add_node(v, mbqc_circuit=Circ(i, gs[i]), expr=0.0)
    for a, b in zip(lab, lab[1:]): G.add_edge(a, b)
    def test(a, b): return eq(a.i, b.i), None
    kw = {} if cfg["sanity"] is None else {"sanity_check": cfg["sanity"]}
    with _patched(["are_lc_equivalent"], test) as ex:
        try: r = ex.lc_cluster_flowspace(G, **kw)
        except RuntimeError: return None
    return [[lab.index(v) for v in g] for g in r[0].values()], [[x.i for x in g] for g in r[1].values()], list(r[0]) == list(r[1])
def _partition(c, cfg, m, eq, res, total):
    "res: groups of indices; eq: equivalence; returns conditions with messages"
    from symx import core
    ind, gr, keys = res
    yield keys and ind == gr, "both views agree"
    yield sorted(x for g in ind for x in g) == list(range(m)), "every node is in exactly one group"
    if total and m:
        of = {x: k for k, g in enumerate(ind) for x in g}
        for i, j in itertools.combinations(range(m), 2):
            yield (eq(i, j) if of[i] == of[j] else core.mk_not(eq(i, j))), "two nodes share a group exactly when they are equivalent"
def run_cluster(c, cfg):
    from symx import load, core
    load.load(); m = cfg["m"]; cls = [0] * m; top = 0
    e = {}
    for i in range(m):
        for j in range(i): e[i, j] = e[j, i] = c.bool(f"e{j}{i}")
        e[i, i] = True
    for i, j, k in itertools.permutations(range(m), 3): c.assume(core.mk_implies(core.mk_and(e[i, j], e[j, k]), e[i, k]))
    c.inp("e", [[e[i, j] for j in range(m)] for i in range(m)])
    res = _cluster(cfg, lambda a, b: e[a, b])
    c.check(res is not None, "an equivalence relation passes the sanity check")
    for ok, msg in _partition(c, cfg, m, lambda i, j: e[i, j], res, True): c.check(ok, msg)
def replay_cluster(inp, cfg):
    import mentpy
    m, e = cfg["m"], inp["e"]; res = _cluster(cfg, lambda a, b: bool(e[a][b]))
    if res is None: return "an equivalence relation fails the sanity check"
    ind, gr, keys = res
    if not keys or ind != gr: return f"the views {ind} and {gr} differ"
    if sorted(x for g in ind for x in g) != list(range(m)): return f"groups {ind} are no partition"
    want = sorted({tuple(j for j in range(m) if e[i][j]) for i in range(m)})
    if sorted(tuple(sorted(g)) for g in ind) != want: return f"groups {ind} instead of {want}"
def run_relation(c, cfg):
    "any symmetric reflexive test: a group that is reported is pairwise equivalent"
    from symx import load, core
    load.load(); m = cfg["m"]; e = {}
    for i in range(m):
        for j in range(i): e[i, j] = e[j, i] = c.bool(f"e{j}{i}")
        e[i, i] = True
    c.inp("e", [[e[i, j] for j in range(m)] for i in range(m)])
    res = _cluster(cfg, lambda a, b: e[a, b])
    if res is None: c.check(core.mk_or(*[core.mk_and(e[i, j], e[j, k], core.mk_not(e[i, k])) for i, j, k in itertools.permutations(range(m), 3)], False), "only inconsistent tests are rejected"); return
    for g in res[0]:
        for i, j in itertools.combinations(g, 2): c.check(e[i, j], "with the sanity check, members of a group are pairwise equivalent")
    c.check(set(range(m)) == {x for g in res[0] for x in g}, "every node is in a group")
def replay_relation(inp, cfg):
    import mentpy
    m, e = cfg["m"], inp["e"]; res = _cluster(cfg, lambda a, b: bool(e[a][b]))
    bad = any(e[i][j] and e[j][k] and not e[i][k] for i, j, k in itertools.permutations(range(m), 3))
    if res is None: return None if bad else "an equivalence relation fails the sanity check"
    for g in res[0]:
        for i, j in itertools.combinations(g, 2):
            if not e[i][j]: return f"group {g} has members that are not equivalent"
    if set(range(m)) != {x for g in res[0] for x in g}: return "a node is in no group"
# the real equivalence test on three-vertex graphs: connected graphs are all equivalent, others by their edges
def _lc3(e1, e2, mk):
    A, Or, No, iff = mk
    def conn(e): return Or(A(e[0], e[1]), A(e[0], e[2]), A(e[1], e[2]))
    same = A(*[iff(x, y) for x, y in zip(e1, e2)])
    return Or(same, A(conn(e1), conn(e2)))
P3 = [(0, 1), (0, 2), (1, 2)]
def _graphs(mp, cfg, mkg):
    lab = LAB[cfg["lab"]][:cfg["m"]]; G = nx.Graph()
    for i, v in enumerate(lab): G.add_node(v, mbqc_circuit=Circ(i, mkg(i)))
    return lab, G
def _real(mp, cfg, mkg):
    import mentpy.utils.expressivity as ex
    lab, G = _graphs(mp, cfg, mkg); gs = [G.nodes[v]["mbqc_circuit"].graph for v in lab]
    r = ex.lc_cluster_flowspace(G)
    return [[lab.index(v) for v in g] for g in r[0].values()], [[next(i for i, h in enumerate(gs) if h is x) for x in g] for g in r[1].values()], list(r[0]) == list(r[1])
def run_real(c, cfg):
    from symx import load, core, nxx
    mp = load.load(); m = cfg["m"]; es = {}
    def mkg(i):
        g = nxx.sym_graph(c, mp.GraphState, f"g{i}", [0, 1, 2]); es[i] = [core.mkbool(c.inputs[f"g{i}"].lit(u, v)) for u, v in P3]; return g
    try: res = _real(mp, cfg, mkg)
    except RuntimeError: res = None
    c.check(res is not None, "the real test passes the sanity check")
    mk = (core.mk_and, core.mk_or, core.mk_not, core.mk_iff)
    for ok, msg in _partition(c, cfg, m, lambda i, j: _lc3(es[i], es[j], mk), res, True): c.check(ok, msg)
def replay_real(inp, cfg):
    import mentpy as mp
    es = [[any({u, v} == set(e) for e in inp[f"g{i}"]["edges"]) for u, v in P3] for i in range(cfg["m"])]
    try: ind, gr, keys = _real(mp, cfg, lambda i: cm.mk_graph(mp, inp[f"g{i}"]))
    except RuntimeError as x: return str(x)
    mk = (lambda *a: all(a), lambda *a: any(a), lambda a: not a, lambda a, b: a == b)
    if not keys or ind != gr: return f"the views {ind} and {gr} differ"
    want = sorted({tuple(j for j in range(cfg["m"]) if _lc3(es[i], es[j], mk)) for i in range(cfg["m"])})
    if sorted(tuple(sorted(g)) for g in ind) != want: return f"groups {ind} instead of {want}"
def _digraph(cfg, E, vals):
    lab = LAB[cfg["lab"]][:cfg["m"]]; G = nx.Graph(); cs = [Circ(i, None) for i in range(cfg["m"])]; calls = []
    for v, x in zip(lab, cs): G.add_node(v, mbqc_circuit=x, flow=True)
    for i, j in E: G.add_edge(lab[i], lab[j])
    def expr(circ, n_samples=10000, n_bins=1000, method="KL"):
        calls.append((circ.i, n_samples, n_bins, method)); return vals[circ.i]
    with _patched(["expressivity_with_histogram"], expr) as ex: D = ex.digraph_expressivity_of_flow_space(types.SimpleNamespace(flow_graph_space=G), **cfg["kw"])
    return lab, cs, calls, D
def _static(cfg, E, lab, cs, calls, D):
    kw = cfg["kw"]
    if any(k[1:] != (kw.get("n_samples", 10000), kw.get("n_bins", 1000), kw.get("method", "KL")) for k in calls): return "the requested method and sample numbers are used"
    if not D.is_directed() or sorted(map(str, D.nodes())) != sorted(map(str, lab)): return "the digraph has the nodes of the flow space"
    if any(D.nodes[v]["mbqc_circuit"] is not x for v, x in zip(lab, cs)): return "every node keeps its circuit"
    und = sorted(sorted((lab.index(a), lab.index(b))) for a, b in D.edges())
    if und != sorted(sorted(x) for x in E): return "every edge of the flow graph appears exactly once"
def run_digraph(c, cfg):
    from symx import load, poly, core
    load.load(); m = cfg["m"]; vals = [poly.real(f"x{i}") for i in range(m)]; c.inp("x", vals)
    E = cfg.get("E") or [[i, j] for i, j in itertools.combinations(range(m), 2) if bool(c.bool(f"e{i}{j}"))]; c.inp("E", E)
    lab, cs, calls, D = _digraph(cfg, E, vals)
    msg = _static(cfg, E, lab, cs, calls, D); c.check(msg is None, str(msg))
    for i, v in enumerate(lab): poly.check_eq(c, D.nodes[v]["expr"], vals[i], "every node keeps its value")
    for a, b in D.edges(): c.check(vals[lab.index(a)] >= vals[lab.index(b)], "edges point from the larger to the smaller value")
def replay_digraph(inp, cfg):
    import mentpy
    E = inp["E"]; vals = [float(x) for x in inp["x"]]; lab, cs, calls, D = _digraph(cfg, E, vals)
    m = _static(cfg, E, lab, cs, calls, D)
    if m: return "violated: " + m
    for i, v in enumerate(lab):
        if D.nodes[v]["expr"] != vals[i]: return f"node {v} has value {D.nodes[v]['expr']} instead of {vals[i]}"
    for a, b in D.edges():
        if vals[lab.index(a)] < vals[lab.index(b)]: return f"edge from value {vals[lab.index(a)]} to {vals[lab.index(b)]}"
def run_density(c, cfg):
    from symx import load, poly, core
    load.load(); import mentpy.utils.expressivity as ex
    F = poly.real("F"); c.inp("F", F); c.assume(core.mk_and(F >= 0, F <= 1)); N = 2 ** cfg["n"]
    w = poly.lift(N - 1)
    for _ in range(N - 2): w = w * (1 - F)
    poly.check_eq(c, ex.haar_probability_density_of_fidelities(F, cfg["n"]), w, "the density is (N-1)(1-F)^(N-2)")
def replay_density(inp, cfg):
    import mentpy, mentpy.utils.expressivity as ex
    N = 2 ** cfg["n"]
    for F in (float(inp["F"]), 0.0, 0.3, 0.9, 1.0):
        g, w = ex.haar_probability_density_of_fidelities(F, cfg["n"]), (N - 1) * (1 - F) ** (N - 2)
        if abs(g - w) > 1e-9 * (1 + abs(w)): return f"density {g} instead of {w} at F={F}"
