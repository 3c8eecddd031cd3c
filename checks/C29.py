"""Flow space: every graph once, flow split, single-edge adjacency."""
import itertools, warnings, contextlib, io
from checks import common as cm
MODE = "bits"
BOUNDS = {"quick": "2 and 3 nodes with every ordered input/output choice, 4 nodes with one choice per cardinality type, the given circuit's own edges symbolic; membership, flow and adjacency are decided for a symbolic pair of edge sets",
          "thorough": "the same with every input/output choice on 4 nodes (inputs in both orders) and 5 nodes for six choices (two edges of the given circuit symbolic)"}
ASSUMPTIONS = ["equally many inputs and outputs (other circuits cannot be constructed)", "circuits on the nodes 0..n-1"]
BUDGET = {"quick": 240, "thorough": 850}
def configs(tier):
    T = tier == "thorough"; out = []
    def add(n, I, O, **k): out.append({"name": f"n={n} I={list(I)} O={list(O)}", "n": n, "I": list(I), "O": list(O), "weight": n * 3, **k})
    for n in (2, 3):
        for a in range(1, n + 1):
            for I in itertools.permutations(range(n), a):
                for O in itertools.permutations(range(n), a):
                    if n < 3 or a < 3 or I == (0, 1, 2) or O == (0, 1, 2): add(n, I, O)
    if T:
        for a in (1, 2, 3):
            for I in itertools.combinations(range(4), a):
                for O in itertools.combinations(range(4), a): add(4, I, O[::-1]) if sum(I) % 2 else add(4, I[::-1], O)
        for I, O in (([0], [4]), ([3], [1]), ([1, 0], [3, 4]), ([0, 2], [4, 2]), ([2, 1, 0], [2, 3, 4]), ([4, 0, 1], [0, 1, 2])): add(5, I, O, qtimeout=150000, weight=90)
    else:
        for I, O in cm.io_types(4): add(4, I[::-1], O)
    for n in (8, 9): out.append({"name": f"limit n={n}", "h": "limit", "n": n})
    return out
def _q(f):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore"); return f()
def _space(mp, g, cfg, **k):
    from mentpy.utils import flow_space as fs
    mc = _q(lambda: mp.MBQCircuit(g, input_nodes=list(cfg["I"]), output_nodes=list(cfg["O"])))
    return _q(lambda: fs.FlowSpace(mc, **k))
def _table(sp, cfg):
    "concrete: index -> (edge set, flow flag); returns a message or the table"
    n = cfg["n"]; T = {}; tot = sp.total_graph_space
    for i, d in tot.nodes(data=True):
        mc = d["mbqc_circuit"]; gr = mc.graph
        if sorted(gr.nodes()) != list(range(n)): return "stored circuits have the given nodes"
        if list(mc.input_nodes) != cfg["I"] or list(mc.output_nodes) != cfg["O"]: return "stored circuits carry the given inputs and outputs"
        if bool(d["flow"]) != (mc.flow is not None): return "the flag agrees with the stored circuit"
        E = frozenset(frozenset(map(int, e)) for e in gr.edges())
        if mc.flow is not None and cm.is_cflow(E, range(n), cfg["I"], cfg["O"], mc.flow, mc.partial_order): return "graphs flagged with flow have one"
        T[i] = (E, bool(d["flow"]))
    wf, wo = sp.flow_graph_space, sp.no_flow_graph_space
    if set(wf.nodes()) != {i for i in T if T[i][1]} or set(wo.nodes()) != {i for i in T if not T[i][1]}: return "the parts are split by flow"
    for s in (wf, wo):
        if {frozenset(e) for e in s.edges()} != {frozenset(e) for e in tot.edges() if set(e) <= set(s.nodes())}: return "the parts keep the adjacency"
        if any(s.nodes[i].get("mbqc_circuit") is not tot.nodes[i]["mbqc_circuit"] for i in s.nodes()): return "the parts keep the circuits"
    if sp.number_nodes != n or list(sp.input_nodes) != cfg["I"] or list(sp.output_nodes) != cfg["O"]: return "the space keeps the given inputs and outputs"
    return T
def run(c, cfg):
    from symx import nxx, load, core
    A, Or, No, X = core.mk_and, core.mk_or, core.mk_not, core.mk_xor
    mp = load.load(); n = cfg["n"]; N = range(n); P = [frozenset(p) for p in itertools.combinations(N, 2)]
    g = nxx.sym_graph(c, mp.GraphState, "g", list(N)[::-1] if sum(cfg["I"]) % 2 else list(N), **({"pairs": [(0, 1), (1, 4)]} if n == 5 else {}))
    sp = _space(mp, g, cfg, **({"allow_any_size_graphs": True} if len(cfg["I"]) % 2 else {}))
    T = _table(sp, cfg); c.check(not isinstance(T, str), str(T) if isinstance(T, str) else "table")
    e, f = ({p: c.bool(f"{nm}{tuple(sorted(p))}") for p in P} for nm in "ef")
    for nm, d in (("e", e), ("f", f)): c.inp(nm, [[*sorted(p), d[p]] for p in P])
    is_ = lambda d, E: A(*[d[p] if p in E else No(d[p]) for p in P])
    me = {i: is_(e, E) for i, (E, fl) in T.items()}
    c.check(Or(*me.values()), "every labelled graph occurs")
    ix = list(T)
    c.check(len(T) == len({E for E, fl in T.values()}), "every labelled graph occurs once")
    flag = Or(*[me[i] for i in ix if T[i][1]])
    c.check(No(A(No(flag), cm.sym_cflow(c, lambda u, v: e[frozenset((u, v))] if u != v else False, N, cfg["I"], cfg["O"]))), "graphs with a causal flow are in the flow part")
    D = {p: X(e[p], f[p]) for p in P}; by = {}
    for a, b in sp.total_graph_space.edges():      # adjacency, grouped by the edges that differ
        for i in (a, b): by.setdefault(T[a][0] ^ T[b][0], set()).add(i)
    adj = Or(*[A(is_(D, x), Or(*[me[i] for i in sorted(s)])) for x, s in by.items()])
    d = list(D.values())
    one = A(Or(*d), *[No(A(x, y)) for x, y in itertools.combinations(d, 2)])
    if n < 5: c.check(core.mk_iff(adj, one), "two graphs are adjacent exactly when they differ in one edge"); return
    c.check(core.mk_implies(adj, one), "adjacent graphs differ in one edge")
    for p in P: c.check(core.mk_implies(A(*[D[q] if q == p else No(D[q]) for q in P]), adj), "graphs that differ in one edge are adjacent")
def replay(inp, cfg):
    import mentpy as mp
    n = cfg["n"]; sp = _space(mp, cm.mk_graph(mp, inp["g"]), cfg, **({"allow_any_size_graphs": True} if len(cfg["I"]) % 2 else {}))
    T = _table(sp, cfg)
    if isinstance(T, str): return T
    ctx = f" (I={cfg['I']}, O={cfg['O']})"
    es = [frozenset(frozenset((u, v)) for u, v, b in inp[k] if b) for k in "ef"]
    if len({E for E, fl in T.values()}) != len(T) or len(T) != 2 ** (n * (n - 1) // 2): return f"{len(T)} graphs, {len({E for E, fl in T.values()})} different"
    w = [next(i for i in T if T[i][0] == x) for x in es]
    for i, x in zip(w, es):
        if T[i][1] != (cm.has_cflow(x, range(n), cfg["I"], cfg["O"]) is not None): return f"flow of {sorted(map(sorted, x))} is reported as {T[i][1]}" + ctx
    if sp.total_graph_space.has_edge(*w) != (len(es[0] ^ es[1]) == 1): return f"adjacency of {sorted(map(sorted, es[0]))} and {sorted(map(sorted, es[1]))}" + ctx
class Stop(Exception): pass
def _limit(mp, g, n):
    from mentpy.utils import flow_space as fs
    def stop(*a, **k): raise Stop
    mc = _q(lambda: mp.MBQCircuit(g, input_nodes=[0], output_nodes=[n - 1]))
    old = fs.FlowSpace.all_graphs_graph; fs.FlowSpace.all_graphs_graph = stop
    try:
        try: _q(lambda: fs.FlowSpace(mc)); return "accepted"
        except Stop: return "a size above the limit is enumerated"
        except (UserWarning, ValueError): pass
        try: _q(lambda: fs.FlowSpace(mc, allow_any_size_graphs=True)); return "allowed sizes are not enumerated"
        except Stop: return None
        except (UserWarning, ValueError): return "a size above the limit is rejected although it was allowed"
    finally: fs.FlowSpace.all_graphs_graph = old
def run_limit(c, cfg):
    from symx import nxx, load
    mp = load.load(); n = cfg["n"]
    g = nxx.sym_graph(c, mp.GraphState, "g", list(range(n)), pairs=[(0, n - 1), (1, 2)])
    m = _limit(mp, g, n); c.check(m is None, str(m))
def replay_limit(inp, cfg):
    import mentpy as mp
    return _limit(mp, cm.mk_graph(mp, inp["g"]), cfg["n"])
