"""Building a circuit preserves graph, roles, measurements and flow under relabelling."""
import itertools, contextlib, io
from checks import common as cm
MODE = "bits"
BOUNDS = {"quick": "all graphs with up to 3 nodes, every insertion order and several label sets (contiguous, gaps, negative), every ordered choice of equally many inputs and outputs; 4 nodes with representative choices; every measurement map over {absent, none, X, fixed XY, trainable YZ, controlled} on two nodes; user-supplied flow with every strict partial order and measurement order on up to 3 nodes; relabelling on and off; invalid nodes and values",
          "thorough": "4 nodes with every insertion order and every ordered choice of inputs and outputs; measurement maps on three nodes; user-supplied partial orders on 4 nodes"}
ASSUMPTIONS = ["integer labels"]
BUDGET = {"quick": 250, "thorough": 850}
LABELS = {1: [[0], [4], [-2]], 2: [[0, 1], [1, 0], [7, 3]], 3: [[0, 1, 2], [2, 0, 1], [1, 2, 0], [10, 3, 7], [5, -1, 2], [3, 2, 1]], 4: [[0, 1, 2, 3], [2, 0, 3, 1], [9, 1, 4, 2], [-3, 6, 0, 1]]}
KINDS = ["absent", "none", "X", "XYf", "YZ", "ctl"]
def configs(tier):
    T = tier == "thorough"; out = []
    for n in range(1, 5):
        labs = LABELS[n] if n < 4 or not T else LABELS[4] + [list(p) for p in itertools.permutations([8, 1, 5, 2]) if p[0] > p[1]]
        for lab in labs:
            for rl in (True, False):
                ios = []
                for a in range(1, n + 1):
                    for I in itertools.permutations(range(n), a):
                        for O in itertools.permutations(range(n), a): ios.append((list(I), list(O)))
                if n == 3 and not T: ios = [io_ for k, io_ in enumerate(ios) if len(io_[0]) < 3 or io_[0] == [0, 1, 2] or io_[1] == [2, 0, 1]]
                if n == 3 and lab not in ([2, 0, 1], [10, 3, 7]) and not T: ios = ios[len(lab)::7]
                if n == 4: ios = [([0], [3]), ([2], [0]), ([0, 1], [3, 2]), ([2, 0], [0, 1]), ([1, 2], [2, 1]), ([2, 0, 1], [3, 2, 0])] if not T else ios[::5] if lab in LABELS[4] else [([2, 0], [0, 1]), ([0], [3])]
                B = 8
                for k in range(0, len(ios), B): out.append({"name": f"n={n} labels={lab} relabel={rl} io {k}", "h": "graph", "n": n, "lab": lab, "rl": rl, "ios": ios[k:k + B], "weight": n})
    for n in (2, 3) + ((4,) if T else ()):
        for lab in (LABELS[n][1:3] + LABELS[n][3:5] if n == 3 else LABELS[n][1:3]):
            for rl in (True, False):
                for I, O in [([0], [n - 1]), ([n - 1], [0]), ([1], [1])] + ([([0, 2], [2, 1])] if n > 2 else []):
                    for d in (None, "Y"):
                        out.append({"name": f"measurements n={n} labels={lab} relabel={rl} I={I} O={O} default={d}", "h": "ments", "n": n, "lab": lab, "rl": rl, "I": I, "O": O, "d": d, "k": min(n, 3 if T else 2), "weight": n})
    for n in (1, 2, 3) + ((4,) if T else ()):
        for lab in LABELS[n] if n < 4 else LABELS[4][1:3]:
            for rl in (True, False):
                for I in ([[]] if n == 4 else [[], [n - 1], [0]]):
                    out.append({"name": f"user flow n={n} labels={lab} relabel={rl} I={I}", "h": "order", "n": n, "lab": lab, "rl": rl, "I": I, "weight": 2 * n})
    for rl in (True, False):
        for w in ("input", "output", "measured node", "value", "default"): out.append({"name": f"rejects {w} relabel={rl}", "h": "reject", "what": w, "rl": rl})
    return out
def _q(f):
    with contextlib.redirect_stdout(io.StringIO()): return f()
def _map(cfg):
    lab = cfg["lab"]
    return {v: sorted(lab).index(v) if cfg["rl"] else v for v in lab}
def _shape(c, mp, mc, g, edge, cfg, I, O):
    m = _map(cfg); lab = cfg["lab"]
    c(sorted(mc.graph.nodes()) == sorted(m.values()), "nodes are renamed in increasing label order")
    for u, v in itertools.combinations(lab, 2): c.eq(mc.graph.has_edge(m[u], m[v]), edge(u, v), "adjacency follows the renaming")
    c(all(not mc.graph.has_edge(v, v) for v in m.values()), "no loops appear")
    c(list(mc.input_nodes) == [m[i] for i in I] and list(mc.output_nodes) == [m[o] for o in O], "inputs and outputs follow the renaming, in order")
class Chk:
    "symbolic assertions"
    def __init__(self, c):
        from symx import core
        self.c, self.core = c, core
    def __call__(self, ok, msg): self.c.check(ok, msg)
    def eq(self, a, b, msg): self.c.check(self.core.mk_iff(a, b), msg)
class Bad(Exception): pass
class CChk:
    def __call__(self, ok, msg):
        if not ok: raise Bad(msg)
    def eq(self, a, b, msg): self(bool(a) == bool(b), msg)
def _graph_of(mp, d): return cm.mk_graph(mp, d)
def _graph(chk, mp, g, edge, cfg, io_):
    lab = cfg["lab"]; I, O = [lab[i] for i in io_[0]], [lab[i] for i in io_[1]]
    I0, O0 = list(I), list(O)
    mc = _q(lambda: mp.MBQCircuit(g, input_nodes=I, output_nodes=O, relabel_indices=cfg["rl"]))
    _shape(chk, mp, mc, g, edge, cfg, I0, O0); m = _map(cfg)
    chk(I == I0 and O == O0 and list(g.nodes()) == lab, "arguments unchanged")
    for u, v in itertools.combinations(lab, 2): chk.eq(g.has_edge(u, v), edge(u, v), "the caller's graph is unchanged")
    for v in lab:
        x = mc[m[v]]
        chk(x is None if v in O0 else x is not None and x.plane == "XY" and x.angle is None, "default measurements on non-outputs, none on outputs")
        chk(x is None or x.node_id == m[v], "measurements know their node")
    f, po = mc.flow, mc.partial_order
    chk((f is None) == (po is None), "flow and order come together")
    if f is None: return
    E = lambda u, v: edge(*[k for k in lab if m[k] == u], *[k for k in lab if m[k] == v])
    ims = []
    for v in lab:
        if v in O0: continue
        y = f(m[v]); ims.append(y); chk(y in m.values() and y not in [m[i] for i in I0], "flow maps to a non-input of the renamed graph")
        chk.eq(E(m[v], y), True, "flow maps to a neighbour in the renamed graph"); chk(po(m[v], y), "order agrees with the flow")
    chk(len(set(ims)) == len(ims), "flow is injective")
    mo = list(mc.measurement_order); chk(sorted(mo) == sorted(m.values()), "the measurement order lists the renamed nodes")
    for i, j in itertools.combinations(range(len(mo)), 2): chk(not po(mo[j], mo[i]), "the measurement order respects the order")
def run_graph(c, cfg):
    from symx import nxx, load, core
    mp = load.load(); g = nxx.sym_graph(c, mp.GraphState, "g", cfg["lab"]); snap = c.inputs["g"]
    io_ = c.choose("io", cfg["ios"]); c.inp("io", io_)
    _graph(Chk(c), mp, g, lambda u, v: core.mkbool(snap.lit(u, v)), cfg, io_)
def replay_graph(inp, cfg):
    import mentpy as mp
    d = inp["g"]; E = cm.edges_of(d)
    try: _graph(CChk(), mp, _graph_of(mp, d), lambda u, v: frozenset((u, v)) in E, cfg, inp["io"])
    except Bad as e: return f"{e} (graph {d}, inputs/outputs {inp['io']})"
def _mk(mp, kind, other):
    if kind == "none": return None
    if kind == "XYf": return mp.Ment(0.5, "XY")
    if kind == "ctl": return mp.ControlMent(other.outcome, 0.25, "XY", None, "XY")
    return mp.Ment(kind)
def _ments(chk, mp, cfg, choose, bits):
    lab = cfg["lab"]; m = _map(cfg); n = cfg["n"]; I, O = [lab[i] for i in cfg["I"]], [lab[i] for i in cfg["O"]]
    g = mp.GraphState(); g.add_nodes_from(lab); g.add_edges_from(zip(sorted(lab), sorted(lab)[1:]))
    plan = {}
    for k in range(cfg["k"]):
        v = lab[(k + (cfg["I"][0])) % n]; plan[v] = choose(f"m{k}", KINDS)
    src = mp.Ment("XY"); ctl = [v for v, k in plan.items() if k == "ctl"]
    ms = {}
    for v, k in plan.items():
        if k == "absent": continue
        read = next(u for u in lab if u != v); o = mp.Ment("XY"); o.node_id = read
        ms[v] = _mk(mp, k, o)
    snap = {v: (x, None if x is None else x.node_id, None if x is None else (x._plane, x._angle)) for v, x in ms.items()}
    kw = {} if cfg["d"] is None else {"default_measurement": mp.Ment(cfg["d"])}
    # reading a node that must come later is a cyclic control; those are out of scope
    mc = _q(lambda: mp.MBQCircuit(g, input_nodes=list(I), output_nodes=list(O), measurements=ms, relabel_indices=cfg["rl"], **kw))
    E = {frozenset(p) for p in zip(sorted(lab), sorted(lab)[1:])}
    _shape(chk, mp, mc, g, lambda u, v: frozenset((u, v)) in E, cfg, I, O)
    chk(set(mc.measurements) == set(m.values()), "every node has an entry")
    for v in lab:
        x = mc[m[v]]; k = plan.get(v, "absent")
        if k == "absent": k = "none" if v in O else (cfg["d"] or "XY")
        if k == "none": chk(x is None, "no measurement where none is given or on outputs"); continue
        chk(x is not None and isinstance(x, mp.ControlMent) == (k == "ctl"), "each measurement stays on its node")
        chk(x.node_id == m[v], "each measurement knows its node")
        if k == "ctl":
            read = next(u for u in lab if u != v)
            chk(set(x.condition.cond_nodes) == {m[read]}, "conditions read the renamed node")
            chk.eq(x.condition(bits(m)), bits(m)[m[read]], "conditions evaluate on the renamed node")
        else: chk((x.plane, x.angle) == {"X": ("X", 0), "Y": ("Y", 0), "XYf": ("XY", 0.5), "YZ": ("YZ", None), "XY": ("XY", None)}[k], "each measurement keeps plane and angle")
    chk(set(ms) == set(snap) and all(ms[v] is s[0] for v, s in snap.items()), "the measurement map is unchanged")
    chk(all(x is None or (x.node_id == i and (x._plane, x._angle) == p) for x, i, p in snap.values()), "the caller's measurements are unchanged")
def run_ments(c, cfg):
    from symx import load, core
    mp = load.load(); ch = {}; c.inp("ch", ch)
    def choose(n, o): ch[n] = r = c.choose(n, o); return r
    bs = {v: c.bool(f"b{v}") for v in cfg["lab"]}; c.inp("bits", [bs[v] for v in cfg["lab"]])
    B = {v: (core.SymInt([core.tolit(b), core.F]) if core.is_sym(b) else int(b)) for v, b in bs.items()}
    _ments(Chk(c), mp, cfg, choose, lambda m: {m[v]: B[v] for v in cfg["lab"]})
def replay_ments(inp, cfg):
    import mentpy as mp
    B = dict(zip(cfg["lab"], [int(b) for b in inp["bits"]]))
    try: _ments(CChk(), mp, cfg, lambda n, o: inp["ch"].get(n, o[0]), lambda m: {m[v]: B[v] for v in cfg["lab"]})
    except Bad as e: return f"{e} ({inp['ch']})"
def _order(chk, mp, cfg, P, f, mo):
    lab = cfg["lab"]; m = _map(cfg); g = mp.GraphState(); g.add_nodes_from(lab); g.add_edges_from(zip(lab, lab[1:]))
    I = [lab[i] for i in cfg["I"]]
    po = lambda u, v: P[u, v]
    kw = {} if mo is None else {"measurement_order": list(mo)}
    mc = _q(lambda: mp.MBQCircuit(g, input_nodes=list(I), output_nodes=list(I), flow=lambda v: f[v], partial_order=po, relabel_indices=cfg["rl"], **kw))
    for u in lab:
        chk(mc.flow(m[u]) == m[f[u]], "the supplied flow follows the renaming")
        for v in lab: chk.eq(mc.partial_order(m[u], m[v]), P[u, v], "the supplied order follows the renaming")
    got = list(mc.measurement_order)
    if mo is not None: chk(got == [m[v] for v in mo], "the supplied measurement order follows the renaming")
    else:
        chk(sorted(got) == sorted(m.values()), "the measurement order lists every node")
        inv = {b: a for a, b in m.items()}
        for i, j in itertools.combinations(range(len(got)), 2): chk.eq(P[inv[got[j]], inv[got[i]]], False, "the measurement order respects the supplied order")
def run_order(c, cfg):
    from symx import load, core
    mp = load.load(); lab = cfg["lab"]; n = len(lab); P = {(u, v): (c.bool(f"p({u},{v})") if u != v else False) for u in lab for v in lab}
    for u in lab:
        for v in lab:
            if u == v: continue
            c.assume(core.mk_not(core.mk_and(P[u, v], P[v, u])))
            for w in lab:
                if w not in (u, v): c.assume(core.mk_implies(core.mk_and(P[u, v], P[v, w]), P[u, w]))
    c.inp("P", [[P[u, v] for v in lab] for u in lab])
    fi = c.choose("f", [list(p) for p in itertools.permutations(range(n))][:6]); c.inp("f", fi)
    mo = c.choose("mo", [None, [lab[i] for i in range(n)], [lab[i] for i in reversed(range(n))]])
    c.inp("mo", mo)
    if mo is not None:
        for i, j in itertools.combinations(range(n), 2): c.assume(core.mk_not(P[mo[j], mo[i]]))
    _order(Chk(c), mp, cfg, P, {lab[i]: lab[fi[i]] for i in range(n)}, mo)
def replay_order(inp, cfg):
    import mentpy as mp
    lab = cfg["lab"]; n = len(lab); P = {(u, v): bool(inp["P"][i][j]) for i, u in enumerate(lab) for j, v in enumerate(lab)}
    try: _order(CChk(), mp, cfg, P, {lab[i]: lab[inp["f"][i]] for i in range(n)}, inp["mo"])
    except Bad as e: return f"{e} (order {[k for k, v in P.items() if v]}, flow {inp['f']})"
def _reject(mp, cfg, g, lab):
    w = cfg["what"]; kw = {"input_nodes": [lab[0]], "output_nodes": [lab[-1]]}
    bad = 99
    if w == "input": kws = [dict(kw, input_nodes=[bad]), dict(kw, input_nodes=[lab[0], bad], output_nodes=[lab[1], lab[2]])]
    elif w == "output": kws = [dict(kw, output_nodes=[bad]), dict(kw, input_nodes=[lab[0], lab[1]], output_nodes=[lab[2], -7])]
    elif w == "measured node": kws = [dict(kw, measurements={bad: mp.Ment("X")}), dict(kw, measurements={lab[0]: mp.Ment("X"), bad: None})]
    elif w == "value": kws = [dict(kw, measurements={lab[0]: x}) for x in ("X", 0.5, mp.Ment, ["X"])]
    else: kws = [dict(kw, default_measurement=x) for x in ("X", None, 0.3)]
    for k in kws:
        try: _q(lambda: mp.MBQCircuit(g, relabel_indices=cfg["rl"], **k))
        except Exception: continue
        return f"accepted {k}"
def run_reject(c, cfg):
    from symx import nxx, load
    mp = load.load(); lab = [4, 1, 6]
    g = nxx.sym_graph(c, mp.GraphState, "g", lab); m = _reject(mp, cfg, g, lab); c.check(m is None, "invalid nodes and values are rejected")
def replay_reject(inp, cfg):
    import mentpy as mp
    return _reject(mp, cfg, cm.mk_graph(mp, inp["g"]), [4, 1, 6])
