"""Drawing: colours, labels and flow edges belong to their own nodes."""
import itertools, warnings, contextlib, io
import numpy as np
from checks import common as cm
MODE = "bits"
BOUNDS = {"quick": "circuits on 3 nodes with symbolic edges and every measurement kind (trainable, fixed, Pauli, every plane, controlled, none) on one node combined with four kinds on another, on 4 nodes with chosen kinds; labels renamed and kept; every style, label kind and switch; every symbolic angle on 3 nodes; every Pauli operator on up to 4 nodes",
          "thorough": "kinds on all three nodes, 4 nodes with symbolic edges"}
ASSUMPTIONS = ["matplotlib and the networkx drawing and layout calls are replaced by recorders", "at least one output node"]
BUDGET = {"quick": 240, "thorough": 850}
KINDS = ["none", "XY", "XYf", "XZ", "YZ", "YZf", "X", "Y", "Z", "XYZ", "ctl"]
KINDS2 = ["none", "XY", "YZf", "ctl"]
ARROW = {"X": r"$\uparrow$", "Y": r"$\rightarrow$", "XY": r"$\nearrow$", "Z": r"$\cdot$", "XZ": r"$\nwarrow$", "YZ": r"$\nwarrow$", "XYZ": r"$\nwarrow \nearrow$", "": ""}
HOW = [("default", "index", True, True), ("blue_inputs", "plane", True, True), ("default", "arrow", False, True), ("black_and_white", "angle", True, False), ("blue_inputs", "angles", True, True), ("default", "planes", True, False), ("blue_inputs", "arrows", True, True), ("black_and_white", "indices", False, False)]
COL = {"ctl": "#A88FE8", "out": "#ADD8E6", "fixed": "#CCCCCC", "train": "#FFBD59", "in": "#ADD8E6"}
def configs(tier):
    T = tier == "thorough"; out = []
    def add(h, **k): out.append({"name": " ".join([h] + [f"{a}={b}" for a, b in k.items()]), "h": h, "weight": k.get("n", 1), **k})
    for lab in ([0, 1, 2], [2, 0, 1], [7, 9, 4]):
        for I, O in (([0], [2]), ([2], [1]), ([0, 1], [1, 2]), ([], []), ([1, 0, 2], [0, 1, 2])):
            if not O: continue
            for v in range(3): add("roles", n=3, lab=lab, rl=(v + I[0]) % 2 == 0, I=I, O=O, free=[0, 1, 2] if T else [v, (v + 1) % 3], path=lab[0] == 0)
    for I, O in (([0, 1], [2, 3]), ([3, 0], [0, 1]), ([2], [0])):
        for v in range(4): add("roles", n=4, lab=[2, 0, 3, 1], rl=v % 2 == 0, I=I, O=O, free=[v], path=not T)
    for n in (2, 3):
        for m in ("plane", "planes", "angle", "angles", "arrow"): add("angles", n=n, kind=m, mode="poly")
    for n in (2, 3, 4):
        for lab in ([0, 1, 2, 3], [3, 1, 0, 2], [5, 9, 7, 6]):
            for rl in (True, False): add("pauli", n=n, lab=lab[:n] if n > 1 or rl else lab[:1], rl=rl)
    for w in ("style", "label", "two operators"):
        for x in (("", "Default", "dark", None) if w == "style" else ("", "Planes", "pauli", None) if w == "label" else (2, 3)): add("reject", what=w, x=x)
    for n in (1, 3): add("state", n=n)
    return out
def _q(f):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore"); return f()
class Chk:
    def __init__(self, c): self.c = c
    def __call__(self, ok, msg): self.c.check(ok, msg)
    def eq(self, a, b, msg):
        from symx import core
        self.c.check(core.mk_iff(a, b), msg)
class Bad(Exception): pass
class CChk:
    def __call__(self, ok, msg):
        if not ok: raise Bad(msg)
    def eq(self, a, b, msg): self(bool(a) == bool(b), msg)
class Fake:
    "stands for a figure, axes or patch"
    def __getattr__(self, n): return self
    def __call__(self, *a, **k): return self
@contextlib.contextmanager
def _canvas():
    "records (what, graph, keyword arguments)"
    import networkx as nx, matplotlib
    matplotlib.use("Agg"); import matplotlib.pyplot as plt
    log = []; LOG.append(log); old = [(nx, n, getattr(nx, n)) for n in (*DRAW, "spring_layout")] + [(plt, "subplots", plt.subplots)]
    try:
        for n in DRAW: setattr(nx, n, REC[n])
        nx.spring_layout = _layout
        plt.subplots = lambda *a, **k: (Fake(), Fake())
        yield log
    finally:
        LOG.pop()
        for o, n, v in old: setattr(o, n, v)
DRAW = ("draw", "draw_networkx", "draw_networkx_edges", "draw_networkx_nodes", "draw_networkx_labels")
LOG = []
def _rec(name):
    def f(G, pos=None, ax=None, **k): LOG[-1].append((name, G, dict(k, pos=pos)))
    return f
REC = {n: _rec(n) for n in DRAW}       # permanent objects, because the engine keeps wrappers of library functions
def _layout(G, *a, **k): return {v: (0.0, 0.0) for v in G}
def _ment(mp, k, read):
    if k == "none": return None
    if k == "ctl":
        o = mp.Ment("XY"); o.node_id = read; return mp.ControlMent(o.outcome, 0.25, "XY", None, "YZ")
    return mp.Ment(0.5, k[:-1]) if k.endswith("f") else mp.Ment(k)
def _role(k, out):
    if k == "ctl": return "ctl"
    if k == "none": return "out" if out else "fixed"
    return "train" if k in ("XY", "XZ", "YZ", "XYZ") else "fixed"
def _colour(v, k, I, O, style):
    if style == "black_and_white": return "#FFFFFF"
    if style == "blue_inputs" and v in I: return COL["in"]
    return COL[_role(k, v in O)]
def _label(kind, k, v):
    "expected label of a node, None: not fixed here"
    if kind in ("plane", "planes", "arrow", "arrows"):
        if k == "ctl": return "Ctrl"
        p = "" if k == "none" else k.rstrip("f"); return ARROW[p] if kind.startswith("arrow") else p
    if k == "ctl": return None
    return "" if k == "none" else {"f": 0.5, "X": 0, "Y": 0, "Z": 0}.get(k[-1] if k.endswith("f") or len(k) == 1 else "", r"$\theta$")
def _lab_ok(chk, kind, labels, N, M):
    if kind in ("index", "indices"): chk(labels is None or all(str(labels[v]) == str(v) for v in N), "index labels show the node"); return
    chk(set(labels) == set(N), "every node has a label")
    for v in N:
        w = _label(kind, M[v], v)
        if w is not None: chk(labels[v] == w if not isinstance(w, (int, float)) else not isinstance(labels[v], str) and abs(labels[v] - w) < 1e-9, f"the {kind.rstrip('s')} label is the node's own")
def _roles(chk, mp, g, edge, cfg, choose):
    from mentpy.mbqc import view
    lab, n = cfg["lab"], cfg["n"]; m = {v: sorted(lab).index(v) if cfg["rl"] else v for v in lab}
    I, O = [lab[i] for i in cfg["I"]], [lab[i] for i in cfg["O"]]
    M = {v: "none" if v in O else "XY" for v in lab}
    for j, i in enumerate(cfg["free"]): M[lab[i]] = choose(f"k{i}", KINDS if j == 0 else KINDS2)
    ms = {v: _ment(mp, k, next(u for u in lab if u != v)) for v, k in M.items()}
    mc = _q(lambda: mp.MBQCircuit(g, input_nodes=list(I), output_nodes=list(O), measurements=ms, relabel_indices=cfg["rl"]))
    N = [m[v] for v in lab]; M = {m[v]: k for v, k in M.items()}; I, O = [m[v] for v in I], [m[v] for v in O]
    style, kind, flow, ctl = choose("how", HOW)
    col = _q(lambda: view.get_node_colors(mc, style=style)); chk(set(col) == set(N), "every node has a colour")
    for v in N: chk(col[v] == _colour(v, M[v], I, O, style), "the colour is the one of the node's role")
    _lab_ok(chk, kind, _q(lambda: view.process_labels(mc, {"label": kind, "pauliop": None})), N, M)
    E = lambda u, v: edge(*[k for k in lab if m[k] == u], *[k for k in lab if m[k] == v])
    if mc.flow is not None:
        d = _q(lambda: view._graph_with_flow(mc))
        chk(d.is_directed() and set(d.nodes()) == set(N), "the flow graph has every node")
        chk({tuple(e) for e in d.edges()} == {(v, mc.flow(v)) for v in N if v not in O}, "the flow edges are the node-to-image pairs")
    with _canvas() as log: _q(lambda: view.draw(mc, style=style, label=kind, **({} if flow else {"show_flow": False}), **({} if ctl else {"show_controls": False})))
    dr = [x for x in log if x[0] in ("draw", "draw_networkx")]
    chk(len(dr) == (2 if flow and mc.flow is not None else 1), "the graph is drawn once, its flow if there is one and it is wanted")
    for name, G, k in dr:
        nl = list(k.get("nodelist") or G.nodes()); chk(sorted(nl) == sorted(N) and list(k["node_color"]) == [col[v] for v in nl], "drawn colours belong to their nodes")
        _lab_ok(chk, kind, k.get("labels"), N, M)
        chk(set(k["pos"]) >= set(N), "every node has a position")
    for u, v in itertools.combinations(N, 2): chk.eq(dr[0][1].has_edge(u, v), E(u, v), "the drawn graph is the circuit's graph")
    if len(dr) == 2: chk({tuple(e) for e in dr[1][1].edges()} == {(v, mc.flow(v)) for v in N if v not in O}, "the drawn flow edges are the node-to-image pairs")
    dash = [tuple(e) for x in log if x[0] == "draw_networkx_edges" for e in x[2]["edgelist"]]
    want = {frozenset((v, r)) for v in N if M[v] == "ctl" for r in mc[v].condition.cond_nodes}
    chk({frozenset(e) for e in dash} == (want if ctl else set()), "dashed edges join controlled nodes to the nodes they read")
    chk(list(mc.input_nodes) == I and list(mc.output_nodes) == O, "drawing leaves the circuit unchanged")
def run_roles(c, cfg):
    from symx import nxx, load, core
    mp = load.load(); lab = cfg["lab"]; ch = {}; c.inp("ch", ch)
    g = nxx.sym_graph(c, mp.GraphState, "g", lab, **({"pairs": list(zip(lab, lab[1:]))} if cfg.get("path") else {})); snap = c.inputs["g"]
    def choose(n, o):
        i = c.choose(n, list(range(len(o)))); ch[n] = i; return o[i]
    _roles(Chk(c), mp, g, lambda u, v: core.mkbool(snap.lit(u, v)), cfg, choose)
def replay_roles(inp, cfg):
    import mentpy as mp
    E = cm.edges_of(inp["g"])
    try: _roles(CChk(), mp, cm.mk_graph(mp, inp["g"]), lambda u, v: frozenset((u, v)) in E, cfg, lambda n, o: o[inp["ch"].get(n, 0)])
    except Bad as e: return f"{e} (graph {inp['g']['edges']}, choices {inp['ch']})"
def _angles(mp, n, th, kind):
    from mentpy.mbqc import view
    g = mp.GraphState(); g.add_nodes_from(range(n)); g.add_edges_from([(i, i + 1) for i in range(n - 1)])
    mc = _q(lambda: mp.MBQCircuit(g, input_nodes=[0], output_nodes=[n - 1], measurements={i: mp.Ment(th[i], ("XY", "YZ", "XZ")[i % 3]) for i in range(n)}))
    return _q(lambda: view.process_labels(mc, {"label": kind, "pauliop": None}))
def run_angles(c, cfg):
    from symx import load, poly, core
    mp = load.load(); n = cfg["n"]; th = [poly.real(f"t{i}") for i in range(n)]; c.inp("t", th)
    L = _angles(mp, n, th, cfg["kind"]); c.check(set(L) == set(range(n)), "every node has a label")
    for i in range(n):
        if not cfg["kind"].startswith("angle"): c.check(L[i] == (("XY", "YZ", "XZ")[i] if cfg["kind"].startswith("plane") else ARROW[("XY", "YZ", "XZ")[i]]), "plane and arrow labels do not depend on the angle"); continue
        c.check(not isinstance(L[i], str), "fixed angles are shown")
        c.check(core.mk_and(1000 * (L[i] - th[i]) <= 0.5625, 1000 * (th[i] - L[i]) <= 0.5625), "the angle label is the node's own angle")
def replay_angles(inp, cfg):
    import mentpy as mp
    th = [float(x) for x in inp["t"]]; L = _angles(mp, cfg["n"], th, cfg["kind"])
    for i, t in enumerate(th):
        if not cfg["kind"].startswith("angle"):
            p = ("XY", "YZ", "XZ")[i]
            if L[i] != (p if cfg["kind"].startswith("plane") else ARROW[p]): return f"label {L[i]!r} of a node in plane {p}"
        elif isinstance(L[i], str) or abs(L[i] - t) > 0.00057: return f"label {L[i]!r} of a node with angle {t}"
def _pauli(chk, mp, cfg, op, letters):
    from mentpy.mbqc import view
    lab, n = cfg["lab"], cfg["n"]; g = mp.GraphState(); g.add_nodes_from(lab); g.add_edges_from(zip(lab, lab[1:]))
    mc = _q(lambda: mp.MBQCircuit(g, input_nodes=[lab[0]], output_nodes=[lab[-1]], relabel_indices=cfg["rl"]))
    nodes = list(mc.graph.nodes())
    L = _q(lambda: view.process_labels(mc, {"label": "pauliop", "pauliop": op}))
    with _canvas() as log: _q(lambda: view.draw(mc, pauliop=op))
    D = next(x for x in log if x[0] in ("draw", "draw_networkx"))[2]["labels"]
    for X in (L, D):
        chk(set(X) == set(nodes), "every node has a label")
        for i, v in enumerate(nodes): chk(X[v] == letters(i), "the label is the operator's letter at the node's position")
def run_pauli(c, cfg):
    from symx import load, core
    mp = load.load(); n = cfg["n"]; b = cm.bitmat(c, "b", 1, 2 * n)
    from symx import arr
    c.inp("b", b); R = np.array(b, dtype=object); op = mp.PauliOp(arr.mk(R, "i"))
    def letters(i):
        x, z = (bool(core.mkbool(core.tolit(cm.asbit(R[0][j])))) for j in (i, n + i)); return "IXZY"[x + 2 * z]
    _pauli(Chk(c), mp, cfg, op, letters)
def replay_pauli(inp, cfg):
    import mentpy as mp
    n = cfg["n"]; t = cm.pauli_text(inp["b"][0])
    try: _pauli(CChk(), mp, cfg, mp.PauliOp(t), lambda i: t[i])
    except Bad as e: return f"{e} (operator {t})"
def _reject(mp, cfg):
    from mentpy.mbqc import view
    g = mp.GraphState(); g.add_edges_from([(0, 1), (1, 2)]); mc = _q(lambda: mp.MBQCircuit(g, input_nodes=[0], output_nodes=[2])); x = cfg["x"]
    calls = []
    if cfg["what"] == "style": calls = [lambda: view.get_node_colors(mc, style=x), lambda: view.draw(mc, style=x)]
    elif cfg["what"] == "label": calls = [lambda: view.process_labels(mc, {"label": x}), lambda: view.draw(mc, label=x)]
    else:
        op = mp.PauliOp("XYZ;ZZI;IXX") if x == 3 else mp.PauliOp("XYZ;ZZI")
        calls = [lambda: view.process_labels(mc, {"label": "pauliop", "pauliop": op}), lambda: view.draw(mc, pauliop=op)]
    for f in calls:
        try:
            with _canvas(): _q(f)
        except (ValueError, AssertionError): continue
        return f"{cfg['what']} {x!r} is accepted"
def run_reject(c, cfg):
    from symx import load
    m = _reject(load.load(), cfg); c.check(m is None, "unknown styles, label kinds and several operators are rejected")
def replay_reject(inp, cfg):
    import mentpy as mp
    return _reject(mp, cfg)
def _state(chk, mp, g, edge, n):
    from mentpy.mbqc import view
    with _canvas() as log: _q(lambda: view.draw(g))
    dr = [x for x in log if x[0] in ("draw", "draw_networkx")]; chk(len(dr) == 1, "a graph state is drawn once")
    chk(sorted(dr[0][1].nodes()) == list(range(n)), "a graph state is drawn with its nodes")
    bad = set(dr[0][2]) - {"pos", "node_color", "font_family", "font_weight", "font_size", "edgecolors", "node_size", "edge_color", "with_labels", "label", "labels", "nodelist", "edgelist", "arrows", "width", "style", "cmap", "alpha", "linewidths"}
    chk(not bad, "drawing passes only known options")
    for u, v in itertools.combinations(range(n), 2): chk.eq(dr[0][1].has_edge(u, v), edge(u, v), "a graph state is drawn with its edges")
def run_state(c, cfg):
    from symx import load, nxx, core
    mp = load.load(); g = nxx.sym_graph(c, mp.GraphState, "g", list(range(cfg["n"]))); snap = c.inputs["g"]
    _state(Chk(c), mp, g, lambda u, v: core.mkbool(snap.lit(u, v)), cfg["n"])
def replay_state(inp, cfg):
    import mentpy as mp
    E = cm.edges_of(inp["g"])
    try: _state(CChk(), mp, cm.mk_graph(mp, inp["g"]), lambda u, v: frozenset((u, v)) in E, cfg["n"])
    except Bad as e: return str(e)
