"""Template circuits have the documented shape for every size."""
import itertools, contextlib, io, warnings
from checks import common as cm
MODE = "bits"
BOUNDS = {"quick": "symbolic sizes: linear -2..9, up to three wires of -1..4 nodes, grids and cylinders -1..4 by -1..4, triangle ansatz 1..3 wires and 1..2 layers, symmetry-protected ansatz -1..5 qubits and 1..2 layers; the node and kind of an extra measurement are symbolic",
          "thorough": "linear -2..16, up to four wires of -1..4 nodes, grids -1..5 by -1..6, triangle ansatz up to 4 wires and 3 layers, symmetry-protected ansatz up to 6 qubits and 3 layers"}
ASSUMPTIONS = ["the generalised-flow search (C05) is replaced by a stub that finds nothing while the symmetry-protected template is built (nothing is claimed about its flow)", "the number of wires and layers of the layered ansatz is at least one"]
BUDGET = {"quick": 200, "thorough": 850}
def configs(tier):
    T = tier == "thorough"
    out = [{"name": "linear", "h": "shape", "t": "linear", "lo": [-2], "hi": [16 if T else 9]}]
    for k in (1, 2, 3) + ((4,) if T else ()): out.append({"name": f"{k} wires", "h": "shape", "t": "wires", "lo": [-1] * k, "hi": [4] * k, "weight": k})
    for p in (False, True): out.append({"name": f"grid periodic={p}", "h": "shape", "t": "grid", "lo": [-1, -1], "hi": [5, 6] if T else [4, 4], "periodic": p, "weight": 4})
    for one in (False, True):
        for rt in (True, False): out.append({"name": f"triangles one_column={one} restrict={rt}", "h": "layers", "t": "muta", "lo": [1, 1], "hi": [4, 3] if T and one else [3, 2], "kw": {"one_column": one, "restrict_trainable": rt}, "weight": 6})
    for p in (False, True): out.append({"name": f"symmetry-protected periodic={p}", "h": "layers", "t": "spturb", "lo": [-1, 1], "hi": [6, 3] if T else [5, 2], "kw": {"periodic": p}, "weight": 6})
    return out
def _q(f):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore"); return f()
def _build(mp, cfg, s, **kw):
    t = mp.templates
    if cfg["t"] == "linear": return _q(lambda: t.linear_cluster(s[0], **kw))
    if cfg["t"] == "wires": return _q(lambda: t.many_wires(list(s), **kw))
    if cfg["t"] == "grid": return _q(lambda: t.grid_cluster(s[0], s[1], **({"periodic": True} if cfg["periodic"] else {}), **kw))
    return _q(lambda: getattr(t, cfg["t"])(s[0], s[1], **cfg["kw"]))
def _want(cfg, s):
    "expected edges, inputs, outputs and number of nodes (None: not admissible)"
    if cfg["t"] == "linear": ws = [s[0]]
    elif cfg["t"] == "wires": ws = list(s)
    else: ws = [s[1]] * max(0, s[0])
    if not ws or any(w < 2 for w in ws):
        if cfg["t"] != "grid" or not ws or s[1] != 1 or s[0] < 2: return None
    st = [sum(ws[:i]) for i in range(len(ws))]
    E = {frozenset((a + j, a + j + 1)) for a, w in zip(st, ws) for j in range(w - 1)}
    if cfg["t"] == "grid":
        n, m = s
        rows = [(i, i + 1) for i in range(n - 1)] + ([(0, n - 1)] if cfg["periodic"] and n > 1 else [])
        E |= {frozenset((a * m + j, b * m + j)) for a, b in rows for j in range(m)}
    return E, st, [a + w - 1 for a, w in zip(st, ws)], sum(ws)
def _shape(mp, cfg, s, S, node, kind):
    want = _want(cfg, S)
    try: mc = _build(mp, cfg, s)
    except Exception as e: return None if want is None else f"admissible size rejected"
    if want is None: return "a size outside the admissible range was accepted"
    E, I, O, n = want
    if sorted(mc.graph.nodes()) != list(range(n)): return "nodes are numbered from zero"
    if {frozenset(map(int, e)) for e in mc.graph.edges()} != E: return "edges"
    if list(mc.input_nodes) != I or list(mc.output_nodes) != O: return "inputs and outputs"
    m = _flow(mc)
    if m: return m
    meas = [v for v in range(n) if v not in O]
    for v in range(n):
        q = mc[v]
        if (q is None) != (v in O) or (q is not None and (q.plane, q.angle) != ("XY", None)): return "default measurements"
    if not meas: return None
    v = meas[node % len(meas)]
    q = {"X": lambda: mp.Ment("X"), "fixed": lambda: mp.Ment(0.25, "XY"), "Y": lambda: mp.Ment("Y")}[kind]()
    mc = _build(mp, cfg, s, measurements={v: q})
    for u in meas:
        if (mc[u].plane, mc[u].angle) != ((q.plane, q.angle) if u == v else ("XY", None)): return "measurements given as a keyword reach their node"
    mc = _build(mp, cfg, s, default_measurement=mp.Ment("X"))
    if any(mc[u].plane != "X" for u in meas): return "the default measurement given as a keyword is used"
def _flow(mc):
    if mc.flow is None: return "the template has a flow"
    E = {frozenset(map(int, e)) for e in mc.graph.edges()}; N = [int(v) for v in mc.graph.nodes()]
    m = cm.is_cflow(E, N, list(mc.input_nodes), list(mc.output_nodes), mc.flow, mc.partial_order) if len(N) < 45 else None
    return m and "flow: " + m
def _layers(mp, cfg, s, S):
    w, l = S
    ok = cfg["t"] == "muta" or w >= 4
    try: mc = _build(mp, cfg, s)
    except ValueError: return "admissible size rejected" if ok else None
    if not ok: return "a size outside the admissible range was accepted"
    kw = cfg["kw"]; E = {frozenset(map(int, e)) for e in mc.graph.edges()}; N = [int(v) for v in mc.graph.nodes()]
    I, O = list(mc.input_nodes), list(mc.output_nodes)
    if len(set(I)) != w or len(set(O)) != w or not set(I + O) <= set(N): return "one input and one output per wire"
    if any(mc[v] is not None for v in O): return "outputs are unmeasured"
    if cfg["t"] == "muta":
        blocks = l * (1 if kw["one_column"] else w)
        if len(N) != w * (4 * blocks + 1): return "number of nodes"
        m = _flow(mc)
        if m: return m
        # walk the wires: node after node along the flow
        names = {}
        for k, v in enumerate(I):
            for d in range(4 * blocks + 1):
                names[k, d] = v
                if d < 4 * blocks: v = int(mc.flow(v))
            if v != O[k]: return "wires keep their position"
        want = {frozenset((names[k, d], names[k, d + 1])) for k in range(w) for d in range(4 * blocks)}
        for b in range(blocks):
            top = 0 if kw["one_column"] else b % w
            for k in range(w):
                if k != top: want |= {frozenset((names[top, 4 * b + 1], names[k, 4 * b])), frozenset((names[top, 4 * b + 1], names[k, 4 * b + 2]))}
        if E != want: return "edges of the layers"
        if not kw["restrict_trainable"] and sorted(mc.trainable_nodes) != sorted(v for v in N if v not in O): return "trainable nodes"
    else:
        nb = l * 2 * (w if kw["periodic"] else w - 2)
        if len(N) != w * (2 * l + 1) + 10 * nb or len(E) != 2 * w * l + 11 * nb: return "number of nodes and edges of the layers"
        import networkx as nx
        if not all(nx.has_path(mc.graph, i, o) for i, o in zip(I, O)): return "wires connect inputs and outputs"
        if len(mc.trainable_nodes) != w * l + nb: return "one trainable node per wire and block"
        if any(mc[v].plane not in ("X", "Y", "XY") for v in N if v not in O): return "measurement planes"
        tr = set(mc.trainable_nodes)
        if any((mc[v].plane == "XY") != (v in tr) for v in N if v not in O): return "all other nodes have Pauli measurements"
        if sum(mc[v].plane == "Y" for v in N if v not in O) != 2 * nb: return "half of the blocks are of the second kind"
def run_shape(c, cfg):
    from symx import load
    mp = load.load()
    s = [c.int(f"size{i}", lo, hi) for i, (lo, hi) in enumerate(zip(cfg["lo"], cfg["hi"]))]; c.inp("s", s)
    node = c.choose("node", [0, 1, 5]); kind = c.choose("kind", ["X", "fixed"]) if cfg["t"] != "grid" else "Y"; c.inp("node", node); c.inp("kind", kind)
    m = _shape(mp, cfg, s, Lazy(s), node, kind); c.check(m is None, str(m))
class Lazy(list):
    "sizes, resolved by forking"
    def __init__(self, s): super().__init__(int(x) for x in s)
def replay_shape(inp, cfg):
    import mentpy as mp
    m = _shape(mp, cfg, inp["s"], inp["s"], inp["node"], inp["kind"])
    return m and f"{cfg['name']} {inp['s']}: {m}"
def run_layers(c, cfg):
    from symx import load
    mp = load.load()
    s = [c.int(f"size{i}", lo, hi) for i, (lo, hi) in enumerate(zip(cfg["lo"], cfg["hi"]))]; c.inp("s", s)
    import mentpy.mbqc.flow as fl
    old = getattr(fl, "find_gflow", None)
    if cfg["t"] == "spturb": fl.find_gflow = lambda *a, **k: (None, None, None, None)     # no claim about its flow
    try: m = _layers(mp, cfg, s, Lazy(s))
    finally:
        if old is not None: fl.find_gflow = old
    c.check(m is None, str(m))
def replay_layers(inp, cfg):
    import mentpy as mp
    m = _layers(mp, cfg, inp["s"], inp["s"])
    return m and f"{cfg['name']} {inp['s']}: {m}"
