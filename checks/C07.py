"""Partial order and measurement order under any history of controlled measurements."""
import itertools, contextlib, io
from checks import common as cm
MODE = "bits"
BOUNDS = {"quick": "histories of up to 2 edits (3 on wires): assign a controlled measurement reading any one or two measured nodes (directly, negated, constant condition), assign an ordinary measurement, delete, replace the whole measurement map, or give controls at construction; on all graphs with flow on 3 nodes and one representative of every overlap of inputs and outputs on 4 nodes, and on every user-supplied strict partial order of 3 and 4 nodes",
          "thorough": "histories of up to 3 edits on all graphs of 3 nodes and 2 on 4 nodes with conditions reading up to three nodes; 2 edits on user-supplied orders of 3 nodes, 1 on 4"}
ASSUMPTIONS = ["the dependencies of the controls stay acyclic together with the flow order"]
BUDGET = {"quick": 300, "thorough": 850}
EDITS = ["control", "ordinary", "delete", "map"]
def configs(tier):
    T = tier == "thorough"
    out = []
    for I, O in cm.io_types(3):
        for e in EDITS + ["construct"]:
            out.append({"name": f"graphs n=3 I={I} O={O} first {e}", "h": "graph", "n": 3, "I": I, "O": O, "first": e, "len": 3 if T else 2, "w": 3, "weight": 3})
    for I, O in cm.io_types(4):
        for e in EDITS + ["construct"]:
            for t in range(4): out.append({"name": f"graphs n=4 I={I} O={O} first {e} of {t}", "h": "graph", "n": 4, "I": I, "O": O, "first": e, "t0": t, "len": 2, "w": 3 if T else 1, "weight": 5})
    for ed, I, O in [([[2, 0], [0, 3], [3, 1]], [2], [1])] + [([[0, 1], [1, 2], [2, 3]], [0], [3])] * T:
        for e in (EDITS if T else ["control"]):
            for t in range(4): out.append({"name": f"wire {ed} first {e} of {t}", "h": "graph", "n": 4, "I": I, "O": O, "edges": ed, "first": e, "t0": t, "len": 3, "w": 1, "weight": 6})
    for n in (3, 4):
        for e in EDITS + ["construct"]:
            out.append({"name": f"orders n={n} first {e}", "h": "order", "n": n, "I": [], "O": [n - 1], "first": e, "len": 1 + (n == 3), **({"t0": 1} if n == 4 and not T else {}), "w": 2 if n == 3 or T else 1, "weight": 4})
    return out
def _cond(mp, mc, spec):
    "MentOutcome of a condition specification [kind, nodes]"
    kind, S = spec
    if kind == "const": return True
    r = mc[S[0]].outcome
    for v in S[1:]: r = r ^ mc[v].outcome
    return ~r if kind == "not" else r
def _ctl(mp, mc, spec): return mp.ControlMent(_cond(mp, mc, spec), 0.3, "XY", 0, "X")
def _closure(nodes, pairs):
    P = set(pairs)
    for k in nodes:
        for i in nodes:
            if (i, k) in P: P |= {(i, j) for j in nodes if (k, j) in P}
    return P
def _state_ok(mc, nodes, base, ctl):
    P = _closure(nodes, base | {(r, t) for t, S in ctl.items() for r in S})
    if any((v, v) in P for v in nodes): return "cyclic"
    po = mc.partial_order
    got = {(i, j) for i in nodes for j in nodes if po(i, j)}
    if any((v, v) in got for v in nodes): return f"the partial order is not irreflexive: {got}"
    if got != P: return f"partial order {sorted(got)} instead of {sorted(P)} (flow order {sorted(base)}, controls {ctl})"
    mo = list(mc.measurement_order)
    if sorted(mo) != sorted(nodes): return f"measurement order {mo}"
    for i in range(len(mo)):
        for j in range(i + 1, len(mo)):
            if (mo[j], mo[i]) in P: return f"measurement order {mo} puts {mo[i]} before {mo[j]} (flow order {sorted(base)}, controls {ctl})"
    if sorted(mc.controlled_nodes) != sorted(ctl): return f"controlled nodes {mc.controlled_nodes} instead of {sorted(ctl)}"
def _specs(measured, t, w):
    vs = [v for v in measured if v != t]
    out = [["const", []]]
    for k in range(1, w + 1):
        for S in itertools.combinations(vs, k): out.append(["xor", list(S)])
    if vs: out.append(["not", [vs[-1]]])
    return out
def _play(mp, make, nodes, O, base, steps):
    "concrete replay of a list of steps"
    mc, ctl = make(steps[0] if steps and steps[0][0] == "construct" else None)
    m = _state_ok(mc, nodes, base, ctl)
    if m: return None if m == "cyclic" else m
    for s in steps:
        if s[0] == "construct": continue
        _step(mp, mc, O, ctl, s)
        m = _state_ok(mc, nodes, base, ctl)
        if m: return None if m == "cyclic" else f"after {s}: {m}"
def _step(mp, mc, O, ctl, s):
    e, t, spec = s
    if e == "control": mc[t] = _ctl(mp, mc, spec); ctl[t] = set(spec[1])
    elif e == "ordinary": mc[t] = mp.Ment("XY"); ctl.pop(t, None)
    elif e == "delete": del mc[t]; ctl.pop(t, None)
    elif e == "map":
        m = {t: _ctl(mp, mc, spec)} if spec else {t: mp.Ment("Y")}
        for v in mc.graph.nodes:
            if v != t and v not in O and mc[v] is None: m[v] = None
        mc.measurements = m; ctl.clear()
        if spec: ctl[t] = set(spec[1])
def _history(c, cfg, mp, make, base, nodes):
    O, w = cfg["O"], cfg["w"]; steps = []
    c.inp("base", sorted(base)); c.inp("steps", steps)
    def target(k): return cfg["t0"] if k == 0 and "t0" in cfg else c.choose(f"t{k}", nodes)
    def spec(k, t, measured):
        S = _specs(measured, t, w); return c.choose(f"cond{k}", S)
    k = 0
    if cfg["first"] == "construct":
        t = target(0); s = ["construct", t, spec(0, t, [v for v in nodes if v not in O])]; steps.append(s); k = 1
        mc, ctl = make(s)
    else: mc, ctl = make(None)
    m = _state_ok(mc, nodes, base, ctl)
    if m == "cyclic": return
    c.check(m is None, f"order follows the current controls{': ' + m if m else ''}")
    while k < cfg["len"]:
        e = cfg["first"] if k == 0 else c.choose(f"e{k}", EDITS + ["stop"])
        if e == "stop": break
        t = target(k); measured = [v for v in nodes if mc[v] is not None]
        s = [e, t, None]
        if e == "control": s[2] = spec(k, t, measured)
        if e == "map": s[2] = c.choose(f"cond{k}", _specs(measured, t, w)[1:] + [None])
        if e == "delete" and mc[t] is None: return
        steps.append(s); _step(mp, mc, O, ctl, s)
        m = _state_ok(mc, nodes, base, ctl)
        if m == "cyclic": return
        c.check(m is None, f"order follows the current controls{': ' + m if m else ''}")
        k += 1
def _maker(mp, g, cfg, **kw):
    def make(s):
        ms = None; ctl = {}
        if s is not None:
            with contextlib.redirect_stdout(io.StringIO()): mc0 = mp.MBQCircuit(g, input_nodes=list(cfg["I"]), output_nodes=list(cfg["O"]), **kw)
            ms = {s[1]: _ctl(mp, mc0, s[2])}; ctl = {s[1]: set(s[2][1])}
        with contextlib.redirect_stdout(io.StringIO()):
            return mp.MBQCircuit(g, input_nodes=list(cfg["I"]), output_nodes=list(cfg["O"]), measurements=ms, **kw), ctl
    return make
def run_graph(c, cfg):
    from symx import nxx, load
    mp = load.load(); nodes = list(range(cfg["n"]))
    if "edges" in cfg:
        g = cm.mk_graph(mp, {"nodes": nodes, "edges": cfg["edges"]}); c.inp("g", {"nodes": nodes, "edges": cfg["edges"]})
    else: g = nxx.sym_graph(c, mp.GraphState, "g", nodes)
    ref = mp.MBQCircuit(g, input_nodes=list(cfg["I"]), output_nodes=list(cfg["O"]))
    if ref.flow is None: return
    base = {(i, j) for i in nodes for j in nodes if ref.partial_order(i, j)}
    _history(c, cfg, mp, _maker(mp, g, cfg), base, nodes)
def replay_graph(inp, cfg):
    import mentpy as mp
    nodes = list(range(cfg["n"])); g = cm.mk_graph(mp, inp["g"])
    ref = mp.MBQCircuit(g, input_nodes=list(cfg["I"]), output_nodes=list(cfg["O"]))
    if ref.flow is None: return None
    base = {(i, j) for i in nodes for j in nodes if ref.partial_order(i, j)}
    return _play(mp, _maker(mp, g, cfg), nodes, cfg["O"], base, inp["steps"])
def run_order(c, cfg):
    from symx import load, core
    mp = load.load(); n = cfg["n"]; nodes = list(range(n)); P = {}
    for i in nodes:
        for j in nodes: P[i, j] = c.bool(f"p({i},{j})") if i != j else False
    for i in nodes:
        for j in nodes:
            if i == j: continue
            c.assume(core.mk_not(core.mk_and(P[i, j], P[j, i])))
            for k in nodes: c.assume(core.mk_implies(core.mk_and(P[i, j], P[j, k]), P[i, k]))
    base = {(i, j) for i in nodes for j in nodes if P[i, j]}
    g = mp.GraphState(); g.add_nodes_from(nodes)
    _history(c, cfg, mp, _maker(mp, g, cfg, flow=lambda v: v, partial_order=lambda i, j: (i, j) in base), base, nodes)
def replay_order(inp, cfg):
    import mentpy as mp
    nodes = list(range(cfg["n"])); base = {tuple(p) for p in inp["base"]}
    g = mp.GraphState(); g.add_nodes_from(nodes)
    return _play(mp, _maker(mp, g, cfg, flow=lambda v: v, partial_order=lambda i, j: (i, j) in base), nodes, cfg["O"], base, inp["steps"])
