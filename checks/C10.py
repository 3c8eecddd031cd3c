"""Stacking and merging circuits."""
import itertools, contextlib, io
import numpy as np
from checks import common as cm, simref as sr
MODE = "bits"
BOUNDS = {"quick": "structure: all pairs of graphs on 2 and 3 nodes with one or two wires in several declared orders, side by side, in sequence and merged along every set of output-input pairs (also of unequal numbers of wires), stacks of three circuits, measurement kinds and controls on the nodes; semantics: pairs of wire, crossing and two-wire circuits (composites of up to 5 nodes), all angles and input states",
          "thorough": "structure: all ordered input/output choices on 3 nodes on both sides, 4-node operands; semantics: composites of up to 6 nodes"}
ASSUMPTIONS = ["glued nodes are not adjacent in both operands", "the outputs of the first operand that are glued are unmeasured", "outcome 0 everywhere in the semantic part"]
BUDGET = {"quick": 300, "thorough": 850}
IO3 = [([0], [2]), ([2], [0]), ([1], [1]), ([0, 1], [1, 2]), ([0, 1], [2, 1]), ([1, 0], [0, 2]), ([2, 0], [1, 2])]
WIRES = {"w2": (2, [[0, 1]], [0], [1]), "w3": (3, [[0, 2], [2, 1]], [0], [1]), "one": (1, [], [0], [0]), "two": (4, [[0, 2], [1, 3], [2, 3]], [0, 1], [2, 3]),
         "cross": (4, [[0, 2], [1, 3]], [1, 0], [2, 3]), "cz": (2, [[0, 1]], [0, 1], [0, 1]), "swap": (2, [], [0, 1], [1, 0]), "half": (3, [[0, 2], [2, 1]], [0, 1], [1, 2])}
def configs(tier):
    T = tier == "thorough"; out = []
    ios = {1: [([0], [0])], 2: [([0], [1]), ([1], [0]), ([0, 1], [1, 0])], 3: IO3}
    if T: ios[3] = [(list(I), list(O)) for a in (1, 2) for I in itertools.permutations(range(3), a) for O in itertools.permutations(range(3), a)]; ios[2] += [([0, 1], [0, 1]), ([0], [0])]
    k = 0; nk = 0
    for n1 in (2, 3):
        for n2 in (2, 3):
            for io1 in ios[n1]:
                for io2 in ios[n2]:
                    k += 1
                    if not T and (n1, n2) == (3, 3) and k % 2: continue
                    w1, w2 = len(io1[1]), len(io2[0])
                    base = {"h": "struct", "n": [n1, n2], "io": [io1, io2], "weight": n1 + n2, "rev": k % 3}
                    ops = ["side"] if k % 3 == 0 or T else []
                    if w1 == w2: ops.append("seq")
                    base["kinds"] = n1 + n2 < 6 and (T or k % 2 == 0)
                    for op in ops: out.append({"name": f"{op} {n1},{n2} {io1} {io2}", "op": op, **base})
                    pairs = [(a, b) for a in range(w1) for b in range(w2)]
                    along = [[p] for p in pairs] + [[p, q] for p in pairs for q in pairs if p[0] != q[0] and p[1] != q[1] and (T or p < q)] + [[]]
                    if n1 + n2 > 4 and not T: along = along[k % len(along)::4]
                    elif (n1, n2) == (3, 3): along = along[k % len(along)::3]
                    base["kinds"] = n1 + n2 == 4 or n1 + n2 == 5 and k % 3 == 0
                    for al in along: out.append({"name": f"merge {al} {n1},{n2} {io1} {io2}", "op": "merge", "along": al, **base})
    for op in ("side", "seq"):
        for ws in (["w2", "w3", "w2"], ["cz", "swap", "two"], ["swap", "half", "cross"], ["w3"]): out.append({"name": f"{op} {ws}", "h": "multi", "op": op, "ws": ws, "weight": 8})
    for n1, n2, w1, w2 in ((2, 3, 1, 2), (3, 2, 2, 1)): out.append({"name": f"rejected {n1},{n2}", "h": "reject", "n": [n1, n2], "w": [w1, w2]})
    sem = [("seq", "w2", "w3"), ("seq", "w3", "w2"), ("seq", "swap", "half"), ("seq", "cz", "two"), ("side", "w2", "w3"), ("side", "w2", "cz"), ("side", "half", "w2")]
    if T: sem += [("seq", "cross", "swap"), ("seq", "half", "half"), ("seq", "two", "half"), ("side", "w3", "w3"), ("side", "half", "half"), ("side", "two", "w2"), ("seq", "w3", "w3"), ("seq", "cross", "two")]
    for op, a, b in sem: out.append({"name": f"simulate {op} {a} {b}", "h": "sem", "mode": "poly", "op": op, "ws": [a, b], "weight": 10, "qtimeout": 20000})
    for a, b, al in [("w2", "w3", [(0, 0)]), ("half", "w2", [(1, 0)]), ("swap", "half", [(0, 1)]), ("cz", "swap", [(1, 0), (0, 1)]), ("w2", "half", [(0, 1)]), ("w2", "w2", [])] + ([("two", "half", [(1, 0)]), ("half", "half", [(0, 1), (1, 0)])] if T else []):
        out.append({"name": f"simulate merge {al} {a} {b}", "h": "sem", "mode": "poly", "op": "merge", "along": al, "ws": [a, b], "weight": 10, "qtimeout": 20000})
    return out
def _q(f):
    with contextlib.redirect_stdout(io.StringIO()): return f()
class Bad(Exception): pass
def _chk(ok, msg):
    if not ok: raise Bad(msg)
def _mc(mp, g, I, O, ms): return _q(lambda: mp.MBQCircuit(g, input_nodes=list(I), output_nodes=list(O), measurements=ms))
def _compose(mp, op, cs, along):
    if op == "side": return _q(lambda: mp.vstack(list(cs)))
    if op == "seq": return _q(lambda: mp.hstack(list(cs)))
    return _q(lambda: mp.merge(cs[0], cs[1], along=[tuple(p) for p in along]))
def _plan(op, ios, along):
    """expected composite: glue map origin -> representative, inputs and outputs as origins (k, v)"""
    rep = {}
    def r(x):
        while x in rep: x = rep[x]
        return x
    if op == "merge":
        for a, b in along: rep[(0, a)] = (1, b)
        (I1, O1), (I2, O2) = ios
        a1 = [a for a, b in along]; a2 = [b for a, b in along]
        ins = [(0, i) for i in I1] + [(1, i) for i in I2 if i not in a2]
        outs = []; used = []
        for j in O1:
            if j in a1:
                k = I2.index(a2[a1.index(j)]); used.append(k); outs.append((1, O2[k]))
            else: outs.append((0, j))
        outs += [(1, o) for k, o in enumerate(O2) if k not in used]
    elif op == "seq":
        for k in range(len(ios) - 1):
            for a, b in zip(ios[k][1], ios[k + 1][0]): rep[(k, a)] = (k + 1, b)
        ins = [(0, i) for i in ios[0][0]]; outs = [(len(ios) - 1, o) for o in ios[-1][1]]
    else:
        ins = [(k, i) for k, (I, O) in enumerate(ios) for i in I]; outs = [(k, o) for k, (I, O) in enumerate(ios) for o in O]
    return r, [r(x) for x in ins], [r(x) for x in outs]
def _tagged(mp, gs, ns, ios):
    cs = []; tag = {}
    for k, g in enumerate(gs):
        ms = {}
        for v in range(ns[k]):
            if v in ios[k][1]: continue
            a = 0.05 + 0.25 * k + 0.01 * v; ms[v] = mp.Ment(a, "XY"); tag[a] = (k, v)
        cs.append(_mc(mp, g, *ios[k], ms))
    return cs, tag
def _identify(chk, comp, tag, r, origins, ins, outs):
    "composite node -> origin, from the tags and the output positions"
    chk(len(comp.output_nodes) == len(outs), "number of outputs"); chk(len(comp.input_nodes) == len(ins), "number of inputs")
    nm = dict(zip(comp.output_nodes, outs))
    chk(len(nm) == len(outs), "outputs are distinct")
    want = {r(o) for o in origins}
    chk(len(comp.graph) == len(want), "number of nodes")
    for v in comp.graph.nodes():
        m = comp[v]
        if v in nm:
            chk(m is None, "outputs stay unmeasured"); continue
        if m is None: chk(False, "measured nodes stay measured"); continue
        o = tag.get(m.angle); chk(o is not None and r(o) == o, "measurements come from the right node"); nm[v] = o
    chk(sorted(nm.values()) == sorted(want), "every node appears once")
    chk([nm[i] for i in comp.input_nodes] == ins, "inputs are listed in wire order")
    return nm
def _edges(chk, comp, nm, r, E):
    inv = {o: v for v, o in nm.items()}
    ed = {}
    for (k, u, v), l in E.items():
        a, b = inv[r((k, u))], inv[r((k, v))]; ed.setdefault(frozenset((a, b)), []).append(l)
    for u, v in itertools.combinations(list(nm), 2):
        ls = ed.get(frozenset((u, v)), [])
        chk(bool(comp.graph.has_edge(u, v)) == any(ls), "edges stay between the right nodes")
    chk(not any(comp.graph.has_edge(v, v) for v in nm), "no loops")
def _snap(mc):
    return (sorted(mc.graph.nodes()), sorted(map(sorted, mc.graph.edges())), list(mc.input_nodes), list(mc.output_nodes), {v: (id(m), None if m is None else (m.node_id, m._plane, m._angle, id(m._outcome), None if not hasattr(m, "_condition") else id(m._condition))) for v, m in mc.measurements.items()}, None if mc.measurement_order is None else list(mc.measurement_order))
MIX = [("XY", "ctl", False), ("ctl not", "X", True), ("YZf", "ctl not", True), ("ctl", "ctl", False)]
def _kinds(chk, mp, op, along, gs, ns, ios, nm, r, choose, bits):
    "the same composite with other measurements"
    cs = []; plan = {}; n = len(gs); mix = choose("kinds", MIX)
    for k in range(n):
        base = _mc(mp, gs[k], *ios[k], None)
        meas = [v for v in range(ns[k]) if v not in ios[k][1]]
        ms = {}
        if meas:
            v = meas[0] if k == 0 else meas[-1]
            kd = mix[k % 2]
            read = next((u for u in range(ns[k]) if u != v and (u in meas or k < n - 1 or True)), None)
            ms[v] = mp.Ment("XY") if kd == "XY" else mp.Ment("X") if kd == "X" else mp.Ment(0.5, "YZ")
            if kd.startswith("ctl"):
                if read is None: return
                o = mp.Ment("X"); o.node_id = read; cond = ~o.outcome if kd == "ctl not" else o.outcome
                ms[v] = mp.ControlMent(cond, 0.25, "XY", None, "XY")
            plan[(k, v)] = (kd, read)
        if k == n - 1:
            w = ios[k][1][-1]
            if mix[2]: ms[w] = mp.Ment("X"); plan[(k, w)] = ("X", None)
        cs.append(_mc(mp, gs[k], *ios[k], ms))
    before = [_snap(c_) for c_ in cs]
    comp = _compose(mp, op, cs, along)
    chk([_snap(c_) for c_ in cs] == before, "the operands are unchanged")
    inv = {o: v for v, o in nm.items()}
    for o, v in inv.items():
        m = comp[v]; k, u = o
        kd, read = plan.get(o, ("none" if u in ios[k][1] else "XY", None))
        if kd == "none": chk(m is None, "unmeasured outputs stay unmeasured"); continue
        if m is None: chk(False, "measurements stay attached"); continue
        chk(m.node_id == v and isinstance(m, mp.ControlMent) == kd.startswith("ctl"), "measurements stay attached to the right nodes")
        if kd.startswith("ctl"):
            w = inv[r((k, read))]
            chk(set(m.condition.cond_nodes) == {w}, "conditions read the corresponding node")
            x = m.condition(bits); y = bits[w]
            chk.iff(x, (y == 0) if kd == "ctl not" else y, "conditions evaluate on the corresponding node")
            chk((m._plane, m._angle, m._true_ment.plane, m._true_ment.angle) == ("XY", None, "XY", 0.25), "both branches are kept")
        else: chk((m.plane, m.angle) == {"XY": ("XY", None), "X": ("X", 0), "YZf": ("YZ", 0.5)}[kd], "measurements keep plane and angle")
class CC:
    def __call__(self, ok, msg): _chk(bool(ok), msg)
    def iff(self, a, b, msg): _chk(bool(a) == bool(b), msg)
def _run(chk, mp, cfg, gs, E, choose, bits):
    ns, ios, op, along = cfg["n"], [(list(a), list(b)) for a, b in cfg["io"]], cfg["op"], cfg.get("along", [])
    if op == "merge": along = [(ios[0][1][a], ios[1][0][b]) for a, b in along]
    r, ins, outs = _plan(op, ios, along)
    cs, tag = _tagged(mp, gs, ns, ios)
    before = [_snap(c_) for c_ in cs]
    comp = _compose(mp, op, cs, along)
    if [_snap(c_) for c_ in cs] != before: chk(False, "the operands are unchanged")
    origins = [(k, v) for k in range(len(gs)) for v in range(ns[k])]
    nm = _identify(chk, comp, tag, r, origins, ins, outs)
    _edges(chk, comp, nm, r, E)
    if cfg.get("kinds"): _kinds(chk, mp, op, along, gs, ns, ios, nm, r, choose, bits)
def _double(cfg, e):
    "glued nodes adjacent in both operands"
    ios, op = cfg["io"], cfg["op"]
    al = [] if op == "side" else list(zip(ios[0][1], ios[1][0])) if op == "seq" else [(ios[0][1][a], ios[1][0][b]) for a, b in cfg["along"]]
    return [((a, b), (c, d)) for (a, c), (b, d) in itertools.combinations(al, 2)]
def run_struct(c, cfg):
    from symx import nxx, load, core
    mp = load.load(); gs = []; E = {}
    for k, n in enumerate(cfg["n"]):
        g = nxx.sym_graph(c, mp.GraphState, f"g{k}", list(range(n))[::-1] if cfg.get("rev") == k else list(range(n))); s = c.inputs[f"g{k}"]; gs.append(g)
        for u, v in itertools.combinations(range(n), 2): E[k, u, v] = core.mkbool(s.lit(u, v))
    for (a, b), (x, y) in _double(cfg, E): c.assume(core.mk_not(core.mk_and(E[(0,) + tuple(sorted((a, b)))], E[(1,) + tuple(sorted((x, y)))])))
    ch = {}; c.inp("ch", ch)
    def choose(n, o): ch[n] = r = c.choose(n, o); return r
    bs = [c.bool(f"b{i}") for i in range(sum(cfg["n"]))]; c.inp("bits", bs)
    bits = [core.SymInt([core.tolit(b), core.F]) if core.is_sym(b) else int(b) for b in bs]
    class S:
        def __call__(self, ok, msg): c.check(ok, msg)
        def iff(self, a, b, msg): c.check(core.mk_iff(a != 0 if isinstance(a, core.SymInt) else a, b != 0 if isinstance(b, core.SymInt) else b), msg)
    _run(S(), mp, cfg, gs, E, choose, bits)
def replay_struct(inp, cfg):
    import mentpy as mp
    gs = []; E = {}
    for k, n in enumerate(cfg["n"]):
        d = inp[f"g{k}"]; gs.append(cm.mk_graph(mp, d)); es = cm.edges_of(d)
        for u, v in itertools.combinations(range(n), 2): E[k, u, v] = frozenset((u, v)) in es
    for (a, b), (x, y) in _double(cfg, E):
        if E[(0,) + tuple(sorted((a, b)))] and E[(1,) + tuple(sorted((x, y)))]: return None
    try: _run(CC(), mp, cfg, gs, E, lambda n, o: inp["ch"].get(n, o[0]), [int(b) for b in inp["bits"]])
    except Bad as e: return f"{e} ({cfg['op']} of {inp['g0']['edges']} {cfg['io'][0]} and {inp['g1']['edges']} {cfg['io'][1]}, choices {inp['ch']})"
def _multi(chk, mp, cfg, choose, bits):
    W = [WIRES[w] for w in cfg["ws"]]
    gs = [cm.mk_graph(mp, {"nodes": list(range(n)), "edges": e}) for n, e, I, O in W]
    ns = [w[0] for w in W]; ios = [(w[2], w[3]) for w in W]
    E = {(k, u, v): [u, v] in W[k][1] or [v, u] in W[k][1] for k in range(len(W)) for u, v in itertools.combinations(range(ns[k]), 2)}
    r, ins, outs = _plan(cfg["op"], ios, [])
    cs, tag = _tagged(mp, gs, ns, ios); comp = _compose(mp, cfg["op"], cs, [])
    nm = _identify(chk, comp, tag, r, [(k, v) for k in range(len(gs)) for v in range(ns[k])], ins, outs)
    _edges(chk, comp, nm, r, E)
    if len(cs) > 1: _kinds(chk, mp, cfg["op"], [], gs, ns, ios, nm, r, choose, bits)
def run_multi(c, cfg):
    from symx import load, core
    mp = load.load(); ch = {}; c.inp("ch", ch)
    def choose(n, o): ch[n] = r = c.choose(n, o); return r
    bs = [c.bool(f"b{i}") for i in range(12)]; c.inp("bits", bs)
    bits = [core.SymInt([core.tolit(b), core.F]) if core.is_sym(b) else int(b) for b in bs]
    class S:
        def __call__(self, ok, msg): c.check(ok, msg)
        def iff(self, a, b, msg): c.check(core.mk_iff(a != 0 if isinstance(a, core.SymInt) else a, b != 0 if isinstance(b, core.SymInt) else b), msg)
    _multi(S(), mp, cfg, choose, bits)
def replay_multi(inp, cfg):
    import mentpy as mp
    try: _multi(CC(), mp, cfg, lambda n, o: inp["ch"].get(n, o[0]), [int(b) for b in inp["bits"]])
    except Bad as e: return f"{e} ({cfg['op']} of {cfg['ws']}, {inp['ch']})"
def _rej(mp, cfg, g1, g2):
    (n1, n2), (w1, w2) = cfg["n"], cfg["w"]
    a = _mc(mp, g1, list(range(w1)), list(range(n1))[::-1][:w1], None); b = _mc(mp, g2, list(range(w2)), list(range(n2))[::-1][:w2], None)
    sa, sb = _snap(a), _snap(b)
    O1, I2 = list(a.output_nodes), list(b.input_nodes)
    noto = [v for v in range(n1) if v not in O1]; noti = [v for v in range(n2) if v not in I2]
    tries = [("sequence of different sizes", lambda: mp.hstack([a, b])), ("empty stack", lambda: mp.vstack([])), ("empty sequence", lambda: mp.hstack([])),
             ("non-output", lambda: mp.merge(a, b, along=[(noto[0], I2[0])])), ("non-input", lambda: mp.merge(a, b, along=[(O1[0], noti[0])])), ("unknown node", lambda: mp.merge(a, b, along=[(77, I2[0])])),
             ("second pair invalid", lambda: mp.merge(a, b, along=[(O1[0], I2[0]), (noto[0], I2[-1])]))]
    if w2 == 2: tries.append(("output twice", lambda: mp.merge(a, b, along=[(O1[0], I2[0]), (O1[0], I2[1])])))
    if w1 == 2: tries.append(("input twice", lambda: mp.merge(a, b, along=[(O1[0], I2[0]), (O1[1], I2[0])])))
    for what, f in tries:
        try: _q(f)
        except Exception: continue
        return what + " accepted"
    if _snap(a) != sa or _snap(b) != sb: return "a rejected call changed an operand"
def run_reject(c, cfg):
    from symx import nxx, load
    mp = load.load(); gs = [nxx.sym_graph(c, mp.GraphState, f"g{k}", list(range(n))) for k, n in enumerate(cfg["n"])]
    m = _rej(mp, cfg, *gs); c.check(m is None, "mismatched sizes and invalid pairs are rejected")
def replay_reject(inp, cfg):
    import mentpy as mp
    return _rej(mp, cfg, cm.mk_graph(mp, inp["g0"]), cm.mk_graph(mp, inp["g1"]))
# ---- semantics
def _apply(state, qubits, M, ins, outs):
    "apply the matrix M (columns: ins, rows: outs) to the qubits `ins` of the state {bits: amplitude}"
    rest = [q for q in qubits if q not in ins]; res = {}
    for bits, a in state.items():
        b = dict(zip(qubits, bits)); col = int("".join(str(b[q]) for q in ins) or "0", 2)
        for row, o in enumerate(itertools.product((0, 1), repeat=len(outs))):
            key = o + tuple(b[q] for q in rest); t = M[row][col] * a
            res[key] = res[key] + t if key in res else t
    return res, list(outs) + rest
def _expected(cfg, psi, bra):
    "amplitudes of the composite"
    W = [WIRES[w] for w in cfg["ws"]]; Ms = []
    for k, (n, e, I, O) in enumerate(W):
        cols = [sr.branch(range(n), e, I, [1 if j == i else 0 for j in range(2 ** len(I))], {v: bra(k, v) for v in range(n) if v not in O}, O) for i in range(2 ** len(I))]
        Ms.append([[cols[j][i] for j in range(len(cols))] for i in range(2 ** len(O))])
    (n1, e1, I1, O1), (n2, e2, I2, O2) = W; op = cfg["op"]
    al = [] if op == "side" else list(zip(O1, I2)) if op == "seq" else [(O1[a], I2[b]) for a, b in cfg["along"]]
    g = dict(al); ing = {b: a for a, b in al}
    q = [("i1", i) for i in I1] + [("i2", i) for i in I2 if i not in ing]
    st = dict(zip(itertools.product((0, 1), repeat=len(q)), psi))
    st, q = _apply(st, q, Ms[0], [("i1", i) for i in I1], [("m", o) for o in O1])
    st, q = _apply(st, q, Ms[1], [("m", ing[i]) if i in ing else ("i2", i) for i in I2], [("o2", o) for o in O2])
    r, ins, outs = _plan(op, [(I1, O1), (I2, O2)], al)
    name = lambda o: ("o2", o[1]) if o[0] == 1 else ("m", o[1])
    pos = [q.index(name(o)) for o in outs]
    return [st[tuple(b[pos.index(k)] for k in range(len(q)))] for b in itertools.product((0, 1), repeat=len(q))]
def _sem_build(mp, cfg):
    W = [WIRES[w] for w in cfg["ws"]]; gs = [cm.mk_graph(mp, {"nodes": list(range(n)), "edges": e}) for n, e, I, O in W]
    ns = [w[0] for w in W]; ios = [(w[2], w[3]) for w in W]; op = cfg["op"]
    al = [(ios[0][1][a], ios[1][0][b]) for a, b in cfg.get("along", [])]
    r, ins, outs = _plan(op, ios, al); cs, tag = _tagged(mp, gs, ns, ios)
    nm = _identify(CC(), _compose(mp, op, cs, al), tag, r, [(k, v) for k in range(2) for v in range(ns[k])], ins, outs)
    comp = _compose(mp, op, [_mc(mp, g, *io_, None) for g, io_ in zip(gs, ios)], al)
    return comp, nm, W, len(ins)
def run_sem(c, cfg):
    from symx import load, core, poly, arr
    mp = load.load()
    try: comp, nm, W, w = _sem_build(mp, cfg)
    except Bad as e: c.fail(f"composite: {e}")
    A = {(k, v): poly.angle(f"t{k}_{v}") for k in range(2) for v in range(W[k][0]) if v not in W[k][3]}
    psi = poly.amps("psi", 2 ** w); c.inp("psi", psi); c.inp("A", {f"{k},{v}": a for (k, v), a in A.items()})
    c.check(comp.flow is not None, "the composite of circuits with flow has a flow")
    if comp.flow is None: return
    want = _expected(cfg, psi, lambda k, v: sr.sbra("XY", A[k, v]))
    c.check(sorted(nm[v] for v in comp.trainable_nodes) == sorted(A), "the trainable nodes are those of the operands")
    for be in ("numpy-dm", "numpy-sv"):
        sim = mp.PatternSimulator(comp, input_state=arr.mk(np.array(psi, dtype=object), "c"), backend=be)
        rho = sim.run([A[nm[v]] for v in comp.trainable_nodes])
        sr.check_state(c, rho, want, f"{be}: the composite computes the composition")
def replay_sem(inp, cfg):
    import mentpy as mp
    try: comp, nm, W, w = _sem_build(mp, cfg)
    except Bad as e: return f"composite: {e}"
    A = {tuple(map(int, k.split(","))): float(v) for k, v in inp["A"].items()}
    psi = sr.cv(inp["psi"]); psi /= np.linalg.norm(psi)
    if comp.flow is None: return "the composite has no flow"
    want = sr.dm(_expected(cfg, psi, lambda k, v: sr.cbra("XY", A[k, v])))
    if sorted(nm[v] for v in comp.trainable_nodes) != sorted(A): return "trainable nodes"
    for be in ("numpy-dm", "numpy-sv"):
        rho = mp.PatternSimulator(comp, input_state=psi, backend=be).run([A[nm[v]] for v in comp.trainable_nodes])
        if np.shape(rho) != want.shape or not np.allclose(rho, want, atol=1e-7): return f"{be}: {cfg['op']} of {cfg['ws']} does not compute the composition (angles {A})"
