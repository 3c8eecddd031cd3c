"""Adding edges to a circuit: the circuit with those edges, or exactly the old one."""
import itertools, warnings, contextlib, io
from checks import common as cm
MODE = "bits"
BOUNDS = {"quick": "every graph of 3 nodes and every graph of 4 nodes with two inputs, chosen inputs/outputs and measurement maps (fixed, trainable, planes, a control, a measured output), histories of up to 3 operations out of: any edge, two edges, an edge to a new node, edge lists with an invalid element, replacing and deleting a measurement",
          "thorough": "more histories (up to 4 operations), every graph of 4 nodes for all input/output types"}
ASSUMPTIONS = ["control conditions stay acyclic (others are skipped)", "no loops are added"]
BUDGET = {"quick": 240, "thorough": 850}
KIND = {"XY": ("XY", None), "X": ("X", 0), "Y": ("Y", 0), "XYf": ("XY", 0.5), "YZ": ("YZ", None), "none": None}
BADS = [[None, 0], [0], [0, 1, 2, 3], [[0], 1], 5]
HIST = {
 "one": [["add", 1]], "two at once": [["add", 2]], "two in a row": [["add", 1], ["add", 1]], "new node": [["new"]], "new node, then one": [["new"], ["add", 1]],
 "bad": [["bad"]], "good then bad": [["add", 1], ["bad"]], "bad then good": [["bad"], ["add", 1]], "bad list": [["badlist"]], "good then bad list": [["add", 1], ["badlist"], ["add", 1]],
 "set": [["set"], ["add", 1]], "between": [["add", 1], ["set"], ["add", 1]], "delete": [["del"], ["add", 1]], "set then bad": [["set"], ["bad"]],
 "set, bad, set": [["set"], ["badlist"], ["set"], ["add", 1]], "new, bad, new": [["new"], ["bad"], ["new"], ["add", 1]], "nothing": [["add", 0]],
}
MAPS = {"default": {}, "fixed": {0: "XYf", 1: "X"}, "planes": {1: "YZ", 2: "Y"}, "measured output": {-1: "XYf"}, "control": {1: "ctl0"}, "control last": {-2: "ctl0"}}
def configs(tier):
    T = tier == "thorough"; out = []
    ios = {3: [([0], [2]), ([2], [1]), ([1, 0], [2, 1])], 4: [([0, 1], [2, 3]), ([1, 0], [3, 0])] + ([([0], [3]), ([2], [0]), ([2, 0, 1], [1, 3, 2])] if T else [])}
    for n in (3, 4):
        for I, O in ios[n]:
            for k, (h, ops) in enumerate(HIST.items()):
                ms = (list(MAPS) if T or len(ops) < 2 else list(MAPS)[k % 2::2]) if n == 3 else [list(MAPS)[(k + I[0]) % len(MAPS)], list(MAPS)[(k + 3) % len(MAPS)]] if T else [list(MAPS)[(k + I[0]) % len(MAPS)]]
                if n == 4 and (len(ops) > (2 if T else 1) or sum(len(I) > 2 and o[0] == "badlist" for o in ops)): continue
                for m in ms:
                    # the labels are permuted so that node names and positions differ
                    out.append({"name": f"n={n} I={I} O={O} {h} / {m}", "n": n, "I": I, "O": O, "ops": ops, "map": m, "full": T and n == 3 and len(ops) == 3, "weight": n ** 2 * len(ops)})
    return out
class Chk:
    def __init__(self, c): self.c = c
    def __call__(self, ok, msg): self.c.check(ok, msg)
    def eq(self, a, b, msg):
        from symx import core
        self.c.check(core.mk_iff(a, b), msg)
    def none(self, E, nodes, I, O):
        from symx import core
        self.k = getattr(self, "k", 0) + 1
        self.c.check(core.mk_not(cm.sym_cflow(self.c, E, nodes, I, O, tag=f"w{self.k}")), "flow is computed for the new graph")
class Bad(Exception): pass
class CChk:
    def __call__(self, ok, msg):
        if not ok: raise Bad(msg)
    def eq(self, a, b, msg): self(bool(a) == bool(b), msg)
    def none(self, E, nodes, I, O):
        es = {frozenset(p) for p in itertools.combinations(nodes, 2) if E(*p)}
        self(cm.has_cflow(es, nodes, I, O) is None, "flow is computed for the new graph")
def _q(f):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore"); return f()
class Cyclic(Exception): pass
def _same(chk, mp, mc, S):
    "the circuit is what the model S says"
    N, E, I, O, M = S["nodes"], S["E"], S["I"], S["O"], S["M"]
    chk(sorted(mc.graph.nodes()) == sorted(N), "the circuit has exactly the nodes of the old one and of the edges")
    for u, v in itertools.combinations(N, 2): chk.eq(mc.graph.has_edge(u, v), E(u, v), "the graph is the old one with the added edges")
    chk(list(mc.input_nodes) == I and list(mc.output_nodes) == O, "inputs and outputs are kept")
    chk(set(mc.measurements) == set(N), "every node has a measurement entry")
    ctl = []
    for v in N:
        x, k = mc[v], M[v]
        if k == "none": chk(x is None, "unmeasured nodes stay unmeasured"); continue
        chk(x is not None and x.node_id == v, "measurements stay on their nodes")
        chk(isinstance(x, mp.ControlMent) == k.startswith("ctl"), "measurements keep their kind")
        if k.startswith("ctl"): chk(set(x.condition.cond_nodes) == {int(k[3:])}, "conditions keep their nodes"); ctl.append((v, int(k[3:])))
        else: chk((x.plane, x.angle) == KIND[k], "measurements keep plane and angle")
    chk(sorted(mc.trainable_nodes) == sorted(v for v in N if M[v] in ("XY", "YZ") or M[v].startswith("ctl")), "trainable nodes are kept")
    chk(sorted(mc.controlled_nodes) == sorted(v for v, _ in ctl), "controlled nodes are kept")
    chk(list(mc.quantum_output_nodes) == [o for o in O if M[o] == "none"] and list(mc.classical_output_nodes) == [o for o in O if M[o] != "none"], "quantum and classical outputs are kept")
    f, po = mc.flow, mc.partial_order
    chk((f is None) == (po is None), "flow and order come together")
    if f is None: chk.none(E, N, I, O); return
    if ctl:                     # is reading compatible with the flow of this graph?
        D = {u: set() for u in N}
        for u in N:
            if u not in O: D[u] |= {f(u)} | {w for w in N if w not in (u, f(u)) and bool(E(f(u), w))}
        for v, r in ctl: D[r].add(v)
        for k, i, j in itertools.product(N, repeat=3):
            if k in D[i] and j in D[k]: D[i].add(j)
        if any(u in D[u] for u in N): raise Cyclic
    ims = []
    for u in N:
        if u in O: continue
        y = f(u); ims.append(y); chk(y in N and y not in I, "the flow maps to non-inputs"); chk.eq(E(u, y), True, "the flow follows the new edges"); chk(po(u, y), "the order follows the flow")
        for w in N:
            if w != u and w != y and not po(u, w): chk.eq(E(y, w), False, "the order follows the new edges")
    chk(len(set(ims)) == len(ims), "the flow is injective")
    for v, r in ctl: chk(po(r, v), "nodes that are read come before the controlled node")
    for a, b, d in itertools.product(N, repeat=3):
        if po(a, b) and po(b, d): chk(po(a, d), "the order is transitive")
    mo = list(mc.measurement_order); chk(sorted(mo) == sorted(N), "the measurement order lists every node once")
    for i, j in itertools.combinations(range(len(mo)), 2): chk(not po(mo[j], mo[i]), "the measurement order respects the order")
def _ment(mp, k, mc=None):
    if k == "none": return None
    if k.startswith("ctl"):
        o = mp.Ment("XY"); o.node_id = int(k[3:]); return mp.ControlMent(o.outcome, 0.25, "XY", None, "XY")
    return mp.Ment(0.5, "XY") if k == "XYf" else mp.Ment(k)
def _hist(chk, mp, g, edge0, cfg, choose_):
    few = len(cfg["ops"]) > 2 and not cfg.get("full")      # long histories: a few alternatives per step, all of them over the configurations
    off = len(cfg["name"])
    def choose(nm, o):
        if few and len(o) > 2: o = [o[(off + i * (1 + len(o) // 2)) % len(o)] for i in range(2)]
        return choose_(nm, o)
    n = cfg["n"]; I, O = list(cfg["I"]), list(cfg["O"]); N = list(range(n))
    M = {v: "none" if v in O else "XY" for v in N}
    for v, k in MAPS[cfg["map"]].items():
        v = [u for u in N if u not in O][-1] if v == -2 else O[-1] if v == -1 else v
        if k.startswith("ctl") and (v == 0 or 0 in O) or (v in O and cfg["map"] != "measured output"): continue
        M[v] = k
    ms = {v: _ment(mp, k) for v, k in M.items()}
    mc = _q(lambda: mp.MBQCircuit(g, input_nodes=list(I), output_nodes=list(O), measurements=ms))
    added = set(); E = lambda u, v: True if frozenset((u, v)) in added else edge0(u, v) if u < n and v < n else False
    S = {"nodes": N, "E": E, "I": I, "O": O, "M": M}; fresh = n
    _same(chk, mp, mc, S)
    for s, (op, *a) in enumerate(cfg["ops"]):
        P = [list(p) for p in itertools.combinations(S["nodes"], 2)]
        if op == "add":
            es = [choose(f"e{s}.{i}", P) for i in range(a[0])]
            es = [e if (s + i) % 2 else e[::-1] for i, e in enumerate(es)]
            arg = [tuple(e) for e in es]; arg0 = list(arg)
            _q(lambda: mc.add_edge(*arg[0]) if a[0] == 1 and s % 2 == 0 else mc.add_edges_from(arg))
            chk(arg == arg0, "the list of edges is unchanged"); added |= {frozenset(e) for e in es}
        elif op == "new":
            u = choose(f"e{s}", S["nodes"]); e = (u, fresh) if s % 2 == 0 else (fresh, u)
            _q(lambda: mc.add_edge(*e)); S["nodes"] = S["nodes"] + [fresh]; added.add(frozenset(e)); M[fresh] = "XY"; fresh += 1
        elif op in ("bad", "badlist"):
            b = choose(f"b{s}", BADS if op == "bad" else BADS[s % 2:s % 2 + 2]); b = tuple(b) if isinstance(b, list) else b
            good = tuple(choose(f"e{s}", P[:2] + P[-1:] if n == 3 else P[1:3])) if op == "badlist" else None
            before = (id(mc.graph), id(mc.measurements), list(mc.measurement_order or []))
            try:
                if op == "bad" and isinstance(b, tuple) and len(b) == 2: _q(lambda: mc.add_edge(*b))
                else: _q(lambda: mc.add_edges_from([good, b] if good else [b]))
                ok = False
            except ValueError: ok = True
            except TypeError: ok = None
            chk(ok is True, "invalid edges are rejected with a ValueError")
        elif op == "set":
            v = choose(f"v{s}", [u for u in S["nodes"] if u not in O]); k = choose(f"k{s}", ["XYf", "YZ"]); mc[v] = _ment(mp, k); M[v] = k
        elif op == "del":
            v = choose(f"v{s}", [u for u in S["nodes"] if u not in O]); _q(lambda: mc.__delitem__(v)); M[v] = "none"
        _same(chk, mp, mc, S)
        for u, v in itertools.combinations(N, 2): chk.eq(g.has_edge(u, v), edge0(u, v), "the caller's graph is unchanged")
        chk(sorted(g.nodes()) == N, "the caller's graph has its own nodes")
def run(c, cfg):
    from symx import nxx, load, core
    mp = load.load(); g = nxx.sym_graph(c, mp.GraphState, "g", list(range(cfg["n"]))); snap = c.inputs["g"]; ch = {}; c.inp("ch", ch)
    def choose(n, o):
        i = c.choose(n, list(range(len(o)))); ch[n] = i; return o[i]
    try: _hist(Chk(c), mp, g, lambda u, v: core.mkbool(snap.lit(u, v)), cfg, choose)
    except Cyclic: return
def replay(inp, cfg):
    import mentpy as mp
    E = cm.edges_of(inp["g"])
    try: _hist(CChk(), mp, cm.mk_graph(mp, inp["g"]), lambda u, v: frozenset((u, v)) in E, cfg, lambda n, o: o[inp["ch"].get(n, 0)])
    except Bad as e: return f"{e} (graph {inp['g']['edges']}, choices {inp['ch']})"
    except Cyclic: return None
