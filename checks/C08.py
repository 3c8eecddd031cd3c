"""Bookkeeping of a circuit under any history of measurement edits."""
import itertools
from checks import common as cm
MODE = "bits"
BOUNDS = {"quick": "all histories of up to 2 edits (set, replace, delete, replace the whole map) with every kind of measurement (planes XY, XZ, YZ, X, Y, Z, trainable and fixed, controlled) on every node, starting from circuits built with defaults, with given measurements and with a shared measurement map, on 3- and 4-node circuits with overlapping and permuted inputs and outputs; outcome readings for all outcome bits",
          "thorough": "all histories of up to 3 edits on 3 nodes and 2 on 4 nodes"}
ASSUMPTIONS = ["circuits with flow", "plane and angle of controlled measurements are covered by C14"]
BUDGET = {"quick": 300, "thorough": 850}
CIRC = {"wire": dict(n=3, edges=[[0, 1], [1, 2]], I=[0], O=[2]),
        "pair": dict(n=4, edges=[[0, 3], [1, 2], [0, 1]], I=[0, 1], O=[3, 2]),
        "overlap": dict(n=3, edges=[[1, 0], [2, 0]], I=[1, 2], O=[0, 1])}
KINDS = ["XY", "XY0", "XYf", "XZ", "YZf", "X", "Y", "Z", "ctl", "ctl fixed"]
START = ["default", "given", "shared", "copy of another circuit's map"]
def configs(tier):
    T = tier == "thorough"; out = []
    for cn, K in CIRC.items():
        for st in START:
            for e in ("set", "delete", "map"):
                for v in range(K["n"]):
                    out.append({"name": f"{cn} {st}: {e} {v}", "circ": cn, "start": st, "e": e, "v": v, "len": 3 if T and K["n"] == 3 and st in ("default", "shared") else 2, "weight": K["n"]})
    return out
def _ment(mp, k, other):
    if k == "ctl": return mp.ControlMent(other.outcome, 0.25, "XY", None, "XY")
    if k == "ctl fixed": return mp.ControlMent(other.outcome, 0.25, "XY", 0, "X")
    if k == "XY0": return mp.Ment(0, "XY")
    if k.endswith("f"): return mp.Ment(0.5, k[:-1])
    return mp.Ment(k)
def _tr(k): return k in ("XY", "XZ", "ctl")
def _pl(k): return "XY" if k in ("XY0", "XYf") else k.rstrip("f")
def _check(c, mp, mc, K, M, bits, who):
    "compare the circuit with the model M: node -> kind or None"
    N = range(K["n"])
    tr = list(mc.trainable_nodes)
    c(sorted(tr) == [v for v in N if M[v] and _tr(M[v])], f"{who}: trainable nodes {tr} for {M}")
    c(sorted(mc.controlled_nodes) == [v for v in N if M[v] and M[v].startswith("ctl")], f"{who}: controlled nodes {mc.controlled_nodes} for {M}")
    c(list(mc.quantum_output_nodes) == [v for v in K["O"] if M[v] is None], f"{who}: quantum outputs {mc.quantum_output_nodes} for {M}")
    c(list(mc.classical_output_nodes) == [v for v in K["O"] if M[v] is not None], f"{who}: classical outputs {mc.classical_output_nodes} for {M}")
    c(set(mc.planes) == set(N) and set(mc.measurements) == set(N), f"{who}: every node is in the plane table and the measurement map")
    for v in N:
        m = mc[v]
        if M[v] is None:
            c(m is None and mc.planes[v] == "", f"{who}: node {v} has no measurement"); continue
        c(m is not None and isinstance(m, mp.ControlMent) == M[v].startswith("ctl"), f"{who}: kind of measurement of node {v}")
        if m is None: continue
        c(m.node_id == v and mc.measurements[v] is m, f"{who}: measurement of node {v} knows node {m.node_id}")
        c(m.outcome.cond_nodes == {v}, f"{who}: outcome of node {v} depends on {m.outcome.cond_nodes}")
        c(m.outcome(bits) == bits[v], f"{who}: outcome of node {v} reads another result")
        c(m.is_trainable() == _tr(M[v]), f"{who}: trainability of node {v}")
        if not M[v].startswith("ctl"):
            c(mc.planes[v] == _pl(M[v]) and m.plane == _pl(M[v]), f"{who}: plane of node {v} is {mc.planes[v]} for {M[v]}")
            c(m.angle == (None if _tr(M[v]) else 0.5 if M[v].endswith("f") else 0), f"{who}: angle of node {v}")
def _snap(m): return (type(m).__name__, m.node_id, None if type(m).__name__ == "ControlMent" else (m.plane, m.angle), id(m._outcome), id(m.outcome), m._plane, m._angle)
def _drive(mp, cfg, choose, check, bits, steps):
    K = CIRC[cfg["circ"]]; N = list(range(K["n"]))
    g = cm.mk_graph(mp, {"nodes": N, "edges": K["edges"]})
    mk = lambda **k: mp.MBQCircuit(g, input_nodes=list(K["I"]), output_nodes=list(K["O"]), **k)
    dflt = {v: (None if v in K["O"] else "XY") for v in N}
    owned = []          # measurement objects owned by the caller
    own = lambda m: (owned.append((m, _snap(m))), m)[1]
    M = dict(dflt); other = None; maps = []
    last = [v for v in N if v not in K["O"]][-1]
    if cfg["start"] == "default": mc = mk()
    else:
        src = mk()
        ms = {last: own(_ment(mp, "XZ", src[N[0]] or src[last])), K["O"][0]: own(_ment(mp, "X", src[last]))}
        M[last] = "XZ"; M[K["O"][0]] = "X"
        if cfg["start"] == "copy of another circuit's map":
            other = mk(measurements=ms); mc = mk(measurements=other.measurements)
        else:
            mc = mk(measurements=ms)
            if cfg["start"] == "shared": other = mk(measurements=ms)
            maps.append((ms, dict(ms)))
    OM = dict(M)
    _check(check, mp, mc, K, M, bits, "at construction")
    for k in range(cfg["len"]):
        if k: 
            e = choose(f"e{k}", ["set", "delete", "map", "stop"])
            if e == "stop": break
            v = choose(f"v{k}", N)
        else: e, v = cfg["e"], cfg["v"]
        if e == "set":
            kd = choose(f"k{k}", KINDS if cfg["len"] - k > 1 or cfg["len"] == 2 else ["XY", "X", "ctl", "ctl fixed"])
            src = next((mc[u] for u in N if u != v and mc[u] is not None), None)
            if src is None: return
            m = own(_ment(mp, kd, src)); steps.append([e, v, kd]); mc[v] = m; M[v] = kd
        elif e == "delete": steps.append([e, v, None]); del mc[v]; M[v] = None
        else:
            kd = choose(f"k{k}", ["YZf", "ctl", "XY"]); src = next((mc[u] for u in N if u != v and mc[u] is not None), None)
            if src is None: return
            ms = {v: own(_ment(mp, kd, src))}
            extra = choose(f"x{k}", ["none", "delete next", "reuse"])
            w = N[(v + 1) % len(N)]; M2 = dict(dflt); M2[v] = kd
            if extra == "delete next": ms[w] = None; M2[w] = None
            if extra == "reuse": ms[w] = mc[w]; M2[w] = M[w]
            keep = dict(ms); steps.append([e, v, kd + " " + extra]); mc.measurements = ms; M = M2; maps.append((ms, keep))
        if any(mc[u] is None for u in N if M[u]) : pass
        _check(check, mp, mc, K, M, bits, f"after {steps}")
        for m, s in owned: check(_snap(m) == s, f"a measurement of the caller was changed by {steps}")
        for ms, keep in maps: check(set(ms) == set(keep) and all(ms[x] is keep[x] for x in keep), f"the measurement map of the caller was changed by {steps}")
        if other is not None: _check(check, mp, other, K, OM, bits, "the other circuit")
def run(c, cfg):
    from symx import load, core
    mp = load.load(); steps = []; c.inp("steps", steps); ch = {}; c.inp("choices", ch)
    def choose(n, o): ch[n] = r = c.choose(n, o); return r
    bs = [c.bool(f"o{v}") for v in range(CIRC[cfg["circ"]]["n"])]
    bits = {v: (core.SymInt([core.tolit(b), core.F]) if core.is_sym(b) else int(b)) for v, b in enumerate(bs)}
    c.inp("bits", bs)
    _drive(mp, cfg, choose, lambda ok, msg: c.check(ok, "bookkeeping equals what the current measurements imply; the caller's objects are untouched"), bits, steps)
def replay(inp, cfg):
    import mentpy as mp
    class Bad(Exception): pass
    def check(ok, msg):
        if not ok: raise Bad(msg)
    try: _drive(mp, cfg, lambda n, o: inp["choices"].get(n, o[-1] if n[0] != "e" else "stop") if n in inp["choices"] else (_ for _ in ()).throw(Bad("")), check, {v: int(b) for v, b in enumerate(inp["bits"])}, [])
    except Bad as e: return str(e) or None
