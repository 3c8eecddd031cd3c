"""Histories of simulator calls: the result depends only on the arguments."""
import itertools
import numpy as np
from checks import common as cm, simref as sr
MODE = "poly"
BOUNDS = {"quick": "all histories of up to two earlier calls (runs with and without a new input, partial node-by-node measurements, resets with and without an input, results read in every output form) followed by a run, a reset and a run, or a node-by-node measurement, on 6 circuits of 2-4 nodes with permuted inputs and outputs, fixed and X/Y measurements and larger windows; all angles and normalised input states; wrong angle counts on all three backends",
          "thorough": "the same with up to three earlier calls and 8 circuits"}
ASSUMPTIONS = ["outcome 0 (the only branch the numpy simulators produce)"]
BUDGET = {"quick": 300, "thorough": 850}
CIRC = {
 "wire3": dict(n=3, edges=[[0, 1], [1, 2]], I=[0], O=[2], kinds={}),
 "wire3 window3": dict(n=3, edges=[[0, 1], [1, 2]], I=[0], O=[2], kinds={"1": "X"}, window=3),
 "overlap": dict(n=3, edges=[[0, 1], [0, 2]], I=[1, 0], O=[2, 1], kinds={}),
 "ladder": dict(n=4, edges=[[0, 2], [1, 3], [0, 1]], I=[0, 1], O=[3, 2], kinds={"1": "fix"}),
 "ladder permuted": dict(n=4, edges=[[3, 0], [2, 1], [0, 1]], I=[2, 3], O=[0, 1], kinds={"3": "Y"}),
 "late input": dict(n=3, edges=[[2, 1], [1, 0]], I=[2], O=[0], kinds={}),
 "wire4": dict(n=4, edges=[[3, 1], [1, 0], [0, 2]], I=[3], O=[2], kinds={"0": "fix"}),
 "ladder window4": dict(n=4, edges=[[0, 2], [1, 3], [0, 1]], I=[1, 0], O=[2, 3], kinds={}, window=4),
}
CIRC["three wires"] = dict(n=4, edges=[[0, 3], [0, 1]], I=[1, 2, 0], O=[2, 3, 1], kinds={}, window=4, schedule=[0, 1, 2, 3])
OPS = ["-", "run", "run with input", "partial measure", "reset", "reset with input"]
FINAL = ["run with input", "reset and run", "reset and measure"]
def configs(tier):
    T = tier == "thorough"
    out = []
    for name in (list(CIRC) if T else list(CIRC)[:6] + ["three wires"]):
        for be in ("numpy-dm", "numpy-sv"):
            for op in OPS:
                out.append({"name": f"{name} {be} first: {op}", "h": "hist", "circ": name, "be": be, "op": op, "len": 3 if T else 2, "weight": len(CIRC[name]["I"])})
        out.append({"name": f"{name} pennylane", "h": "penny", "circ": name})
        out.append({"name": f"{name} angle counts", "h": "count", "circ": name})
    return out
def _kw(K): return {**({"window_size": K["window"]} if "window" in K else {}), **({"schedule": list(K["schedule"])} if "schedule" in K else {})}
def _mc(mp, K, A):
    ms = {}
    for v in range(K["n"]):
        if v in K["O"]: continue
        k = K["kinds"].get(str(v), "XY")
        ms[v] = mp.Ment("XY") if k == "XY" else mp.Ment(A[v], "XY") if k == "fix" else mp.Ment(k)
    g = mp.GraphState(); g.add_nodes_from(range(K["n"])); g.add_edges_from(map(tuple, K["edges"]))
    return mp.MBQCircuit(g, input_nodes=list(K["I"]), output_nodes=list(K["O"]), measurements=ms)
def _ang(mc, i, A):
    "angle handed to the single-measurement call"
    return A[i] if i in mc.trainable_nodes else mc[i].angle
def _do(sim, mc, op, A, st):
    if op == "run": return sim.run([A[v] for v in mc.trainable_nodes])
    if op == "run with input": return sim.run([A[v] for v in mc.trainable_nodes], input_state=st)
    if op == "partial measure":
        k = len(sim.schedule_measure) - sim.current_measurement
        for i in sim.schedule_measure[sim.current_measurement:][:max(1, k - 1)]: sim.measure(_ang(mc, i, A))
    if op == "reset": sim.reset()
    if op == "reset with input": sim.reset(input_state=st)
def _reorder(state, cur, want, T):
    "permute the qubits of a vector / matrix"
    k = len(cur); ax = [cur.index(v) for v in want]
    if state.ndim == 1: return state.reshape([2] * k).transpose(ax).reshape(-1)
    return state.reshape([2] * (2 * k)).transpose(ax + [a + k for a in ax]).reshape(2 ** k, 2 ** k)
def run_hist(c, cfg):
    from symx import poly, load, arr
    mp = load.load(); K = CIRC[cfg["circ"]]; n, I, O = K["n"], K["I"], K["O"]
    meas = [v for v in range(n) if v not in O]
    F = {v: poly.angle(f"f{v}") for v in meas}        # fixed angles of the circuit
    A = {v: poly.angle(f"a{v}") for v in meas}; B = {v: poly.angle(f"b{v}") for v in meas}
    S = {k: poly.amps(k, 2 ** len(I)) for k in ("chi", "phi", "psi")}
    for k in S: c.inp(k, S[k])
    for k, X in (("F", F), ("A", A), ("B", B)): c.inp(k, {str(v): X[v] for v in meas})
    hist = [cfg["op"]]
    for j in range(1, cfg["len"]):
        if hist[-1] == "-": break
        hist.append(c.choose(f"op{j}", OPS))
    final = c.choose("final", FINAL)
    c.inp("hist", hist); c.inp("final", final)
    mc = _mc(mp, K, F); c.check(mc.flow is not None, "has flow")
    V = {k: arr.mk(np.array(S[k], dtype=object), "c") for k in S}
    kw = _kw(K)
    sim = mp.PatternSimulator(mc, input_state=V["chi"], backend=cfg["be"], **kw)
    old = []; fresh = True
    for op in hist:
        if op == "run" and not fresh: sim.reset()     # a run measures from the current state
        r = _do(sim, mc, op, A, V["phi"])
        if op in ("run", "run with input"): old.append((r, arr.raw(r).copy()))
        fresh = op in ("-", "reset", "reset with input") or (op == "-" and fresh)
    kinds = {v: K["kinds"].get(str(v), "XY") for v in meas}
    v = sr.branch(range(n), K["edges"], I, S["psi"], {u: sr.sbra(kinds[u], B[u] if kinds[u] == "XY" else F[u]) for u in meas}, O)
    if final == "run with input": res = sim.run([B[u] for u in mc.trainable_nodes], input_state=V["psi"])
    else:
        sim.reset(input_state=V["psi"])
        if final == "reset and run": res = sim.run([B[u] for u in mc.trainable_nodes])
        else:
            for i in list(sim.schedule_measure): sim.measure(_ang(mc, i, B))
            q = arr.raw(sim.qstate); cur = list(sim.current_simulated_nodes())
            c.check(sorted(cur) == sorted(O), "only the outputs are left")
            if sorted(cur) != sorted(O): return
            q = _reorder(q, cur, O, None)
            res = q if q.ndim == 2 else sr.outer(q)
            c.check(all(sim.outcomes[i] == 0 for i in meas), "outcome 0 is recorded for every measured node")
    sr.check_state(c, res, v, "same result as a new simulator")
    for r, k in old: poly.check_eq(c, r, k, "results returned earlier do not change")
    for k in S: poly.check_eq(c, V[k], np.array(S[k], dtype=object), "input states unchanged")
def replay_hist(inp, cfg):
    import mentpy as mp
    K = CIRC[cfg["circ"]]; n, I, O = K["n"], K["I"], K["O"]; meas = [v for v in range(n) if v not in O]
    F, A, B = ({int(k): float(v) for k, v in inp[x].items()} for x in "FAB")
    S = {k: sr.cv(inp[k]) for k in ("chi", "phi", "psi")}; S = {k: v / np.linalg.norm(v) for k, v in S.items()}
    V = {k: v.copy() for k, v in S.items()}
    mc = _mc(mp, K, F); kw = _kw(K)
    sim = mp.PatternSimulator(mc, input_state=V["chi"], backend=cfg["be"], **kw); old = []; fresh = True
    for op in inp["hist"]:
        if op == "run" and not fresh: sim.reset()
        r = _do(sim, mc, op, A, V["phi"])
        if op in ("run", "run with input"): old.append((r, np.array(r).copy()))
        fresh = op in ("-", "reset", "reset with input")
    kinds = {v: K["kinds"].get(str(v), "XY") for v in meas}
    want = sr.dm(sr.branch(range(n), K["edges"], I, S["psi"], {u: sr.cbra(kinds[u], B[u] if kinds[u] == "XY" else F[u]) for u in meas}, O))
    if inp["final"] == "run with input": res = sim.run([B[u] for u in mc.trainable_nodes], input_state=V["psi"])
    else:
        sim.reset(input_state=V["psi"])
        if inp["final"] == "reset and run": res = sim.run([B[u] for u in mc.trainable_nodes])
        else:
            for i in list(sim.schedule_measure): sim.measure(_ang(mc, i, B))
            q = np.array(sim.qstate); cur = list(sim.current_simulated_nodes())
            if sorted(cur) != sorted(O): return f"nodes {cur} are left instead of {O}"
            q = _reorder(q, cur, O, None); res = q if q.ndim == 2 else np.outer(q, q.conj())
            if any(sim.outcomes[i] != 0 for i in meas): return f"recorded outcomes {sim.outcomes}"
    if not np.allclose(res, want, atol=1e-7): return f"after {inp['hist']}, '{inp['final']}' differs from a new simulator: overlap {np.real(np.trace(np.asarray(res) @ want))}"
    for r, k in old:
        if not np.allclose(r, k): return "an earlier result changed"
    if any(not np.allclose(V[k], S[k]) for k in S): return "an input state was modified"
def run_penny(c, cfg):
    from symx import poly, load, arr
    mp = load.load(); K = CIRC[cfg["circ"]]; n, I, O = K["n"], K["I"], K["O"]; meas = [v for v in range(n) if v not in O]
    F, A, B = ({v: poly.angle(f"{x}{v}") for v in meas} for x in "fab")
    S = {k: poly.amps(k, 2 ** len(I)) for k in ("chi", "psi")}
    for k in S: c.inp(k, S[k])
    for k, X in (("F", F), ("A", A), ("B", B)): c.inp(k, {str(v): X[v] for v in meas})
    mc = _mc(mp, K, F); V = {k: arr.mk(np.array(S[k], dtype=object), "c") for k in S}
    sim = mp.PatternSimulator(mc, input_state=V["chi"])
    sim.run([A[v] for v in mc.trainable_nodes]); sim.reset(V["psi"])
    got = arr.raw(sim.run([B[v] for v in mc.trainable_nodes]))
    new = arr.raw(mp.PatternSimulator(mc, input_state=V["psi"]).run([B[v] for v in mc.trainable_nodes]))
    poly.check_eq(c, got, new, "same result as a new simulator")
def replay_penny(inp, cfg):
    import mentpy as mp
    K = CIRC[cfg["circ"]]
    F, A, B = ({int(k): float(v) for k, v in inp[x].items()} for x in "FAB")
    S = {k: sr.cv(inp[k]) for k in ("chi", "psi")}; S = {k: v / np.linalg.norm(v) for k, v in S.items()}
    mc = _mc(mp, K, F); sim = mp.PatternSimulator(mc, input_state=S["chi"])
    sim.run([A[v] for v in mc.trainable_nodes]); sim.reset(S["psi"])
    if not np.allclose(sim.run([B[v] for v in mc.trainable_nodes]), mp.PatternSimulator(mc, input_state=S["psi"]).run([B[v] for v in mc.trainable_nodes]), atol=1e-6): return "feed-forward backend keeps its old input"
def _rejects(mp, K, F, st, be, ang, how):
    mc = _mc(mp, K, F); sim = mp.PatternSimulator(mc, input_state=st, backend=be)
    try:
        if how == "call": sim(ang)
        else: sim.run(ang)
    except Exception: return True
    return False
def run_count(c, cfg):
    from symx import poly, load, arr
    mp = load.load(); K = CIRC[cfg["circ"]]; meas = [v for v in range(K["n"]) if v not in K["O"]]
    F = {v: poly.angle(f"f{v}") for v in meas}; tr = [v for v in meas if K["kinds"].get(str(v), "XY") == "XY"]
    st = arr.mk(np.array(poly.amps("psi", 2 ** len(K["I"])), dtype=object), "c")
    be = c.choose("backend", ["pennylane", "numpy-dm", "numpy-sv"]); how = c.choose("how", ["run", "call"])
    k = c.choose("count", [j for j in range(len(tr) + 3) if j != len(tr)])
    c.inp("backend", be); c.inp("count", k); c.inp("how", how); c.inp("psi", list(arr.raw(st))); c.inp("F", {str(v): F[v] for v in meas})
    c.check(_rejects(mp, K, F, st, be, [poly.angle(f"x{j}") for j in range(k)], how), "wrong number of angles is rejected")
def replay_count(inp, cfg):
    import mentpy as mp
    K = CIRC[cfg["circ"]]; psi = sr.cv(inp["psi"]); psi /= np.linalg.norm(psi)
    if not _rejects(mp, K, {int(k): float(v) for k, v in inp["F"].items()}, psi, inp["backend"], [0.1 * j for j in range(inp["count"])], inp["how"]): return f"{inp['backend']} accepts {inp['count']} angles"
