"""Front end of the simulators: default input, backend names, calling, resetting."""
import itertools, warnings
import numpy as np
from checks import common as cm, simref as sr
from checks.C01 import build
MODE = "poly"
BOUNDS = {"quick": "every graph with flow on 2 and 3 nodes for every input/output type, two 4-node circuits; every backend under several spellings and the default one; input omitted (run with the |+> state) or given, run by a call or by run, reset or run (numpy backends) with a second input state through the front end; every node trainable, every node fixed or the first one fixed; all angles and input states; invalid backend names and input types",
          "thorough": "also every graph with flow on 4 nodes"}
ASSUMPTIONS = ["outputs are unmeasured", "outcome 0 (numpy backends)"]
BUDGET = {"quick": 200, "thorough": 850}
NAMES = [None, "pennylane", "PennyLane", "numpy-dm", "Numpy-DM", "NUMPY-SV", "numpy-sv"]
BADN = ["numpy", "", "numpydm", "qiskit", "pennylane "]
def configs(tier):
    T = tier == "thorough"; out = []
    big = [(4, [1, 0], [3, 2], [[0, 3], [1, 2], [0, 1]]), (4, [3], [0], [[3, 1], [1, 2], [2, 0]])]
    for be in NAMES:
        for n in (2, 3) + ((4,) if T else ()):
            for I, O in cm.io_types(n):
                if n < 4 or len(I) < 4: out.append({"name": f"{be} n={n} I={I} O={O}", "n": n, "I": I[::-1], "O": O, "be": be, "weight": n})
        for n, I, O, E in big: out.append({"name": f"{be} n={n} I={I} O={O} edges={E}", "n": n, "I": I, "O": O, "be": be, "edges": E, "weight": n})
    for b in BADN: out.append({"name": f"backend {b!r}", "h": "bad", "be": b, "st": None})
    for k in range(6): out.append({"name": f"input type {k}", "h": "bad", "be": "numpy-dm", "st": k})
    return out
def _cmp(c, be, rho, v, nm, msg):
    from symx import arr, poly
    if be in (None, "pennylane", "PennyLane"):       # averaged over all outcomes, each branch 2^-m
        rho = arr.raw(rho); c.check(rho.shape == (len(v),) * 2, "density matrix of the outputs")
        o = sr.outer(v); nv = tr = 0
        for k in range(len(v)): nv = nv + o[k, k]; tr = tr + rho[k, k]
        poly.check_eq(c, np.array([[poly.lift(x) * nv for x in r] for r in rho], dtype=object), np.array([[x * tr for x in r] for r in o], dtype=object), msg)
    else: sr.check_state(c, rho, v, msg)
def _kinds(meas, kd): return {v: "fix" if kd == "fixed" or kd == "first fixed" and v == meas[0] else "XY" for v in meas}
def _again(sim, ang, st, how, call):
    if how == "reset":
        sim.reset(input_state=st); return sim(ang)
    return sim(ang, input_state=st) if call else sim.run(ang, input_state=st)
def run(c, cfg):
    from symx import poly, load, arr, nxx
    mp = load.load(); n, I, O, be = cfg["n"], cfg["I"], cfg["O"], cfg["be"]; meas = [v for v in range(n) if v not in O]
    A = {v: poly.angle(f"t{v}") for v in meas}; c.inp("A", {str(v): A[v] for v in meas})
    psi = poly.amps("psi", 2 ** len(I)); c.inp("psi", psi)
    given = c.choose("given", [False, True]); call = c.choose("call", [False, True]); c.inp("given", given); c.inp("call", call)
    kd = c.choose("kinds", ["trainable", "fixed", "first fixed"]); c.inp("kinds", kd)
    how = c.choose("how", ["reset", "run"]) if be is not None and be.lower() != "pennylane" and not given else "reset"; c.inp("how", how)
    if "edges" in cfg: g = cm.mk_graph(mp, {"nodes": range(n), "edges": cfg["edges"]}); c.inp("g", {"nodes": list(range(n)), "edges": cfg["edges"]})
    else: g = nxx.sym_graph(c, mp.GraphState, "g", list(range(n)))
    mc = build(mp, g, cfg, _kinds(meas, kd), A)
    if mc.flow is None: return
    E = [tuple(e) for e in g.edges()]
    bras = {u: sr.sbra("XY", A[u]) for u in meas}
    plus = [2 ** (-len(I) / 2) if len(I) % 2 == 0 else sr.R2 ** len(I)] * 2 ** len(I)
    kw = {} if be is None else {"backend": be}
    if given: kw["input_state"] = arr.mk(np.array(psi, dtype=object), "c")
    sim = mp.PatternSimulator(mc, **kw)
    ang = [A[u] for u in mc.trainable_nodes]
    rho = sim(ang) if call else sim.run(ang)
    _cmp(c, be, rho, sr.branch(range(n), E, I, psi if given else plus, bras, O), n, "the result is that of the named backend for the given input, |+> by default")
    c.check(sim.mbqcircuit is mc, "the circuit is accessible")
    if not given:
        rho = _again(sim, ang, arr.mk(np.array(psi, dtype=object), "c"), how, call)
        _cmp(c, be, rho, sr.branch(range(n), E, I, psi, bras, O), n, "a reset or run with an input state takes effect")
def replay(inp, cfg):
    import mentpy as mp
    n, I, O, be = cfg["n"], cfg["I"], cfg["O"], cfg["be"]; A = {int(k): float(v) for k, v in inp["A"].items()}
    psi = sr.cv(inp["psi"])
    if np.linalg.norm(psi) < 1e-9: psi = np.arange(1, len(psi) + 1) + 0j
    psi = psi / np.linalg.norm(psi); meas = sorted(A)
    mc = build(mp, cm.mk_graph(mp, inp["g"]), cfg, _kinds(meas, inp["kinds"]), A)
    if mc.flow is None: return None
    ref = lambda st: sr.dm(sr.branch(range(n), inp["g"]["edges"], I, st, {u: sr.cbra("XY", A[u]) for u in meas}, O))
    kw = {} if be is None else {"backend": be}
    if inp["given"]: kw["input_state"] = psi.copy()
    sim = mp.PatternSimulator(mc, **kw); ang = [A[u] for u in mc.trainable_nodes]
    rho = np.asarray(sim(ang) if inp["call"] else sim.run(ang)); want = ref(psi if inp["given"] else np.ones(len(psi)) / np.sqrt(len(psi)))
    if rho.shape != want.shape or np.abs(rho - want).max() > 1e-6: return f"backend {be}, input {'given' if inp['given'] else 'omitted'}: {np.round(rho, 4).tolist()} instead of {np.round(want, 4).tolist()}"
    if sim.mbqcircuit is not mc: return "circuit"
    if not inp["given"]:
        rho = np.asarray(_again(sim, ang, psi.copy(), inp["how"], inp["call"])); want = ref(psi)
        if rho.shape != want.shape or np.abs(rho - want).max() > 1e-6: return f"backend {be} after {inp["how"]} with a new input: {np.round(rho, 4).tolist()} instead of {np.round(want, 4).tolist()}"
def _bad(mp, cfg):
    mc = mp.MBQCircuit(cm.mk_graph(mp, {"nodes": [0, 1], "edges": [[0, 1]]}), input_nodes=[0], output_nodes=[1])
    kw = {} if cfg["st"] is None else {"input_state": [[1.0, 0.0], (1, 0), "0", 1, 1.0, {0: 1}][cfg["st"]]}
    try: mp.PatternSimulator(mc, backend=cfg["be"], **kw)
    except (ValueError, TypeError): return None
    return f"backend {cfg['be']!r} with {kw} is accepted"
def run_bad(c, cfg):
    from symx import load
    m = _bad(load.load(), cfg); c.check(m is None, "invalid backends and input types are rejected")
def replay_bad(inp, cfg):
    import mentpy as mp
    return _bad(mp, cfg)
