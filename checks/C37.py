"""Circuit noise of the feed-forward backend: the named channel, with the given strength, once on every qubit of the prepared state."""
import itertools, functools, warnings
import numpy as np
from checks import common as cm
from checks.C01 import build
MODE = "poly"
BOUNDS = {"quick": "every graph with flow on 2 and 3 nodes for every input/output type, two circuits of 4 and 5 nodes, every channel name and spelling variants of names, every strength in [0, 1], all angles and input states, all outcome sequences",
          "thorough": "every graph with flow on 4 nodes"}
ASSUMPTIONS = ["PennyLane applies the recorded operations and channels as documented (a stand-in records them; counterexamples are replayed on PennyLane's mixed-state device against a density-matrix calculation)", "generalised amplitude damping is given both of its strengths"]
BUDGET = {"quick": 200, "thorough": 850}
CH = {"depolarizing": ("DepolarizingChannel", ("p",)), "amplitude_damping": ("AmplitudeDamping", ("gamma",)), "phase_damping": ("PhaseDamping", ("gamma",)), "phase_flip": ("PhaseFlip", ("p",)), "generalized_amplitude_damping": ("GeneralizedAmplitudeDamping", ("gamma", "p"))}
BAD = ["Depolarizing", "", "noise", "amplitude damping", "bit_flip", 0, "depolarizing "]
def configs(tier):
    T = tier == "thorough"; out = []
    def add(n, I, O, noise, **k): out.append({"name": f"n={n} I={I} O={O} {noise!r} {k.get('via', 'p')}", "n": n, "I": I, "O": O, "noise": noise, "via": "p", "weight": n, **k})
    big = [(4, [0, 1], [3, 2], [[0, 3], [1, 2], [0, 1]]), (5, [2], [4], [[2, 0], [0, 3], [3, 1], [1, 4]])]
    for noise in [None] + list(CH):
        for n in (2, 3) + ((4,) if T else ()):
            for I, O in cm.io_types(n):
                if n < 4 or len(I) < 4: add(n, I[::-1], O, noise)
        for n, I, O, E in big: add(n, I, O, noise, edges=E)
        if noise and "damping" in noise: add(3, [0], [2], noise, via="gamma"); add(3, [1], [1], noise, via="gamma")
    for b in BAD:
        for n, I, O in ((2, [0], [1]), (3, [1], [0])): add(n, I, O, b, h="bad", edges=[[i, i + 1] for i in range(n - 1)])
    return out
def _kw(cfg, p, q):
    k = {"circuit_noise": cfg["noise"]} if cfg["noise"] is not None else {}
    if cfg["noise"] == "generalized_amplitude_damping": return {**k, "p": p, "gamma": q}
    if cfg["via"] == "gamma": return {**k, "gamma": p}
    return {**k, "p": p}
def run(c, cfg):
    from symx import poly, load, arr, nxx, core
    mp = load.load(); n, I, O = cfg["n"], cfg["I"], cfg["O"]; meas = [v for v in range(n) if v not in O]
    p, q = poly.real("p"), poly.real("q")
    for x in (p, q): c.assume(core.mk_and(x >= 0, x <= 1))
    c.inp("p", p); c.inp("q", q)
    A = {v: poly.angle(f"t{v}") for v in meas}; c.inp("A", {str(v): A[v] for v in meas}); psi = poly.amps("psi", 2 ** len(I)); c.inp("psi", psi)
    if "edges" in cfg: g = cm.mk_graph(mp, {"nodes": range(n), "edges": cfg["edges"]}); c.inp("g", {"nodes": list(range(n)), "edges": cfg["edges"]})
    else: g = nxx.sym_graph(c, mp.GraphState, "g", list(range(n))[::-1])
    kinds = {v: "XY" for v in meas}
    mc = build(mp, g, cfg, kinds, A)
    if mc.flow is None: return
    sim = mp.PatternSimulator(mc, input_state=arr.mk(np.array(psi, dtype=object), "c"), backend="pennylane", device="default.mixed", **_kw(cfg, p, q))
    sim.run([A[u] for u in mc.trainable_nodes])
    N = c.qml.noise; ops = c.qml.ops
    if cfg["noise"] is None: c.check(not N, "no channel without circuit noise"); return
    name, pars = CH[cfg["noise"]]
    c.check(sorted(x[3] for x in N) == list(range(n)), "the channel acts once on every qubit")
    E = [frozenset(e) for e in g.edges()]
    for nm, args, kw, w, at in N:
        c.check(nm == name, "the named channel is applied")
        given = dict(zip(pars, args)); given.update(kw); c.check(set(given) == set(pars), "the channel gets its parameters")
        want = {"p": p, "gamma": q} if len(pars) == 2 else {pars[0]: p}
        for k in pars: poly.check_eq(c, given[k], want[k], "the channel has the given strength")
        before = sorted(o[0] for o in ops[:at] if w in o[1]); after = [o[0] for o in ops[at:] if w in o[1]]
        c.check(before == sorted((["StatePrep"] if w in I else ["Hadamard"]) + ["CZ"] * sum(w in e for e in E)), "the channel acts right after the preparation of its qubit")
        c.check("CZ" not in after and "StatePrep" not in after, "the preparation precedes the channel")
def _kraus(noise, p, q):
    X, Y, Z, I2 = np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1]), np.eye(2)
    if noise is None: return [I2]
    if noise == "depolarizing": return [np.sqrt(1 - p) * I2] + [np.sqrt(p / 3) * S for S in (X, Y, Z)]
    if noise == "phase_flip": return [np.sqrt(1 - p) * I2, np.sqrt(p) * Z]
    if noise == "amplitude_damping": return [np.diag([1, np.sqrt(1 - p)]), np.array([[0, np.sqrt(p)], [0, 0]])]
    if noise == "phase_damping": return [np.diag([1, np.sqrt(1 - p)]), np.diag([0, np.sqrt(p)])]
    g = q
    return [np.sqrt(p) * np.diag([1, np.sqrt(1 - g)]), np.sqrt(p) * np.array([[0, np.sqrt(g)], [0, 0]]), np.sqrt(1 - p) * np.diag([np.sqrt(1 - g), 1]), np.sqrt(1 - p) * np.array([[0, 0], [np.sqrt(g), 0]])]
def _on(U, w, n): return functools.reduce(np.kron, [U if i == w else np.eye(2) for i in range(n)])
def _reference(n, E, I, O, psi, A, f, order, noise, p, q):
    "density matrix of the outputs, qubit i of the register is node i"
    v = np.zeros([2] * n, dtype=complex); rest = [i for i in range(n) if i not in I]
    t = np.kron(psi, np.ones(2 ** len(rest)) / np.sqrt(2) ** len(rest)).reshape([2] * n)
    v = np.moveaxis(t, range(n), list(I) + rest).reshape(-1)
    for a, b in E:
        s = np.array([-1 if (k >> (n - 1 - a)) & 1 and (k >> (n - 1 - b)) & 1 else 1 for k in range(2 ** n)]); v = v * s
    r = np.outer(v, v.conj())
    for w in range(n): r = sum(K @ r @ K.conj().T for K in (_on(K, w, n) for K in _kraus(noise, p, q)))
    X, Z = np.array([[0, 1], [1, 0]]), np.diag([1, -1])
    for u in order:
        if u in O: continue
        new = 0
        for m in (0, 1):
            b = np.array([1, (-1) ** m * np.exp(1j * A[u])]) / np.sqrt(2); P = _on(np.outer(b, b.conj()), u, n); C = np.eye(2 ** n)
            if m:
                C = _on(X, f(u), n)
                for a, b_ in E:
                    for x, y in ((a, b_), (b_, a)):
                        if x == f(u) and y != u: C = _on(Z, y, n) @ C
            new = new + C @ P @ r @ P.conj().T @ C.conj().T
        r = new
    t = r.reshape([2] * (2 * n)); keep = list(O); drop = [i for i in range(n) if i not in O]
    t = np.transpose(t, keep + drop + [n + i for i in keep] + [n + i for i in drop]); k, d = 2 ** len(keep), 2 ** len(drop)
    return np.einsum("abcb->ac", t.reshape(k, d, k, d))
def replay(inp, cfg):
    import mentpy as mp
    n, I, O = cfg["n"], cfg["I"], cfg["O"]; A = {int(k): float(v) for k, v in inp["A"].items()}
    psi = np.array([cm.cx(z) for z in inp["psi"]], dtype=complex); p, q = float(inp["p"]), float(inp["q"])
    if np.linalg.norm(psi) < 1e-9: psi = np.ones(len(psi), dtype=complex)
    psi /= np.linalg.norm(psi)
    rnd = np.random.RandomState(3)
    # models often choose degenerate strengths and states: also a generic instance of the same circuit
    for psi_, A_, p_, q_ in ((psi, A, p, q), ((lambda z: z / np.linalg.norm(z))(rnd.randn(len(psi)) + 1j * rnd.randn(len(psi))), {k: 0.3 + 0.7 * k for k in A}, 0.35, 0.2)):
        g = cm.mk_graph(mp, inp["g"]); mc = build(mp, g, cfg, {v: "XY" for v in A}, A_)
        if mc.flow is None: return None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sim = mp.PatternSimulator(mc, input_state=psi_, backend="pennylane", device="default.mixed", **_kw(cfg, p_, q_)); got = np.array(sim.run([A_[u] for u in mc.trainable_nodes]))
        want = _reference(n, [tuple(e) for e in inp["g"]["edges"]], I, O, psi_, A_, mc.flow, mc.measurement_order, cfg["noise"], p_, q_)
        if got.shape != want.shape or np.abs(got - want).max() > 1e-6: return f"{cfg['noise']} of strength {p_} gives {np.round(got, 4).tolist()} instead of {np.round(want, 4).tolist()} (graph {inp['g']['edges']})"
def _bad(mp, cfg):
    g = cm.mk_graph(mp, {"nodes": range(cfg["n"]), "edges": cfg["edges"]}); mc = mp.MBQCircuit(g, input_nodes=cfg["I"], output_nodes=cfg["O"])
    st = np.array([1.0, 0.0])
    try: mp.PatternSimulator(mc, input_state=st, backend="pennylane", device="default.mixed", circuit_noise=cfg["noise"], p=0.1).run([0.1] * len(mc.trainable_nodes))
    except ValueError: return None
    return f"circuit noise {cfg['noise']!r} is accepted"
def run_bad(c, cfg):
    from symx import load
    m = _bad(load.load(), cfg); c.check(m is None, "unknown channel names are rejected")
def replay_bad(inp, cfg):
    import mentpy as mp
    return _bad(mp, cfg)
