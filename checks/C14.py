"""Controlled measurements act as the branch their condition selects."""
import itertools, math, copy
import numpy as np
from checks import common as cm
MODE = "poly"
BOUNDS = {"quick": "all pairs of branch planes (7 x 7), each branch fixed or trainable, any condition over the outcomes of two nodes (symbolic truth table), symbolic outcomes and angles; constant conditions; original, copies, and copies stored in circuits; density-matrix runs on a 3-node wire",
          "thorough": "the same with XYZ branches, conditions over three outcomes, and runs on 4-node wires"}
ASSUMPTIONS = ["in the simulator all outcomes are 0 (the only branch it simulates)"]
BUDGET = {"quick": 200, "thorough": 800}
PL = ["XY", "XZ", "YZ", "X", "Y", "Z"]
def _kinds(p): return ["fix"] if len(p) == 1 else ["fix", "train"]
def configs(tier):
    T = tier == "thorough"
    out = []
    for p in PL + ["XYZ"] * T:
        for q in PL + ["XYZ"] * T:
            for cond in ("any", "True", "False"):
                out.append({"name": f"true {p} false {q} condition {cond}", "h": "op", "p": p, "q": q, "cond": cond, "k": 3 if T else 2})
    for n in (3,) + ((4,) if T else ()):
        for p in ("XY", "X", "Y"):
            for q in ("XY", "X", "Y"):
                out.append({"name": f"simulation n={n} {p}/{q}", "h": "sim", "n": n, "p": p, "q": q, "weight": n})
    return out
def _coef(plane, cs):
    if len(plane) == 1: return [int(plane == a) for a in "XYZ"]
    if plane == "XYZ":
        (c1, s1), (c2, s2) = cs; return [c1 * c2, s1 * c2, s2]
    c, s = cs[0]; r = {"X": 0, "Y": 0, "Z": 0}; r[plane[0]] = c; r[plane[1]] = s
    return [r[a] for a in "XYZ"]
def _mat(plane, angs, cos, sin):
    x, y, z = _coef(plane, [(cos(a), sin(a)) for a in angs])
    return [[z, x - 1j * y], [x + 1j * y, -z]]
def _variants(mp, cond, args):
    "the measurement itself, a copy, a deep copy, and the one stored in a circuit (setitem / constructor / copy of it)"
    CM = mp.ControlMent
    mk = lambda: CM(cond, *args)
    yield "original", mk()
    yield "copy", mk().copy()
    yield "copy of copy", mk().copy().copy()
    yield "deepcopy", copy.deepcopy(mk())
    g = mp.GraphState(); g.add_edges_from([(0, 1), (1, 2), (2, 3)])
    mc = mp.MBQCircuit(g, input_nodes=[0], output_nodes=[3])
    mc[2] = mk()
    yield "stored", mc[2]
    yield "copy of stored", mc[2].copy()
    mc2 = mp.MBQCircuit(g, input_nodes=[0], output_nodes=[3], measurements={2: mk()})
    yield "constructed", mc2[2]
def _arg(plane, kind, x, x2):
    "constructor arguments of a branch"
    if kind == "train": return (None, plane)
    if len(plane) == 1: return (None, plane)
    return ((x, x2) if plane == "XYZ" else x, plane)
def run_op(c, cfg):
    from symx import poly, load, arr, core
    mp = load.load(); from mentpy.operators import MentOutcome
    p, q = cfg["p"], cfg["q"]
    kp = c.choose("true kind", _kinds(p)); kq = c.choose("false kind", _kinds(q))
    A = {n: poly.angle(n) for n in ("a", "a2", "b", "b2", "t", "t2")}
    k = cfg["k"]
    bits = [c.bool(f"x{i}") for i in range(k)]
    tab = [c.bool(f"tab{i}") for i in range(2 ** k)]
    which = c.choose("variant", ["original", "copy", "copy of copy", "deepcopy", "stored", "copy of stored", "constructed"])
    c.inp("kinds", [kp, kq]); c.inp("variant", which)
    for n in A: c.inp(n, A[n])
    outcomes = {i: (core.SymInt([core.tolit(b), core.F]) if core.is_sym(b) else int(b)) for i, b in enumerate(bits)}
    if cfg["cond"] == "any":
        c.inp("bits", bits); c.inp("tab", tab)
        def f(x):
            rows = []
            for j, v in enumerate(itertools.product((0, 1), repeat=k)):
                rows.append(core.mk_and(tab[j], *[(x[i] != 0) if b else core.mk_not(x[i] != 0) for i, b in enumerate(v)]))
            return core.mk_or(*rows)
        cond = MentOutcome(f, cond_nodes=set(range(2)))
        sel = f(outcomes)
    else: cond = cfg["cond"] == "True"; sel = cond
    args = _arg(p, kp, A["a"], A["a2"]) + _arg(q, kq, A["b"], A["b2"])
    m = dict(_variants(mp, cond, args))[which]
    tr = kp == "train" or kq == "train"
    c.check(bool(m.is_trainable()) == tr, "trainable exactly if a branch is")
    th = (A["t"], A["t2"])
    sel = bool(sel)                      # explore both branches of the condition
    pl, kd, own = (p, kp, (A["a"], A["a2"])) if sel else (q, kq, (A["b"], A["b2"]))
    if tr: xyz = (p if kp == "train" else None) == "XYZ" or (q if kq == "train" else None) == "XYZ"
    ang = None
    if tr: ang = th if (kd == "train" and pl == "XYZ") else th[0]
    angs = th if kd == "train" else own
    W = np.array(_mat(pl, angs, lambda x: x.cos(), lambda x: x.sin()), dtype=object)
    M = arr.raw(m.matrix(ang, outcomes)); p0, p1 = m.get_povm(ang, outcomes)
    poly.check_eq(c, M, W, "matrix is the one of the selected branch")
    poly.check_eq(c, 2 * arr.raw(p0), np.eye(2) + W, "first operator of the selected branch")
    poly.check_eq(c, 2 * arr.raw(p1), np.eye(2) - W, "second operator of the selected branch")
    c.check(m.plane(outcomes) == pl, "plane of the selected branch")
    a = m.angle(outcomes)
    if kd == "train": c.check(a is None, "no angle in a trainable branch")
    elif len(pl) == 1: c.check(a == 0, "angle zero on an axis")
    else:
        c.check(a is not None, "angle of a fixed branch")
        if a is not None: poly.check_eq(c, list(a) if pl == "XYZ" else [a], list(own[:2 if pl == "XYZ" else 1]), "angle of the selected branch")
def replay_op(inp, cfg):
    import mentpy as mp
    from mentpy.operators import MentOutcome
    p, q = cfg["p"], cfg["q"]; kp, kq = inp["kinds"]; k = cfg["k"]
    f8 = lambda n: float(inp[n])
    outcomes = {i: int(b) for i, b in enumerate(inp.get("bits", [0] * k))}
    if cfg["cond"] == "any":
        tab = inp["tab"]; f = lambda x: bool(tab[int("".join(str(int(x[i])) for i in range(k)), 2)])
        cond = MentOutcome(f, cond_nodes={0, 1}); sel = f(outcomes)
    else: cond = cfg["cond"] == "True"; sel = cond
    args = _arg(p, kp, f8("a"), f8("a2")) + _arg(q, kq, f8("b"), f8("b2"))
    m = dict(_variants(mp, cond, args))[inp["variant"]]
    tr = kp == "train" or kq == "train"
    if bool(m.is_trainable()) != tr: return f"is_trainable() is {m.is_trainable()}"
    pl, kd, own = (p, kp, (f8("a"), f8("a2"))) if sel else (q, kq, (f8("b"), f8("b2")))
    th = (f8("t"), f8("t2"))
    ang = (th if kd == "train" and pl == "XYZ" else th[0]) if tr else None
    W = np.array(_mat(pl, th if kd == "train" else own, math.cos, math.sin))
    M = m.matrix(ang, outcomes); p0, p1 = m.get_povm(ang, outcomes)
    if not np.allclose(M, W, atol=1e-8): return f"matrix of {m} with condition {sel} is {M} instead of {W}"
    if not np.allclose(p0, (np.eye(2) + W) / 2, atol=1e-8) or not np.allclose(p1, (np.eye(2) - W) / 2, atol=1e-8): return "wrong operators"
    if m.plane(outcomes) != pl: return f"plane {m.plane(outcomes)} instead of {pl}"
    a = m.angle(outcomes); want = None if kd == "train" else 0 if len(pl) == 1 else own if pl == "XYZ" else own[0]
    if (a is None) != (want is None) or a is not None and not np.allclose(a, want): return f"angle {a} instead of {want}"
# ---- the density-matrix simulator applies the selected branch
def _circ(mp, cfg, kinds, x, conds):
    n = cfg["n"]; g = mp.GraphState(); g.add_edges_from([(i, i + 1) for i in range(n - 1)])
    mc = mp.MBQCircuit(g, input_nodes=[0], output_nodes=[n - 1])
    mc[0] = mp.Ment(x["z"], "XY")
    args = _arg(cfg["p"], kinds[0], x["a"], None) + _arg(cfg["q"], kinds[1], x["b"], None)
    mc[n - 2] = mp.ControlMent((mc[0].outcome == 0) if conds else (mc[0].outcome == 1), *args)
    if n == 4: mc[1] = mp.Ment(x["y"], "XY")
    return mc
def run_sim(c, cfg):
    from symx import poly, load, arr, core
    mp = load.load()
    kp = c.choose("true kind", _kinds(cfg["p"])); kq = c.choose("false kind", _kinds(cfg["q"])); conds = c.choose("condition", [True, False])
    c.inp("kinds", [kp, kq]); c.inp("cond", conds)
    x = {n: poly.angle(n) for n in ("a", "b", "z", "y", "t")}
    for n in x: c.inp(n, x[n])
    psi = poly.amps("psi", 2); c.inp("psi", list(psi))
    mc = _circ(mp, cfg, (kp, kq), x, conds)
    sim = mp.PatternSimulator(mc, arr.mk(np.array(list(psi), dtype=object), "c"), backend="numpy-dm")
    tr = kp == "train" or kq == "train"
    rho = arr.raw(sim.run([x["t"]] if tr else []))
    # all outcomes are zero, so the condition reads node 0 as 0
    pl, kd, own = (cfg["p"], kp, x["a"]) if conds else (cfg["q"], kq, x["b"])
    th = {"X": 0, "Y": "pi/2"}.get(pl, x["t"] if kd == "train" else own)
    seq = [x["z"]] + ([x["y"]] if cfg["n"] == 4 else []) + [th]
    v = np.array(list(psi), dtype=object)
    for t in seq:
        e = 1 if isinstance(t, int) else -1j if isinstance(t, str) else (t * -1).cos() + 1j * (t * -1).sin()
        v = np.array([v[0] + e * v[1], v[0] - e * v[1]], dtype=object)
    # each step carries a factor sqrt(1/2): compare with the exact norm 2^(steps)
    f = 2 ** len(seq)
    poly.check_eq(c, f * rho, np.array([[v[i] * poly.lift(v[j]).conjugate() for j in range(2)] for i in range(2)], dtype=object), "the simulated state is the one of the selected branch")
def replay_sim(inp, cfg):
    import mentpy as mp
    kinds = inp["kinds"]; x = {n: float(inp[n]) for n in ("a", "b", "z", "y", "t")}
    psi = np.array([cm.cx(z) for z in inp["psi"]], dtype=complex); psi = psi / np.linalg.norm(psi)
    mc = _circ(mp, cfg, kinds, x, inp["cond"])
    sim = mp.PatternSimulator(mc, psi, backend="numpy-dm")
    rho = sim.run([x["t"]] if "train" in kinds else [])
    pl, kd, own = (cfg["p"], kinds[0], x["a"]) if inp["cond"] else (cfg["q"], kinds[1], x["b"])
    th = {"X": 0, "Y": math.pi / 2}.get(pl, x["t"] if kd == "train" else own)
    v = psi
    for t in [x["z"]] + ([x["y"]] if cfg["n"] == 4 else []) + [th]:
        e = np.exp(-1j * t); v = np.array([v[0] + e * v[1], v[0] - e * v[1]]) / math.sqrt(2)
    if not np.allclose(rho, np.outer(v, v.conj()), atol=1e-7): return f"simulated {rho} instead of {np.outer(v, v.conj())}"
