"""The two GF(2) solvers: a solution is returned for every solvable system."""
import numpy as np
from checks import common as cm
MODE = "bits"; MERGE = True
BOUNDS = {"quick": "all systems over GF(2) with up to 4 equations and 4 unknowns (all shapes)", "thorough": "all systems up to 5 x 5 and 3 x 7, 7 x 3"}
ASSUMPTIONS = ["arguments are GF(2) arrays, as every caller in the library passes"]
BUDGET = {"quick": 200, "thorough": 850}
def configs(tier):
    S = [(r, k) for r in range(1, 5) for k in range(1, 5)]
    if tier == "thorough": S += [(5, 3), (3, 5), (5, 4), (4, 5), (5, 5), (3, 7), (7, 3), (2, 8)]
    return [{"name": f"{f} {r}x{k}", "fn": f, "r": r, "k": k, "weight": r * k} for r, k in S for f in ("solve", "gauss")]
def _fn(mp, f):
    if f == "solve":
        from mentpy.calculator import linalg2
        return linalg2.solve
    from mentpy.mbqc import flow
    return flow.binary_gaussian_elimination
def run(c, cfg):
    from symx import core, arr, load, shims
    mp = load.load(); r, k = cfg["r"], cfg["k"]
    A = c.inp("A", cm.bitmat(c, "A", r, k)); X = cm.bitmat(c, "x", k, 1)
    # solvable systems are exactly those with b = A x for some x
    b = [[core.SymInt([core.tolit(core.mk_xor(*[core.mk_and(A[i][j] != 0, X[j][0] != 0) for j in range(k)])), core.F])] for i in range(r)]
    c.inp("b", [row[0] for row in b])
    GF = shims.GFXI
    a2, b2 = GF(arr.mk(np.array(A, dtype=object), "i")), GF(arr.mk(np.array(b, dtype=object), "i"))
    for bb in ([b2, b2.reshape(-1)] if cfg["fn"] == "solve" else [b2]):
        x = arr.raw(_fn(mp, cfg["fn"])(a2, bb)).ravel()
        c.check(len(x) == k, "one value per unknown")
        c.check(core.mk_and(*[core.mk_or(v == 0, v == 1) for v in x]), "values are 0 or 1")
        got = [core.mk_xor(*[core.mk_and(A[i][j] != 0, x[j] != 0) for j in range(k)]) for i in range(r)]
        c.check(core.mk_and(*[core.mk_iff(g, row[0] != 0) for g, row in zip(got, b)]), "the returned vector solves the system")
        c.check(core.mk_and(cm.bits_eq(a2, A), cm.bits_eq(b2, b)), "arguments are not modified")
def replay(inp, cfg):
    import mentpy as mp, galois
    GF = galois.GF(2)
    A, b = np.array(inp["A"]), np.array(inp["b"])
    for bb in ([b.reshape(-1, 1), b] if cfg["fn"] == "solve" else [b.reshape(-1, 1)]):
        a2, b2 = GF(A), GF(bb)
        x = np.array(_fn(mp, cfg["fn"])(a2, b2)).ravel()
        if len(x) != A.shape[1] or not set(x.tolist()) <= {0, 1}: return f"returned {x}"
        if ((A @ x) % 2 != b).any(): return f"A={A.tolist()} b={b.tolist()}: returned {x.tolist()}"
        if (np.array(a2) != A).any() or (np.array(b2) != bb).any(): return "arguments modified"
