"""Partial trace and density conversion."""
import itertools, math
import numpy as np
from checks import common as cm
MODE = "poly"
BOUNDS = {"quick": "states of up to 3 qubits, every ordered list of traced qubits; mixed states are arbitrary matrices; product states have arbitrary normalised factors", "thorough": "states of up to 4 qubits"}
ASSUMPTIONS = ["for pure states: product between the traced and the remaining qubits, normalised factors"]
BUDGET = {"quick": 200, "thorough": 800}
def configs(tier):
    N = 4 if tier == "thorough" else 3
    out = []
    for n in range(1, N + 1):
        out.append({"name": f"density n={n}", "h": "dens", "n": n})
        for k in range(0, n + 1):
            for idx in itertools.permutations(range(n), k):
                if n == 4 and k > 2 and list(idx) not in (sorted(idx), sorted(idx)[::-1]): continue
                out.append({"name": f"mixed n={n} {list(idx)}", "h": "mixed", "n": n, "idx": list(idx), "weight": n})
                if 0 < k < n: out.append({"name": f"pure n={n} {list(idx)}", "h": "pure", "n": n, "idx": list(idx), "weight": n + 1})
    return out
def _ptr(rho, n, idx, add):
    "reference: sum over the traced qubits"
    rest = [q for q in range(n) if q not in idx]; d = 2 ** len(rest)
    out = np.zeros((d, d), dtype=object)
    def at(r, t):
        b = [0] * n
        for q, v in zip(rest, r): b[q] = v
        for q, v in zip(idx, t): b[q] = v
        return int("".join(map(str, b)) or "0", 2)
    B = lambda k: list(itertools.product((0, 1), repeat=k))
    for a, r in enumerate(B(len(rest))):
        for b, s in enumerate(B(len(rest))):
            acc = 0
            for t in B(len(idx)): acc = acc + rho[at(r, t), at(s, t)]
            out[a, b] = acc
    return out
def run_dens(c, cfg):
    from symx import poly, load, arr
    mp = load.load(); import mentpy.calculator as calc
    n = cfg["n"]; psi = poly.amps("psi", 2 ** n, normalised=False); c.inp("psi", psi)
    v = arr.mk(np.array(psi, dtype=object), "c")
    rho = arr.raw(calc.pure2density(v))
    poly.check_eq(c, rho, np.array([[a * b.conjugate() for b in psi] for a in psi], dtype=object), "density matrix is the outer product with the conjugate")
    poly.check_eq(c, arr.raw(v), np.array(psi, dtype=object), "argument unchanged")
def run_mixed(c, cfg):
    from symx import poly, load, arr
    mp = load.load(); import mentpy.calculator as calc
    n, idx = cfg["n"], cfg["idx"]; d = 2 ** n
    M = np.array(poly.amps("m", d * d, normalised=False), dtype=object).reshape(d, d); c.inp("rho", M.tolist())
    r = arr.mk(M.copy(), "c")
    for f in (calc.partial_trace, calc.partial_trace_mixed_state):
        I = list(idx); got = arr.raw(f(r, I))
        poly.check_eq(c, got, _ptr(M, n, idx, None), "partial trace sums over the traced qubits")
        c.check(I == idx, "index list unchanged")
        t = 0
        for k in range(got.shape[0]): t = t + got[k, k]
        w = 0
        for k in range(d): w = w + M[k, k]
        poly.check_eq(c, [t], [w], "trace preserved")
    poly.check_eq(c, arr.raw(r), M, "argument unchanged")
    H = np.array([[M[i, j] + M[j, i].conjugate() for j in range(d)] for i in range(d)], dtype=object)
    g = arr.raw(calc.partial_trace(arr.mk(H, "c"), list(idx)))
    poly.check_eq(c, g, np.array([[poly.lift(g[j, i]).conjugate() for j in range(len(g))] for i in range(len(g))], dtype=object), "Hermiticity preserved")
def _prod(n, idx, a, b, mul):
    rest = [q for q in range(n) if q not in idx]; out = []
    for x in itertools.product((0, 1), repeat=n):
        out.append(mul(a[int("".join(str(x[q]) for q in rest), 2)], b[int("".join(str(x[q]) for q in idx), 2)]))
    return out
def run_pure(c, cfg):
    from symx import poly, load, arr
    mp = load.load(); import mentpy.calculator as calc
    n, idx = cfg["n"], cfg["idx"]; k = len(idx)
    a = poly.amps("a", 2 ** (n - k)); b = poly.amps("b", 2 ** k); c.inp("a", a); c.inp("b", b)
    v = arr.mk(np.array(_prod(n, idx, a, b, lambda x, y: x * y), dtype=object), "c")
    I = list(idx)
    for f in (calc.partial_trace, calc.partial_trace_pure_state):
        g = arr.raw(f(v, I))
        c.check(g.shape == (2 ** (n - k),), "number of remaining qubits")
        if g.shape != (2 ** (n - k),): return
        poly.check_eq(c, np.array([[x * poly.lift(y).conjugate() for y in g] for x in g], dtype=object), np.array([[x * y.conjugate() for y in a] for x in a], dtype=object), "the remaining factor up to a phase")
    c.check(I == idx, "index list unchanged")
def _cv(v): return np.array([cm.cx(z) for z in v], dtype=complex)
def replay_dens(inp, cfg):
    import mentpy.calculator as calc
    p = _cv(inp["psi"])
    if not np.allclose(calc.pure2density(p), np.outer(p, p.conj())): return "pure2density"
def replay_mixed(inp, cfg):
    import mentpy.calculator as calc
    M = np.array([_cv(r) for r in inp["rho"]]); idx = cfg["idx"]
    for R in (M, M + M.conj().T):
        for f in (calc.partial_trace, calc.partial_trace_mixed_state):
            I = list(idx); got = f(R.copy(), I)
            if I != idx or not np.allclose(got, np.array(_ptr(R, cfg["n"], idx, None), dtype=complex)): return f"partial trace over {idx} of {cfg['n']} qubits"
def replay_pure(inp, cfg):
    import mentpy.calculator as calc
    a, b = _cv(inp["a"]), _cv(inp["b"]); a /= np.linalg.norm(a); b /= np.linalg.norm(b)
    v = np.array(_prod(cfg["n"], cfg["idx"], a, b, lambda x, y: x * y))
    for f in (calc.partial_trace, calc.partial_trace_pure_state):
        I = list(cfg["idx"]); g = f(v.copy(), I)
        if g.shape != a.shape or I != cfg["idx"] or not np.allclose(np.outer(g, g.conj()), np.outer(a, a.conj()), atol=1e-7): return f"partial trace over {cfg['idx']} gives {g} instead of {a}"
