"""PauliOp product, symplectic product and commutator against 2x2-matrix algebra."""
import numpy as np
from checks import common as cm
MODE = "bits"
MERGE = True
BOUNDS = {"quick": "all pairs and triples of operators on n<=8 qubits; tables with up to 3 rows on n<=3 qubits",
          "thorough": "all pairs and triples on n<=20 qubits; tables with up to 4 rows on n<=5 qubits"}
ASSUMPTIONS = ["operators without phases (the class stores none)"]
BUDGET = {"quick": 150, "thorough": 800}
def configs(tier):
    out = []
    N = 8 if tier == "quick" else 20
    for n in range(1, N + 1): out.append({"name": f"pair n={n}", "h": "pair", "n": n, "rows": 1, "weight": n})
    for n, r in [(1, 2), (2, 2), (3, 2), (2, 3)] + ([(4, 3), (5, 4)] if tier == "thorough" else []):
        out.append({"name": f"pair n={n} rows={r}", "h": "pair", "n": n, "rows": r})
    for n in range(1, N + 1): out.append({"name": f"laws n={n}", "h": "laws", "n": n})
    return out
def _ops(c, cfg, names, rows=1):
    from symx import core, arr, load
    mp = load.load(); n = cfg["n"]
    res = []
    for nm in names:
        M = cm.bitmat(c, nm, rows, 2 * n)
        c.inp(nm, M)
        res.append((M, mp.PauliOp(arr.mk(np.array(M, dtype=object), "i"))))
    return mp, res
def _anti(a, b, n):
    from symx import core
    return core.mk_xor(*[core.mk_and(a[i] != 0, b[i + n] != 0) for i in range(n)], *[core.mk_and(a[i + n] != 0, b[i] != 0) for i in range(n)])
def _xor(a, b):
    from symx import core
    return [[core.mk_xor(x != 0, y != 0) for x, y in zip(r, s)] for r, s in zip(a, b)]
def run_pair(c, cfg):
    from symx import core, arr
    n, R = cfg["n"], cfg.get("rows", 1)
    mp, ((A, a), (B, b)) = _ops(c, cfg, "ab", R)
    p = a * b
    c.check(cm.bits_eq(p.matrix, _xor(A, B)), "product is the GF(2) sum of the tables (matrix product up to phase)")
    s = arr.raw(a.symplectic_prod(b))
    c.check(s.shape == (R, R), "one symplectic product per pair of rows")
    c.check(cm.bits_eq(s, [[_anti(A[i], B[j], n) for j in range(R)] for i in range(R)]), "symplectic product is 1 exactly when the rows anticommute")
    if R == 1:
        com = a.commutator(b)
        if isinstance(com, mp.PauliOp):
            c.check(_anti(A[0], B[0], n), "non-zero commutator only of anticommuting operators")
            c.check(cm.bits_eq(com.matrix, _xor(A, B)), "commutator is the product up to a scalar")
        else:
            c.check(com == 0, "vanishing commutator is returned as 0")
            c.check(core.mk_not(_anti(A[0], B[0], n)), "zero commutator only of commuting operators")
    c.check(core.mk_and(cm.bits_eq(a.matrix, A), cm.bits_eq(b.matrix, B)), "operands unchanged")
def run_laws(c, cfg):
    from symx import core, arr
    mp, ((A, a), (B, b), (C, d)) = _ops(c, cfg, "abc", 1)
    l = (a * b) * d; r = a * (b * d)
    c.check(cm.bits_eq(l.matrix, r.matrix), "product is associative")
    c.check(cm.bits_eq((a * b).matrix, (b * a).matrix), "product is commutative up to phase")
    c.check(cm.bits_eq((a * a).matrix, [[0] * (2 * cfg["n"])]), "self-inverse")
def _c(M): return np.array(M, dtype=int)
def replay_pair(inp, cfg):
    import mentpy as mp
    A, B = _c(inp["a"]), _c(inp["b"]); a, b = mp.PauliOp(A.copy()), mp.PauliOp(B.copy())
    p = a * b; s = np.array(a.symplectic_prod(b))
    for i in range(len(A)):
        X, Y = cm.pauli_matrix(A[i]), cm.pauli_matrix(B[i])
        if not cm.proportional(cm.pauli_matrix(np.array(p.matrix)[i]), X @ Y): return f"product of {cm.pauli_text(A[i])} and {cm.pauli_text(B[i])} is {p.txt}"
        for j in range(len(B)):
            Y = cm.pauli_matrix(B[j])
            anti = np.abs(X @ Y - Y @ X).max() > 1e-9
            if s.shape != (len(A), len(B)) or int(s[i, j]) != int(anti): return f"symplectic product of {cm.pauli_text(A[i])} and {cm.pauli_text(B[j])} is {s}"
    if len(A) == 1:
        X, Y = cm.pauli_matrix(A[0]), cm.pauli_matrix(B[0]); K = X @ Y - Y @ X
        com = a.commutator(b)
        if isinstance(com, mp.PauliOp):
            if not cm.proportional(cm.pauli_matrix(np.array(com.matrix)[0]) * (np.abs(K).max() > 1e-9), K) or np.abs(K).max() < 1e-9: return f"commutator of {a} and {b} is {com}"
        elif com != 0 or np.abs(K).max() > 1e-9: return f"commutator of {a} and {b} is {com}"
    if (np.array(a.matrix) != A).any() or (np.array(b.matrix) != B).any(): return "operand modified"
def replay_laws(inp, cfg):
    import mentpy as mp
    a, b, d = (mp.PauliOp(_c(inp[k])) for k in "abc")
    if (np.array(((a * b) * d).matrix) != np.array((a * (b * d)).matrix)).any(): return "not associative"
    if (np.array((a * b).matrix) != np.array((b * a).matrix)).any(): return "not commutative"
    if np.array((a * a).matrix).any(): return "not self-inverse"
