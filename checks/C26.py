"""Lie-algebra completion is the commutator closure."""
import itertools
import numpy as np
from checks import common as cm
MODE = "bits"; MERGE = True
BOUNDS = {"quick": "all sets of up to 3 operators on 1 and 2 qubits and of 2 operators on 3 qubits; deduplication of up to 4 operators on 2 qubits and 3 operators on 3 qubits",
          "thorough": "all sets of up to 4 operators on 1 and 2 qubits and of up to 3 operators on 3 qubits; deduplication of up to 5 operators on 2 qubits"}
ASSUMPTIONS = ["the generators are pairwise different (a set)", "no more commutators than the iteration limit, which is raised to 100000"]
BUDGET = {"quick": 240, "thorough": 850}
def configs(tier):
    T = tier == "thorough"; out = []
    for n, k in [(1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3)] + ([(2, 4), (4, 2)] if T else []):
        for pre in itertools.product((0, 1), repeat=4 if k == 4 and n > 1 else 2 if k == 3 and n > 1 else 0):
            out.append({"name": f"closure n={n} k={k} {list(pre)}", "h": "close", "n": n, "k": k, "pre": list(pre), "weight": n * k})
    for n, k in [(1, 1), (1, 2), (1, 4), (2, 2), (2, 4), (3, 3), (4, 4)] + ([(2, 5), (5, 5), (3, 6)] if T else []): out.append({"name": f"repeated n={n} k={k}", "h": "rep", "n": n, "k": k, "weight": k})
    return out
def _gens(c, cfg):
    from symx import arr, load
    mp = load.load(); n, k = cfg["n"], cfg["k"]
    M = cm.bitmat(c, "g", k, 2 * n)
    for t, b in enumerate(cfg.get("pre", [])): M[t // (2 * n)][t % (2 * n)] = b
    c.inp("g", M)
    return mp, M, mp.PauliOp(arr.mk(np.array(M, dtype=object), "i"))
def _eqr(a, b):
    from symx import core
    return core.mk_and(*[core.mk_iff(cm.asbit(x), cm.asbit(y)) for x, y in zip(a, b)])
def _rows(op):
    from symx import arr
    return [list(r) for r in arr.raw(op.matrix)]
def run_close(c, cfg):
    from symx import core, load
    load.load(); n, k = cfg["n"], cfg["k"]; A, Or, No, X = core.mk_and, core.mk_or, core.mk_not, core.mk_xor
    mp, M, g = _gens(c, cfg)
    for a, b in itertools.combinations(range(k), 2): c.assume(No(_eqr(M[a], M[b])))
    from mentpy.utils import lie_algebra as la
    old = mp.PauliOp.__hash__; mp.PauliOp.__hash__ = lambda self: 0       # sets and dicts compare by equality only
    try: R = la.lie_algebra_completion(g, max_iter=100000)
    finally: mp.PauliOp.__hash__ = old
    c.check(cm.bits_eq(g.matrix, np.array(M, dtype=object)) if len(g) == k else False, "the argument is not modified")
    rows = _rows(R); B = [[cm.asbit(x) for x in r] for r in rows]
    c.check(R.txt.count("\n") == len(rows) - 1 and len(R) == len(rows), "the text has one line per operator")
    c.check(all(len(r) == 2 * n for r in rows), "operators keep their number of qubits")
    for a, b in itertools.combinations(range(len(rows)), 2): c.check(No(_eqr(rows[a], rows[b])), "each element occurs once")
    for r in M: c.check(Or(*[_eqr(r, s) for s in rows]), "the generators are elements")
    c.check(Or(*[A(*[No(x) for x in s]) for s in B]), "the identity is an element")
    for a, b in itertools.combinations(range(len(rows)), 2):
        anti = X(*[A(B[a][i], B[b][i + n]) for i in range(n)], *[A(B[a][i + n], B[b][i]) for i in range(n)])
        s = [X(x, y) for x, y in zip(B[a], B[b])]
        c.check(Or(No(anti), *[_eqr(s, t) for t in B]), "closed under non-zero commutators")
    # minimal: every closed set S (a fresh predicate on all operators) that contains the generators contains the result
    V = list(itertools.product((0, 1), repeat=2 * n)); S = {v: c.bool(f"S{v}") for v in V}
    is_ = lambda r, v: A(*[x if b else No(x) for x, b in zip(r, v)])
    hyp = [S[(0,) * (2 * n)]]
    for r in M:
        rb = [cm.asbit(x) for x in r]
        for v in V: hyp.append(Or(No(is_(rb, v)), S[v]))
    for u, v in itertools.combinations(V, 2):
        if sum(u[i] * v[i + n] + u[i + n] * v[i] for i in range(n)) % 2: hyp.append(Or(No(S[u]), No(S[v]), S[tuple(x ^ y for x, y in zip(u, v))]))
    out = Or(*[A(is_(r, v), No(S[v])) for r in B for v in V])
    c.check(No(A(*hyp, out)), "no element lies outside the smallest closed set")
def replay_close(inp, cfg):
    import mentpy as mp
    from mentpy.utils import lie_algebra as la
    n = cfg["n"]; M = [tuple(int(x) for x in r) for r in inp["g"]]
    if len(set(M)) != len(M): return None
    g = mp.PauliOp(np.array(M)); R = la.lie_algebra_completion(g, max_iter=100000)
    if [tuple(int(x) for x in r) for r in np.array(g.matrix)] != M: return "the argument was modified"
    rows = [tuple(int(x) for x in r) for r in np.array(R.matrix)]
    S = set(M)
    while True:
        new = {tuple(x ^ y for x, y in zip(u, v)) for u in S for v in S if sum(u[i] * v[i + n] + u[i + n] * v[i] for i in range(n)) % 2} - S
        if not new: break
        S |= new
    S.add((0,) * (2 * n))
    ctx = " (generators " + ", ".join(cm.pauli_text(m) for m in M) + ")"
    if len(set(rows)) != len(rows): return "an element occurs twice" + ctx
    if set(rows) != S: return f"{sorted(map(cm.pauli_text, rows))} instead of {sorted(map(cm.pauli_text, S))}" + ctx
def run_rep(c, cfg):
    from symx import core, load
    load.load(); n, k = cfg["n"], cfg["k"]; A, Or, No = core.mk_and, core.mk_or, core.mk_not
    mp, M, g = _gens(c, cfg)
    from mentpy.utils import lie_algebra as la
    R = la.remove_repeated_ops(g); rows = _rows(R)
    c.check(cm.bits_eq(g.matrix, np.array(M, dtype=object)) if len(g) == k else False, "the argument is not modified")
    # position of each result row: it is the first occurrence, in order
    keep = [No(Or(*[_eqr(M[i], M[j]) for j in range(i)])) if i else True for i in range(k)]
    for m in range(len(rows)):
        alts = []
        for idx in itertools.combinations(range(k), m + 1):
            alts.append(A(*[keep[i] for i in idx], *[No(keep[i]) for i in range(idx[-1]) if i not in idx], _eqr(rows[m], M[idx[-1]])))
        c.check(Or(*alts), "exactly the first copies are kept, in order")
    c.check(No(Or(*[A(*[keep[i] for i in idx]) for idx in itertools.combinations(range(k), len(rows) + 1)])), "no operator is lost")
def replay_rep(inp, cfg):
    import mentpy as mp
    from mentpy.utils import lie_algebra as la
    M = [tuple(int(x) for x in r) for r in inp["g"]]; g = mp.PauliOp(np.array(M))
    R = [tuple(int(x) for x in r) for r in np.array(la.remove_repeated_ops(g).matrix)]
    if [tuple(int(x) for x in r) for r in np.array(g.matrix)] != M: return "the argument was modified"
    want = list(dict.fromkeys(M))
    if R != want: return f"{list(map(cm.pauli_text, R))} instead of {list(map(cm.pauli_text, want))}"
