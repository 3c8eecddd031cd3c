"""Independent oracles and helpers shared by the checks."""
import itertools, math, cmath
import numpy as np

# ---------------------------------------------------------------- symbolic side
def sx():
    from symx import core, arr, poly
    return core, arr, poly

def bitmat(c, name, r, m):
    "r x m matrix of symbolic bits (0/1 integers)"
    from symx import core, arr
    rows = [[core.mk_and(c.bool(f"{name}[{i},{j}]")) for j in range(m)] for i in range(r)]
    rows = [[core.SymInt([x.l, core.F]) if isinstance(x, core.SymBool) else int(x) for x in row] for row in rows]
    return rows

def lits(x):
    from symx import core, arr
    return [core.tolit(e) for e in arr.raw(x).ravel()]

def bits_eq(A, B):
    "equality of two arrays of bits / GF(2) elements / integers"
    from symx import core, arr
    A, B = arr.raw(A), arr.raw(B)
    if A.shape != B.shape: return False
    return core.mk_and(*[core.mk_iff(asbit(x), asbit(y)) for x, y in zip(A.ravel(), B.ravel())])

def asbit(x):
    from symx import core, arr
    if isinstance(x, arr.B2): return core.mkbool(x.l)
    if isinstance(x, (bool, np.bool_, core.SymBool)): return x
    return x != 0

# ---------------------------------------------------------------- concrete oracles
PM = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Z": np.diag([1, -1]), "Y": np.array([[0, -1j], [1j, 0]])}
def kron(*ms):
    r = np.eye(1)
    for m in ms: r = np.kron(r, m)
    return r
def pauli_matrix(bits):
    n = len(bits) // 2
    return kron(*[PM[{(0, 0): "I", (1, 0): "X", (0, 1): "Z", (1, 1): "Y"}[(int(bits[i]), int(bits[i + n]))]] for i in range(n)])
def pauli_text(bits):
    n = len(bits) // 2
    return "".join({(0, 0): "I", (1, 0): "X", (0, 1): "Z", (1, 1): "Y"}[(int(bits[i]), int(bits[i + n]))] for i in range(n))
def proportional(A, B, tol=1e-9):
    "A == s B for some phase s"
    A, B = np.asarray(A, complex), np.asarray(B, complex)
    if A.shape != B.shape: return False
    v = np.vdot(B.ravel(), A.ravel()); nb = np.vdot(B.ravel(), B.ravel()).real
    if nb < 1e-14: return np.abs(A).max() < tol
    return np.allclose(A, (v / nb) * B, atol=1e-7)
def cx(x):
    "decode a concrete input"
    if isinstance(x, dict) and set(x) == {"re", "im"}: return complex(x["re"], x["im"])
    return x
def rank2(M):
    M = [list(int(v) & 1 for v in r) for r in M]
    r = 0
    if not M: return 0
    for j in range(len(M[0])):
        p = next((i for i in range(r, len(M)) if M[i][j]), None)
        if p is None: continue
        M[r], M[p] = M[p], M[r]
        for i in range(len(M)):
            if i != r and M[i][j]: M[i] = [a ^ b for a, b in zip(M[i], M[r])]
        r += 1
    return r

# ---------------------------------------------------------------- flows
def io_types(n, lo=1, equal=True):
    "one representative (inputs, outputs) per (|I|, |O|, |I & O|)"
    out = []
    for a in range(lo, n + 1):
        for b in ([a] if equal else range(lo, n + 1)):
            for k in range(max(0, a + b - n), min(a, b) + 1):
                I = list(range(a)); O = list(range(a - k, a - k + b))
                out.append((I, O))
    return out
def io_all(n, lo=1, equal=True):
    out = []
    for a in range(lo, n + 1):
        for b in ([a] if equal else range(lo, n + 1)):
            for I in itertools.combinations(range(n), a):
                for O in itertools.combinations(range(n), b): out.append((list(I), list(O)))
    return out
def is_cflow(E, nodes, I, O, f, order):
    "concrete: is (f, order) a causal flow? returns None or a message"
    N = list(nodes)
    for u in N:
        if order(u, u): return f"order is not irreflexive at {u}"
        for v in N:
            for w in N:
                if order(u, v) and order(v, w) and not order(u, w): return f"order is not transitive at {u},{v},{w}"
    im = []
    for u in N:
        if u in O: continue
        try: v = f(u)
        except KeyError: return f"node {u} has no image"
        im.append(v)
        if v in I: return f"image {v} of {u} is an input"
        if frozenset((u, v)) not in E: return f"image {v} of {u} is not a neighbour"
        if not order(u, v): return f"{u} does not precede its image {v}"
        for w in N:
            if w != u and frozenset((v, w)) in E and not order(u, w): return f"{u} does not precede {w}, a neighbour of its image {v}"
    if len(set(im)) != len(im): return "flow is not injective"
def has_cflow(E, nodes, I, O):
    "concrete brute force over candidate images"
    N = list(nodes); M = [u for u in N if u not in O]
    cand = [[v for v in N if v not in I and v != u and frozenset((u, v)) in E] for u in M]
    for im in itertools.product(*cand):
        if len(set(im)) != len(im): continue
        succ = {u: set() for u in N}
        for u, v in zip(M, im):
            succ[u] |= {v} | {w for w in N if w != u and frozenset((v, w)) in E}
        # acyclic?
        deg = {u: 0 for u in N}
        for u in N:
            for v in succ[u]: deg[v] += 1
        st = [u for u in N if deg[u] == 0]; k = 0
        while st:
            u = st.pop(); k += 1
            for v in succ[u]:
                deg[v] -= 1
                if deg[v] == 0: st.append(v)
        if k == len(N): return dict(zip(M, im))
    return None
def gflow_layers(E, nodes, I, O):
    "concrete maximally delayed layers of a generalised flow (XY), or None"
    N = list(nodes); l = {v: 0 for v in O}; k = 1
    while len(l) < len(N):
        cols = [v for v in l if v not in I]; rest = [u for u in N if u not in l]
        new = []
        for u in rest:
            A = [[int(frozenset((r, x)) in E) for x in cols] for r in rest]
            b = [int(r == u) for r in rest]
            if rank2([a + [y] for a, y in zip(A, b)]) == rank2(A): new.append(u)
        if not new: return None
        for u in new: l[u] = k
        k += 1
    return l
def sym_cflow(c, E, nodes, I, O, tag="w"):
    "symbolic: condition that fresh witness variables form a causal flow of the graph with edge conditions E(u,v)"
    from symx import core
    N = list(nodes); M = [u for u in N if u not in O]
    A, Or, No = core.mk_and, core.mk_or, core.mk_not
    f = {(u, v): c.bool(f"{tag}.f({u},{v})") for u in M for v in N if v != u and v not in I}
    P = {(u, v): c.bool(f"{tag}.o({u},{v})") for u in N for v in N if u != v}
    cs = []
    for u in M:
        vs = [v for v in N if (u, v) in f]
        cs.append(Or(*[f[u, v] for v in vs]))
        for v in vs:
            cs.append(Or(No(f[u, v]), A(E(u, v), P[u, v])))
            for w in N:
                if w != u and w != v: cs.append(Or(No(f[u, v]), No(E(v, w)), P[u, w]))
            for x in M:
                if x != u and (x, v) in f: cs.append(No(A(f[u, v], f[x, v])))
            for v2 in vs:
                if v2 != v: cs.append(No(A(f[u, v], f[u, v2])))
    for u in N:
        for v in N:
            if u == v: continue
            cs.append(No(A(P[u, v], P[v, u])))
            for w in N:
                if w not in (u, v): cs.append(Or(No(P[u, v]), No(P[v, w]), P[u, w]))
    return A(*cs)
def edges_of(d): return {frozenset(e) for e in d["edges"]}
def mk_graph(mp, d):
    g = mp.GraphState(); g.add_nodes_from(d["nodes"]); g.add_edges_from(map(tuple, d["edges"])); return g
