"""Reference semantics of measurement patterns (independent of the repository's simulators)."""
import itertools, math, cmath
import numpy as np
from checks import common as cm
R2 = 2 ** -0.5
def branch(nodes, edges, I, psi, bras, out, one=1):
    """amplitudes of the output nodes: sum over all bits of psi(inputs) * prod |+> * prod CZ * prod <bra|.
    psi: 2^|I| amplitudes in the order of I; bras: node -> (b0, b1) already conjugated"""
    nodes = list(nodes); pos = {v: k for k, v in enumerate(nodes)}
    meas = [v for v in nodes if v not in out]
    plus = R2 ** (len(nodes) - len(I))
    res = []
    for ob in itertools.product((0, 1), repeat=len(out)):
        bits = dict(zip(out, ob)); acc = 0
        for mb in itertools.product((0, 1), repeat=len(meas)):
            bits.update(zip(meas, mb))
            s = 0
            for u, v in edges: s ^= bits[u] & bits[v]
            t = psi[int("".join(str(bits[i]) for i in I) or "0", 2)]
            for v in meas: t = t * bras[v][bits[v]]
            acc = acc - t if s else acc + t
        res.append(acc * plus)
    return res
def sbra(kind, angle):
    "symbolic bra of the +1 eigenvector"
    from symx import poly
    r = R2
    if kind == "X": return (r, r)
    if kind == "Y": return (r, -1j * r)
    if kind == "Z": return (1, 0)
    return (r, (angle * -1j).exp() * r)
def cbra(kind, angle):
    if kind == "X": return (R2, R2)
    if kind == "Y": return (R2, -1j * R2)
    if kind == "Z": return (1, 0)
    return (R2, cmath.exp(-1j * angle) * R2)
def dm(v):
    v = np.asarray(v, complex); v = v / np.linalg.norm(v); return np.outer(v, v.conj())
def outer(v):
    from symx import poly
    L = [poly.lift(x) for x in v]
    return np.array([[a * b.conjugate() for b in L] for a in L], dtype=object)
def check_state(c, rho, v, msg):
    "rho is the normalised projector onto v"
    from symx import poly, arr
    o = outer(v); t = 0
    for k in range(len(v)): t = t + o[k, k]
    poly.check_eq(c, np.array([[poly.lift(x) * t for x in row] for row in arr.raw(rho)], dtype=object), o, msg)
def cv(v): return np.array([cm.cx(z) for z in v], dtype=complex)
