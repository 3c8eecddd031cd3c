"""The Pauli-rotation template implements the rotation of its operator."""
import itertools
import numpy as np
from checks import common as cm, simref as sr
MODE = "poly"
BOUNDS = {"quick": "every Pauli string on 1, 2 and 3 qubits (symbolic symplectic bits), all angles, all input states (basis columns; the map is linear)",
          "thorough": "the same up to 4 qubits, and the library's own simulator on 1 qubit"}
ASSUMPTIONS = ["outcome 0 everywhere", "the sign of the rotation may depend on the string but not on the angle"]
BUDGET = {"quick": 200, "thorough": 850}
def configs(tier):
    T = tier == "thorough"; out = []
    for n in range(1, (4 if T else 3) + 1):
        k = max(0, n - 2)          # leading bits fixed per configuration (parallelism only)
        for pre in itertools.product((0, 1), repeat=2 * k): out.append({"name": f"strings on {n} qubits, prefix {list(pre)}", "n": n, "pre": list(pre), "weight": n, "qtimeout": 30000})
    for n in (1, 2): out.append({"name": f"several rows on {n} qubits", "h": "rows", "n": n, "mode": "bits"})
    return out
def _bits(c, cfg, rows=1):
    n = cfg["n"]; M = cm.bitmat(c, "P", rows, 2 * n)
    for j, b in enumerate(cfg.get("pre", [])): M[0][j if j < len(cfg["pre"]) // 2 else n + j - len(cfg["pre"]) // 2] = b
    c.inp("P", M); return M
def _shape(mc, n):
    if len(mc.input_nodes) != n or len(mc.output_nodes) != n or len(set(mc.input_nodes)) != n or len(set(mc.output_nodes)) != n: return "one wire per qubit"
    if set(mc.input_nodes) & set(mc.output_nodes): return "inputs are measured"
    if len(mc.trainable_nodes) != 1: return "exactly one trainable node"
    for v in mc.graph.nodes():
        m = mc[v]
        if v in mc.output_nodes:
            if m is not None: return "outputs are unmeasured"
        elif m is None or m.plane not in (("XY",) if v in mc.trainable_nodes else ("X", "Y", "XY")): return "every other node is measured in the XY plane"
def _cols(mc, n, bra):
    nodes = list(mc.graph.nodes()); E = list(mc.graph.edges()); O = list(mc.output_nodes)
    bras = {v: bra(mc[v], v in mc.trainable_nodes) for v in nodes if v not in O}
    cols = []
    for k in range(2 ** n):
        e = [0] * 2 ** n; e[k] = 1
        cols.append(sr.branch(nodes, E, list(mc.input_nodes), e, bras, O))
    return cols
def _want(bits, n, cos, sin, s):
    P = cm.pauli_matrix(bits); I = np.eye(2 ** n)
    return [[cos * I[r, k] + complex(0, s) * P[r, k] * sin if P[r, k] else cos * I[r, k] for k in range(2 ** n)] for r in range(2 ** n)]
def run(c, cfg):
    from symx import poly, load, arr, core
    mp = load.load(); n = cfg["n"]
    M = _bits(c, cfg)
    op = mp.PauliOp(arr.mk(np.array(M, dtype=object), "i"))
    mc = mp.templates.from_pauli(op)
    m = _shape(mc, n); c.check(m is None, str(m))
    bits = [int(x) for x in M[0]]
    t = poly.angle("t"); c.inp("t", t)
    cols = _cols(mc, n, lambda q, tr: sr.sbra(q.plane, t if tr else q.angle))
    h = t * 0.5; L = lambda z: poly.lift(z)
    C, S = h.cos(), h.sin()
    A = [[L(cols[k][r]) for k in range(2 ** n)] for r in range(2 ** n)]
    def resid(s):
        W = [[L(w) for w in row] for row in _want(bits, n, C, S, s)]
        lam = 0
        for r in range(2 ** n):
            for k in range(2 ** n): lam = lam + A[r][k] * W[r][k].conjugate()
        lam = lam * (1 / 2 ** n)
        B = [[lam * w for w in row] for row in W]
        return lam, B
    for s in (1, -1):
        lam, B = resid(s)
        if s == -1 or all(L(A[r][k] - B[r][k]).is_zero() for r in range(2 ** n) for k in range(2 ** n)):
            poly.check_eq(c, np.array(A, dtype=object), np.array(B, dtype=object), "the map is the rotation of the operator")
            nn = lam * lam.conjugate()
            tot = 0
            for r in range(2 ** n): tot = tot + A[r][0] * A[r][0].conjugate()
            poly.check_eq(c, [nn], [tot], "the branch is unitary")
            c.check(core.mk_not(tot == 0), "the branch has positive probability")
            return
def replay(inp, cfg):
    import mentpy as mp
    n = cfg["n"]; bits = [int(b) for b in inp["P"][0]]; t = float(inp["t"])
    s = {}
    for sgn in (1, -1): s[sgn] = None
    mc = mp.templates.from_pauli(mp.PauliOp(np.array([bits])))
    m = _shape(mc, n)
    if m: return f"{cm.pauli_text(bits)}: {m}"
    ok = {1, -1}
    for ang in (t, 0.7, 2.1):
        A = np.array(_cols(mc, n, lambda q, tr: sr.cbra(q.plane, ang if tr else q.angle)), complex).T
        for sgn in list(ok):
            W = np.array(_want(bits, n, np.cos(ang / 2), np.sin(ang / 2), sgn), complex)
            if np.abs(A).max() < 1e-9 or not cm.proportional(A, W): ok.discard(sgn)
    if not ok: return f"the template of {cm.pauli_text(bits)} does not implement a rotation generated by it"
def run_rows(c, cfg):
    from symx import load, arr
    mp = load.load(); M = _bits(c, cfg, 2)
    try: mp.templates.from_pauli(mp.PauliOp(arr.mk(np.array(M, dtype=object), "i")))
    except ValueError: c.check(True, "several rows are rejected"); return
    c.fail("several rows are rejected")
def replay_rows(inp, cfg):
    import mentpy as mp
    try: mp.templates.from_pauli(mp.PauliOp(np.array(inp["P"], dtype=int)))
    except ValueError: return None
    return "an operator with two rows was accepted"
