"""Gate builders."""
import itertools, math
import numpy as np
from checks import common as cm
MODE = "poly"
BOUNDS = {"quick": "registers of up to 4 qubits, every position / ordered pair of positions, every 2x2 gate and every state vector (symbolic entries)", "thorough": "registers of up to 6 qubits"}
ASSUMPTIONS = ["distinct qubit positions inside the register"]
BUDGET = {"quick": 200, "thorough": 800}
def configs(tier):
    out = [{"name": "named gates", "h": "const"}]
    for n in range(1, (6 if tier == "thorough" else 4) + 1):
        for i in range(n): out.append({"name": f"single n={n} i={i}", "h": "single", "n": n, "i": i, "weight": n})
        for i, j in itertools.permutations(range(n), 2):
            out.append({"name": f"pairs n={n} {i},{j}", "h": "pair", "n": n, "i": i, "j": j, "weight": n})
    return out
def _act(n, wires, U, psi, mul, add):
    "U on wires of psi (qubit 0 most significant); psi list of length 2^n"
    k = len(wires); out = [0] * (2 ** n)
    for x in range(2 ** n):
        bits = [(x >> (n - 1 - q)) & 1 for q in range(n)]
        r = int("".join(str(bits[w]) for w in wires), 2)
        acc = 0
        for s in range(2 ** k):
            if isinstance(U[r][s], (int, float)) and U[r][s] == 0: continue
            b = list(bits)
            for t, w in enumerate(wires): b[w] = (s >> (k - 1 - t)) & 1
            acc = add(acc, mul(U[r][s], psi[int("".join(map(str, b)), 2)]))
        out[x] = acc
    return out
CZ = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, -1]]
CX = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]]
SW = [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]]
def _mv(arr, M, v): return arr.raw(arr.matmul(M, np.array(v, dtype=object)))
_a = lambda x, y: x + y
_m = lambda x, y: x * y
def run_single(c, cfg):
    from symx import poly, load, arr
    mp = load.load(); from mentpy.operators import gates
    n = cfg["n"]; psi = poly.amps("psi", 2 ** n, normalised=False); u = poly.amps("u", 4, normalised=False)
    c.inp("psi", psi); c.inp("u", u)
    U = np.array(u, dtype=object).reshape(2, 2)
    G = gates.arbitrary_qubit_gate(arr.mk(U.copy(), "c"), cfg["i"], n)
    c.check(G.shape == (2 ** n, 2 ** n), "size of the matrix")
    poly.check_eq(c, _mv(arr, G, psi), np.array(_act(n, [cfg["i"]], U.tolist(), psi, _m, _a), dtype=object), "single-qubit gate acts on its qubit only")
def run_pair(c, cfg):
    from symx import poly, load, arr
    mp = load.load(); from mentpy.operators import gates
    n, i, j = cfg["n"], cfg["i"], cfg["j"]; psi = poly.amps("psi", 2 ** n, normalised=False); c.inp("psi", psi)
    for nm, G, U in (("CZ", gates.controlled_z(i, j, n), CZ), ("CNOT", gates.cnot_ij(i + 1, j + 1, n), CX), ("SWAP", gates.swap_ij(i, j, n), SW)):
        c.check(G.shape == (2 ** n, 2 ** n), nm + ": size")
        poly.check_eq(c, _mv(arr, G, psi), np.array(_act(n, [i, j], U, psi, _m, _a), dtype=object), nm + " acts on its two qubits")
    v = arr.mk(np.array(psi, dtype=object), "c")
    poly.check_eq(c, arr.raw(gates.swap_qubits(v, i, j)), np.array(_act(n, [i, j], SW, psi, _m, _a), dtype=object), "swap_qubits exchanges the two qubits")
    poly.check_eq(c, arr.raw(v), np.array(psi, dtype=object), "the state passed in is unchanged")
NAMED = {"PauliX": [[0, 1], [1, 0]], "PauliY": [[0, -1j], [1j, 0]], "PauliZ": [[1, 0], [0, -1]], "HGate": [[2 ** -.5, 2 ** -.5], [2 ** -.5, -2 ** -.5]], "SGate": [[1, 0], [0, 1j]],
         "TGate": [[1, 0], [0, complex(2 ** -.5, 2 ** -.5)]], "CNOT": CX, "SWAP": SW, "CSGate": np.diag([1, 1, 1, 1j]).tolist()}
def run_const(c, cfg):
    from symx import poly, load, arr
    mp = load.load(); from mentpy.operators import gates
    psi = poly.amps("psi", 4, normalised=False); c.inp("psi", psi)
    for nm, U in NAMED.items():
        G = getattr(gates, nm); d = len(U)
        poly.check_eq(c, _mv(arr, G, psi[:d]), _mv(arr, np.array(U, dtype=object), psi[:d]), f"{nm} is the standard gate")
def _cv(v): return np.array([cm.cx(z) for z in v], dtype=complex)
def replay_single(inp, cfg):
    from mentpy.operators import gates
    psi, U = _cv(inp["psi"]), _cv(inp["u"]).reshape(2, 2)
    got = gates.arbitrary_qubit_gate(U, cfg["i"], cfg["n"]) @ psi
    if not np.allclose(got, _act(cfg["n"], [cfg["i"]], U.tolist(), psi, _m, _a)): return f"arbitrary_qubit_gate({cfg['i']}, {cfg['n']})"
def replay_pair(inp, cfg):
    from mentpy.operators import gates
    n, i, j = cfg["n"], cfg["i"], cfg["j"]; psi = _cv(inp["psi"])
    for nm, G, U in (("CZ", gates.controlled_z(i, j, n), CZ), ("CNOT", gates.cnot_ij(i + 1, j + 1, n), CX), ("SWAP", gates.swap_ij(i, j, n), SW)):
        if not np.allclose(G @ psi, _act(n, [i, j], U, psi, _m, _a)): return f"{nm} on {i},{j} of {n} qubits"
    p = psi.copy()
    if not np.allclose(gates.swap_qubits(psi, i, j), _act(n, [i, j], SW, p, _m, _a)): return f"swap_qubits {i},{j} of {n}"
    if not np.allclose(p, psi): return "state changed"
def replay_const(inp, cfg):
    from mentpy.operators import gates
    for nm, U in NAMED.items():
        if not np.allclose(getattr(gates, nm), U): return f"{nm} is {getattr(gates, nm)}"
