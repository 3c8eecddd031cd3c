"""Pauli text <-> table, container protocol of PauliOp."""
import itertools
import numpy as np
from checks import common as cm
MODE = "bits"; MERGE = True
BOUNDS = {"quick": "all texts and tables up to 3 rows x 3 qubits (and 1 x 6); all index lists on 3 qubits; all row indices and slices; equality of all tables up to 3x3, hashing up to 8 table bits",
          "thorough": "all texts and tables up to 5 rows x 5 qubits (and 1 x 16); index lists on 4 qubits; hashing up to 12 table bits"}
ASSUMPTIONS = ["texts over the letters I, X, Y, Z with ';' between rows and optional blanks"]
def configs(tier):
    T = tier == "thorough"
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (3, 3), (1, 6)] + ([(4, 4), (5, 5), (1, 16)] if T else [])
    out = []
    for r, n in shapes:
        out += [{"name": f"text {f} {r}x{n}", "h": "text", "r": r, "n": n, "form": f} for f in ("str", "list", "blank", "trail")]
        out.append({"name": f"table {r}x{n}", "h": "table", "r": r, "n": n})
        out.append({"name": f"eq {r}x{n}", "h": "eq", "r": r, "n": n})
        if 2 * r * n * 2 <= (24 if T else 16): out.append({"name": f"hash {r}x{n}", "h": "hash", "r": r, "n": n})
        out.append({"name": f"contains {r}x{n}", "h": "contains", "r": r, "n": n, "s": 1 + r % 2})
    for r, s, n in [(1, 1, 2), (2, 1, 2), (1, 2, 3), (2, 3, 3)]: out.append({"name": f"append {r}+{s} n={n}", "h": "append", "r": r, "s": s, "n": n})
    for n in (1, 2, 3) + ((4,) if T else ()):
        for r in (1, 2):
            for k in range(1, n + 1):
                for ix in itertools.permutations(range(n), k): out.append({"name": f"subset {r}x{n} {ix}", "h": "subset", "r": r, "n": n, "ix": list(ix)})
    out.append({"name": "malformed", "h": "bad"})
    return out
def _tab(c, nm, r, n):
    M = cm.bitmat(c, nm, r, 2 * n); c.inp(nm, M); return M
def _arr(M):
    from symx import arr
    return arr.mk(np.array(M, dtype=object), "i")
def _letter(x, z):
    from symx import core
    X, Z = core.tolit(x != 0), core.tolit(z != 0)
    return core.Pick.mk([(core.and2(X, Z ^ 1), "X"), (core.and2(X ^ 1, Z), "Z"), (core.and2(X, Z), "Y"), (core.and2(X ^ 1, Z ^ 1), "I")])
def _text(M):
    "list of row texts of a table"
    from symx.coll import SymStr
    n = len(M[0]) // 2
    return [SymStr.mk([_letter(row[j], row[j + n]) for j in range(n)]) for row in M]
def _join(sep, rows):
    from symx.coll import SymStr
    return SymStr.join(sep, rows)
def _is(c, op, M, what):
    "op describes exactly the rows M in all its views"
    from symx import core
    r, n = len(M), len(M[0]) // 2
    c.check(op.matrix.shape == (r, 2 * n), what + ": shape of the table")
    c.check(cm.bits_eq(op.matrix, M), what + ": table")
    T = _text(M)
    c.check(core.sx_eq(op.txt, _join("\n", T)), what + ": text")
    c.check(len(op) == r and op.number_of_qubits == n, what + ": sizes")
def _views(c, op, M, what):
    from symx import core
    r = len(M)
    _is(c, op, M, what)
    T = _text(M)
    for i in list(range(r)) + [-1]:
        _is(c, op[i], [M[i]], what + ": row by index")
    for lo, hi, st in itertools.product(list(range(r)) + [None, -1], list(range(1, r + 1)) + [None], (None, 2)):
        rows = M[slice(lo, hi, st)]
        if rows: _is(c, op[slice(lo, hi, st)], rows, what + ": slice")
    k = 0
    for i, x in enumerate(op):
        _is(c, x, [M[i]], what + ": iteration"); k += 1
    c.check(k == r, what + ": number of rows iterated")
def run_text(c, cfg):
    from symx import core, load
    from symx.coll import SymStr
    mp = load.load(); r, n = cfg["r"], cfg["n"]
    M = _tab(c, "a", r, n); T = _text(M); f = cfg["form"]
    if f == "list": op = mp.PauliOp(list(T))
    elif f == "str": op = mp.PauliOp(_join(";", T))
    elif f == "trail": op = mp.PauliOp(_join("", [_join(";", T), ";"]))
    else: op = mp.PauliOp(_join(" ; ", [_join(" ", list(t)) for t in T]))
    _views(c, op, M, "from text")
    _is(c, mp.PauliOp(op.matrix), M, "from the table of a parsed text")
def run_table(c, cfg):
    from symx import load
    mp = load.load(); M = _tab(c, "a", cfg["r"], cfg["n"]); A = _arr(M)
    op = mp.PauliOp(A)
    _views(c, op, M, "from table")
    c.check(cm.bits_eq(A, M), "the given array is not modified")
    _is(c, mp.PauliOp(op.txt.split("\n")), M, "from the printed text")
def run_eq(c, cfg):
    from symx import core, load
    mp = load.load(); r, n = cfg["r"], cfg["n"]
    A, B = _tab(c, "a", r, n), _tab(c, "b", r, n)
    a, b = mp.PauliOp(_arr(A)), mp.PauliOp(_arr(B))
    c.check(core.mk_iff(a == b, cm.bits_eq(A, B)), "equality is equality of all rows")
    C = _tab(c, "d", r + 1, n)
    c.check(core.mk_not(a == mp.PauliOp(_arr(C))), "operators with different numbers of rows are not equal")
def run_hash(c, cfg):
    from symx import core, load
    mp = load.load(); r, n = cfg["r"], cfg["n"]
    A = _tab(c, "a", r, n)
    a, b = mp.PauliOp(_arr(A)), mp.PauliOp(_join(";", _text(A)))
    c.check(hash(a) == hash(b), "equal operators hash equally")
def run_contains(c, cfg):
    from symx import core, load
    mp = load.load(); r, n, s = cfg["r"], cfg["n"], cfg["s"]
    A, B = _tab(c, "a", r, n), _tab(c, "b", s, n)
    a, b = mp.PauliOp(_arr(A)), mp.PauliOp(_arr(B))
    want = core.mk_and(*[core.mk_or(*[cm.bits_eq(x, y) for x in A]) for y in B])
    c.check(core.mk_iff(type(a).__contains__(a, b), want), "membership: every row is one of the rows")
def run_append(c, cfg):
    from symx import load
    mp = load.load(); A, B = _tab(c, "a", cfg["r"], cfg["n"]), _tab(c, "b", cfg["s"], cfg["n"])
    a, b = mp.PauliOp(_arr(A)), mp.PauliOp(_arr(B))
    a.append(b)
    _views(c, a, A + B, "append"); _is(c, b, B, "appended operator")
def run_subset(c, cfg):
    from symx import load
    mp = load.load(); n, ix = cfg["n"], cfg["ix"]
    A = _tab(c, "a", cfg["r"], n); a = mp.PauliOp(_arr(A)); given = list(ix)
    s = a.get_subset(given)
    _is(c, s, [[row[i] for i in ix] + [row[i + n] for i in ix] for row in A], "restriction to a subset of qubits")
    c.check(given == list(ix), "the index list is not modified"); _is(c, a, A, "the operator itself")
    for bad in ([n], [0, n + 1]):
        try: a.get_subset(bad); c.fail("a qubit out of range is rejected")
        except ValueError: pass
def _rej(f):
    try: f()
    except ValueError: return True
    return False
def run_bad(c, cfg):
    from symx import load
    from symx.coll import SymStr
    mp = load.load()
    A = _tab(c, "a", 2, 3)
    c.check(_rej(lambda: mp.PauliOp(_arr([r[:5] for r in A]))), "odd number of columns is rejected")
    c.check(_rej(lambda: mp.PauliOp(_arr([r[:1] for r in A]))), "odd number of columns is rejected")
    T = _text(A)
    c.check(_rej(lambda: mp.PauliOp([T[0], T[1][:2]])), "rows of different length are rejected (list)")
    c.check(_rej(lambda: mp.PauliOp(_join(";", [T[0][:2], T[1]]))), "rows of different length are rejected (text)")
    c.check(_rej(lambda: mp.PauliOp(7)), "other types are rejected")
# ---------------------------------------------------------------- replay
def _desc(op, M):
    M = np.array(M, dtype=int); r, n = len(M), M.shape[1] // 2
    if np.array(op.matrix).shape != M.shape or (np.array(op.matrix) != M).any(): return f"table {np.array(op.matrix).tolist()} instead of {M.tolist()}"
    if op.txt != "\n".join(cm.pauli_text(x) for x in M): return f"text {op.txt!r} for {M.tolist()}"
    if repr(op) != op.txt: return "printing differs from the text"
    if len(op) != r or op.number_of_qubits != n: return "sizes"
def _all(op, M):
    r = len(M); e = _desc(op, M)
    if e: return e
    for i in list(range(r)) + [-1]:
        e = _desc(op[i], [M[i]])
        if e: return f"row {i}: {e}"
    for sl in itertools.product(list(range(r)) + [None, -1], list(range(1, r + 1)) + [None], (None, 2)):
        rows = M[slice(*sl)]
        if rows:
            e = _desc(op[slice(*sl)], rows)
            if e: return f"slice {sl}: {e}"
    L = list(op)
    if len(L) != r: return "iteration"
    for x, m in zip(L, M):
        e = _desc(x, [m])
        if e: return f"iteration: {e}"
def replay_text(inp, cfg):
    import mentpy as mp
    M = inp["a"]; T = [cm.pauli_text(x) for x in M]; f = cfg["form"]
    op = mp.PauliOp({"list": T, "str": ";".join(T), "trail": ";".join(T) + ";", "blank": " ; ".join(" ".join(t) for t in T)}[f])
    return _all(op, M) or _desc(mp.PauliOp(op.matrix), M)
def replay_table(inp, cfg):
    import mentpy as mp
    M = inp["a"]; A = np.array(M, dtype=int); op = mp.PauliOp(A)
    if (A != np.array(M)).any(): return "array modified"
    return _all(op, M) or _desc(mp.PauliOp(op.txt.split("\n")), M)
def replay_eq(inp, cfg):
    import mentpy as mp
    a, b, d = (mp.PauliOp(np.array(inp[k], dtype=int)) for k in "abd")
    if bool(a == b) != (inp["a"] == inp["b"]): return f"{a.txt!r} == {b.txt!r} gives {a == b}"
    if bool(a == d): return f"{a.txt!r} == {d.txt!r}"
def replay_hash(inp, cfg):
    import mentpy as mp
    M = inp["a"]; a = mp.PauliOp(np.array(M, dtype=int)); b = mp.PauliOp(";".join(cm.pauli_text(x) for x in M))
    if hash(a) != hash(b): return f"hashes differ for {a.txt!r}"
def replay_contains(inp, cfg):
    import mentpy as mp
    a, b = (mp.PauliOp(np.array(inp[k], dtype=int)) for k in "ab")
    if (b in a) != all(r in inp["a"] for r in inp["b"]): return f"{b.txt!r} in {a.txt!r} gives {b in a}"
def replay_append(inp, cfg):
    import mentpy as mp
    a, b = (mp.PauliOp(np.array(inp[k], dtype=int)) for k in "ab")
    a.append(b)
    return _all(a, inp["a"] + inp["b"]) or _desc(b, inp["b"])
def replay_subset(inp, cfg):
    import mentpy as mp
    n, ix = cfg["n"], cfg["ix"]; A = inp["a"]; a = mp.PauliOp(np.array(A, dtype=int)); g = list(ix)
    e = _desc(a.get_subset(g), [[r[i] for i in ix] + [r[i + n] for i in ix] for r in A])
    if e: return e
    if g != list(ix): return "index list modified"
    for bad in ([n], [0, n + 1]):
        if not _rej(lambda: a.get_subset(bad)): return f"index list {bad} accepted"
    return _desc(a, A)
def replay_bad(inp, cfg):
    import mentpy as mp
    A = inp["a"]; T = [cm.pauli_text(x) for x in A]
    for f in (lambda: mp.PauliOp(np.array([r[:5] for r in A])), lambda: mp.PauliOp(np.array([r[:1] for r in A])), lambda: mp.PauliOp([T[0], T[1][:2]]), lambda: mp.PauliOp(T[0][:2] + ";" + T[1]), lambda: mp.PauliOp(7)):
        if not _rej(f): return "malformed input accepted"
