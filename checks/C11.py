"""Measurement operators are projectors of their plane."""
import itertools, math
import numpy as np
from checks import common as cm
MODE = "poly"
BOUNDS = {"quick": "all planes, all real angles (pairs of angles for XYZ), fixed and trainable, both argument orders, lower-case names", "thorough": "the same (the space of planes is finite and the angles are symbolic), plus all strings of length <= 3 over X, Y, Z, x, y, z as plane names"}
ASSUMPTIONS = []
PL = ["XY", "XZ", "YZ", "XYZ", "X", "Y", "Z"]
def configs(tier):
    out = []
    for p in PL:
        for q in (p, p.lower()):
            for kind in ("fixed", "fixed-swapped", "trainable", "trainable-swapped") if p not in "XYZ" or p == "XYZ" or p in ("XY", "YZ", "XZ") else ("none", "none-swapped", "zero"):
                if len(p) == 1 and kind.startswith(("fixed", "train")): continue
                out.append({"name": f"{q} {kind}", "plane": q, "kind": kind})
    for p in ("X", "Y", "Z"):
        for kind in ("none", "none-swapped", "zero"): out.append({"name": f"{p} {kind}", "plane": p, "kind": kind})
        out.append({"name": f"{p} rejects angle", "h": "axis", "plane": p})
    for p in ["XX", "YX", "ZY", "A", "", "XYZX", "ZX"] + (["".join(t) for k in (1, 2, 3) for t in itertools.product("XYZxyz", repeat=k) if "".join(t).upper() not in PL] if tier == "thorough" else []):
        out.append({"name": f"unknown plane {p!r}", "h": "unknown", "plane": p})
    seen = set(); res = []
    for o in out:
        if o["name"] in seen: continue
        seen.add(o["name"]); res.append(o)
    return res
def _make(mp, plane, kind, ang):
    if kind == "fixed": return mp.Ment(ang, plane)
    if kind == "fixed-swapped": return mp.Ment(plane, ang)
    if kind == "trainable": return mp.Ment(None, plane)
    if kind == "trainable-swapped": return mp.Ment(plane)
    if kind == "none": return mp.Ment(None, plane)
    if kind == "none-swapped": return mp.Ment(plane)
    if kind == "zero": return mp.Ment(0, plane)
def _want(plane, cs):
    "coefficients of X, Y, Z"
    P = plane.upper()
    if len(P) == 1: return [1 if P == a else 0 for a in "XYZ"]
    if P == "XYZ":
        (c1, s1), (c2, s2) = cs
        return [c1 * c2, s1 * c2, s2]
    (c, s) = cs[0]
    r = {"X": 0, "Y": 0, "Z": 0}; r[P[0]] = c; r[P[1]] = s
    return [r[a] for a in "XYZ"]
def _mat(x, y, z): return [[z, x - 1j * y], [x + 1j * y, -z]]
def _expect(c, f, exc, msg):
    try: r = f()
    except exc: c.check(True, msg); return
    c.fail(msg)
def run(c, cfg):
    from symx import poly, load, arr
    mp = load.load()
    plane, kind = cfg["plane"], cfg["kind"]
    xyz = plane.upper() == "XYZ"
    a, b = poly.angle("a"), poly.angle("b"); a2, b2 = poly.angle("a2"), poly.angle("b2")
    c.inp("a", a); c.inp("b", b); c.inp("a2", a2)
    ang = (a, b) if xyz else a
    other = (a2, b) if xyz else a2
    m = _make(mp, plane, kind, ang)
    c.check(m.plane == plane.upper(), "plane is stored")
    fixed = kind.startswith(("fixed", "none", "zero"))
    single = len(plane) == 1
    c.check(bool(m.is_trainable()) == (kind.startswith("train")), "trainable exactly without an angle and off axis")
    cs = [(x.cos(), x.sin()) for x in (a, b)]
    W = _mat(*_want(plane, cs))
    def ops(args):
        M = arr.raw(m.matrix(*args)); p0, p1 = m.get_povm(*args)
        p0, p1 = arr.raw(p0), arr.raw(p1)
        I = np.eye(2)
        poly.check_eq(c, M, W, "the matrix is the combination of the Paulis of the plane")
        dag = lambda A: arr.raw(arr.mk(np.array([[poly.P(poly.lift(A[j, i]).conjugate().n) for j in range(2)] for i in range(2)], dtype=object)))
        mm = lambda A, B: arr.raw(arr.matmul(A, B))
        poly.check_eq(c, p0 + p1, I, "operators sum to the identity")
        for p, nm in ((p0, "+1"), (p1, "-1")):
            poly.check_eq(c, mm(p, p), p, f"{nm} operator is idempotent")
            poly.check_eq(c, dag(p), p, f"{nm} operator is Hermitian")
        poly.check_eq(c, mm(np.array(W, dtype=object), p0), p0, "first operator projects onto the +1 eigenspace")
        poly.check_eq(c, mm(np.array(W, dtype=object), p1), -1 * p1, "second operator projects onto the -1 eigenspace")
    if kind.startswith("train"):
        ops((ang,))
        _expect(c, lambda: m.matrix(), ValueError, "a trainable measurement requires an angle")
        _expect(c, lambda: m.get_povm(), ValueError, "a trainable measurement requires an angle")
        if xyz: _expect(c, lambda: m.matrix(a), TypeError, "XYZ needs two angles")
    else:
        ops(())
        if not single:
            ops((ang,))
            # a different angle is never used
            try: M = m.matrix(other)
            except Exception: M = None
            c.check((M is None) == bool(a2 != a), "an operator is returned exactly for the fixed angle")
            if M is not None:
              # here both angles are equal: the entries may be written with either
              V = _mat(*_want(plane, [(a2.cos(), a2.sin()), cs[1]]))
              same = all(poly.lift(x - y).is_zero() for x, y in zip(arr.raw(M).ravel(), np.array(V, dtype=object).ravel()))
              poly.check_eq(c, arr.raw(M), V if same else W, "no operator for a different angle")
    k = m.copy()
    c.check(k.plane == m.plane and bool(k.is_trainable()) == bool(m.is_trainable()), "copy keeps plane and trainability")
    poly.check_eq(c, arr.raw(k.matrix(*((ang,) if kind.startswith("train") else ()))), W, "copy has the same matrix")
def run_axis(c, cfg):
    from symx import poly, load, core
    mp = load.load()
    t = poly.real("t"); c.inp("t", t)
    for f in (lambda: mp.Ment(t, cfg["plane"]), lambda: mp.Ment(cfg["plane"], t)):
        try: m = f()
        except ValueError: c.check(core.mk_not(t == 0), "only a non-zero angle is rejected on an axis"); continue
        c.check(t == 0, "an angle on a single axis is rejected")
def run_unknown(c, cfg):
    from symx import load, poly
    mp = load.load(); t = poly.real("t"); c.inp("t", t)
    _expect(c, lambda: mp.Ment(None, cfg["plane"]), ValueError, "unknown plane rejected")
    _expect(c, lambda: mp.Ment(cfg["plane"]), ValueError, "unknown plane rejected")
    _expect(c, lambda: mp.Ment(t, cfg["plane"]), ValueError, "unknown plane rejected")
def replay(inp, cfg):
    import mentpy as mp
    plane, kind = cfg["plane"], cfg["kind"]
    xyz = plane.upper() == "XYZ"; a, b, a2 = float(inp["a"]), float(inp["b"]), float(inp["a2"])
    ang = (a, b) if xyz else a; other = (a2, b) if xyz else a2
    m = _make(mp, plane, kind, ang); tr = kind.startswith("train")
    if m.plane != plane.upper(): return f"plane {m.plane}"
    if bool(m.is_trainable()) != tr: return f"is_trainable() is {m.is_trainable()}"
    W = np.array(_mat(*_want(plane, [(math.cos(x), math.sin(x)) for x in (a, b)])))
    for mm in (m, m.copy()):
        for args in ([(ang,)] if tr else [()] + ([(ang,)] if len(plane) > 1 else [])):
            M = mm.matrix(*args); p0, p1 = mm.get_povm(*args)
            if not np.allclose(M, W, atol=1e-9): return f"matrix {M} instead of {W}"
            if not np.allclose(p0, (np.eye(2) + W) / 2, atol=1e-9) or not np.allclose(p1, (np.eye(2) - W) / 2, atol=1e-9): return f"operators {p0}, {p1} of {W}"
    if tr:
        for f in (m.matrix, m.get_povm):
            try: f(); return "no angle was required"
            except ValueError: pass
        if xyz:
            try: m.matrix(a); return "one angle accepted for XYZ"
            except TypeError: pass
    elif len(plane) > 1 and other != ang:
        try: M = m.matrix(other)
        except Exception: return None
        return f"fixed measurement gave an operator for the angle {other}"
def replay_axis(inp, cfg):
    import mentpy as mp
    t = float(inp["t"])
    for f in (lambda: mp.Ment(t, cfg["plane"]), lambda: mp.Ment(cfg["plane"], t)):
        try: f()
        except ValueError:
            if t == 0: return "angle 0 rejected"
            continue
        if t != 0: return f"angle {t} accepted on a single axis"
def replay_unknown(inp, cfg):
    import mentpy as mp
    for f in (lambda: mp.Ment(None, cfg["plane"]), lambda: mp.Ment(cfg["plane"]), lambda: mp.Ment(float(inp["t"]), cfg["plane"])):
        try: f()
        except ValueError: continue
        return f"plane {cfg['plane']!r} accepted"
