"""Stand-ins injected into the globals of the repository's modules while they are
executed symbolically: a numpy proxy (arrays hold symbols), a GF(2) factory in place
of galois, and versions of a few builtins that do not force a symbolic value."""
import sys, builtins, math, itertools, functools
import numpy as np
from . import core, arr, poly
from .core import (Sym, SymBool, SymInt, Pick, T, F, mkbool, tolit, merge, is_sym, ctx, Unsupported, INTS)
from .arr import SymArray, GF2Array, B2, raw, mk, contains_sym, kind_of, dt_kind, maxkind

# ------------------------------------------------------------------ numpy
def _active(): return core.CTX is not None

def _conv(x):
    if isinstance(x, (list, tuple)) and contains_sym(x):
        try: return mk(raw(x))
        except ValueError: return x
    if isinstance(x, Sym): return mk(arr.wrap0(x), kind_of(x))
    return x

_CATS = {np.hstack, np.vstack, np.concatenate, np.stack, np.column_stack, np.block}

def _un0(r):
    if isinstance(r, np.ndarray) and r.ndim == 0 and isinstance(r, SymArray): return r[()]
    return r

class Fn:
    "wraps a numpy function or ufunc"
    def __init__(self, f): self.f = f; functools.update_wrapper(self, f, updated=())
    def __call__(self, *a, **k):
        if not _active(): return self.f(*a, **k)
        if any(contains_sym(x) for x in a) or any(contains_sym(x) for x in k.values()):
            if self.f in _CATS:
                return arr.FUNCS[self.f](*a, **k)
            a = tuple(_conv(x) for x in a); k = {q: _conv(x) for q, x in k.items()}
            return _un0(self.f(*a, **k))
        return self.f(*a, **k)
    def __getattr__(self, n):
        v = getattr(self.f, n)
        return Fn(v) if callable(v) else v
    def __repr__(self): return repr(self.f)

def _symarr(x, dtype=None, kind=None):
    r = raw(x)
    if r is x or (isinstance(x, np.ndarray)): r = r.copy()
    k = dt_kind(dtype) if dtype is not None else (kind_of(x) if isinstance(x, np.ndarray) else maxkind(*[kind_of(e) for e in r.ravel()]) if r.size else "f")
    a = mk(r, k)
    if dtype is not None:
        src = mk(r.copy(), None)
        a.view(np.ndarray)[...] = a._coerce(src)
    return a

def np_array(x, dtype=None, copy=True, ndmin=0, **k):
    if not _active(): return np.array(x, dtype=dtype, copy=copy, ndmin=ndmin, **k)
    if dtype is object: return np.array(x, dtype=object)
    if isinstance(x, GF2Array) and dtype is None: return x.copy()
    if isinstance(x, (set, dict)) or hasattr(x, "__sx_iter__"):
        return np.array(x)
    if core.CTX.mode == "bits" and not _strings(x):
        x = _aslist(x)
        r = _symarr(x, dtype)
    elif contains_sym(x):
        r = _symarr(x, dtype)
    else:
        return np.array(x, dtype=dtype, ndmin=ndmin, **k)
    while r.ndim < ndmin: r = r[None]
    return r
def _aslist(x):
    if isinstance(x, (list, tuple, np.ndarray, range, Sym, int, float, complex, bool, np.generic)) or x is None: return x
    if hasattr(x, "__array__"): return x.__array__()
    if hasattr(x, "__iter__"): 
        if hasattr(x, "__getitem__") and hasattr(x, "__len__"): return [_aslist(x[i]) for i in range(len(x))]
        return x
    return x
def _strings(x):
    if isinstance(x, str): return True
    if isinstance(x, (list, tuple)): return any(_strings(i) for i in x)
    if isinstance(x, np.ndarray): return x.dtype.kind in "USO" and not isinstance(x, SymArray)
    return False
def np_asarray(x, dtype=None, **k):
    if not _active(): return np.asarray(x, dtype=dtype, **k)
    if isinstance(x, SymArray):
        return x if dtype is None or dt_kind(dtype) == x._kind and not isinstance(x, GF2Array) else x.astype(dtype)
    if isinstance(x, np.ndarray) and core.CTX.mode != "bits": return np.asarray(x, dtype=dtype)
    return np_array(x, dtype)
def _fill(v):
    def f(shape, dtype=float, *a, **k):
        if not _active() or (v == "e" and False): return getattr(np, "zeros" if v in (0, "e") else "ones")(shape, dtype)
        if core.CTX.mode != "bits" and v == 1: return np.ones(shape, dtype)
        kd = dt_kind(dtype)
        val = {"b": False, "i": 0, "f": 0.0, "c": 0}.get(kd, 0) if v in (0, "e") else {"b": True, "i": 1, "f": 1.0, "c": 1}.get(kd, 1)
        if isinstance(shape, Sym): shape = int(shape)
        if isinstance(shape, (list, tuple)): shape = tuple(int(s) for s in shape)
        return arr._filled(shape, val, kd)
    return f
def np_full(shape, v, dtype=None, **k):
    if not _active(): return np.full(shape, v, dtype)
    return arr._filled(shape, v, kind_of(v) if dtype is None else dt_kind(dtype))
def np_eye(n, M=None, k=0, dtype=float, **kw):
    if not _active() or core.CTX.mode != "bits": return np.eye(n, M, k, dtype)
    return _symarr(np.eye(int(n), M, k, int), dtype)
def np_identity(n, dtype=float): return np_eye(n, dtype=dtype)

class Linalg:
    def __getattr__(self, n):
        v = getattr(np.linalg, n)
        return Fn(v) if callable(v) and not isinstance(v, type) else v

class NP:
    def __init__(self):
        self.__dict__["_over"] = {}
        d = self.__dict__
        d["array"] = np_array; d["asarray"] = np_asarray; d["asanyarray"] = np_asarray; d["ascontiguousarray"] = np_asarray
        d["zeros"] = _fill(0); d["ones"] = _fill(1); d["empty"] = _fill("e"); d["full"] = np_full
        d["eye"] = np_eye; d["identity"] = np_identity
        d["linalg"] = Linalg()
        d["random"] = np.random
    def __getattr__(self, n):
        v = getattr(np, n)
        if isinstance(v, type) or not callable(v): return v
        f = Fn(v)
        self.__dict__[n] = f
        return f
NPX = NP()

class MathX:
    def __getattr__(self, n):
        v = getattr(math, n)
        if not callable(v): return v
        def f(*a):
            if any(isinstance(x, poly.P) for x in a):
                m = getattr(a[0], n, None)
                if m is None: raise Unsupported(f"math.{n}")
                return m()
            return v(*a)
        return f
MATHX = MathX()

# ------------------------------------------------------------------ GF(2)
class GFX:
    "galois.GF(2)"
    order = 2; characteristic = 2; degree = 1
    def __call__(self, x, dtype=None, copy=True, **k):
        if isinstance(x, GF2Array): return x.copy()
        if isinstance(x, B2): return x
        r = raw(_aslist(x))
        out = arr.elementwise(lambda v: _gfel(v), r)
        return mk(out, "i", GF2Array)
    def Zeros(self, shape, dtype=None): return arr._filled(shape, B2(F), "i", GF2Array)
    def Ones(self, shape, dtype=None): return arr._filled(shape, B2(T), "i", GF2Array)
    def Identity(self, n, dtype=None):
        a = self.Zeros((n, n))
        for i in range(n): a.view(np.ndarray)[i, i] = B2(T)
        return a
    def __instancecheck__(self, o): return isinstance(o, GF2Array)
def _gfel(v):
    if isinstance(v, B2): return v
    if isinstance(v, (SymBool,)): return B2(v.l)
    if isinstance(v, SymInt):
        lo = mkbool(core.orn(v.b[1:]))
        if lo is not False and bool(lo): raise ValueError("GF(2) arrays must have elements in 0 <= x < 2")
        return B2(v.b[0])
    if isinstance(v, (bool, np.bool_)): return B2(T if v else F)
    if isinstance(v, (float, np.floating)): raise TypeError("GF(2) arrays must have integer dtypes")
    if isinstance(v, INTS):
        if v not in (0, 1): raise ValueError(f"GF(2) arrays must have elements in `0 <= x < 2`, not {v}")
        return B2(T if v else F)
    if isinstance(v, Pick): return _gfel(v.to_symint() if v.to_symint() is not None else v.resolve())
    raise TypeError(f"cannot make a GF(2) element from {type(v).__name__}")
GFXI = GFX()
class GaloisX:
    def GF(self, *a, **k):
        if a and a[0] != 2: raise Unsupported("GF other than 2")
        return GFXI
    GF2 = GFXI
    FieldArray = GF2Array

# ------------------------------------------------------------------ builtins
def sx_isinstance(o, c):
    if isinstance(o, Sym) and not isinstance(c, core._np.ndarray.__class__ if False else ()):
        cs = c if isinstance(c, tuple) else (c,)
        for k in _flat(cs):
            if isinstance(k, GFX): 
                if isinstance(o, B2): return True
                continue
            if builtins.isinstance(o, k): return True
            if builtins.isinstance(o, SymBool) and k in (bool, int): return True
            if builtins.isinstance(o, SymInt) and k in (int, np.integer): return True
            if builtins.isinstance(o, poly.P):
                if k in (float, np.floating, np.float64, np.number) and o.is_real(): return True
                if k in (complex, np.complexfloating, np.complex128, np.number) and not o.is_real(): return True
            if builtins.isinstance(o, Pick):
                rs = {builtins.isinstance(v, k) for _, v in o.alts}
                if rs == {True}: return True
                if rs == {True, False}: return builtins.isinstance(o.resolve(), c)
            m = getattr(o, "__sx_isinstance__", None)
            if m is not None and m(k): return True
        return False
    if isinstance(c, GFX): return isinstance(o, GF2Array)
    if isinstance(c, tuple):
        return any(sx_isinstance(o, k) for k in c)
    return builtins.isinstance(o, c)
def _flat(cs):
    for c in cs:
        if isinstance(c, tuple): yield from _flat(c)
        elif hasattr(c, "__args__") and type(c).__name__ in ("UnionType",): yield from c.__args__
        else: yield c

def sx_len(x):
    m = getattr(type(x), "__sx_len__", None)
    return m(x) if m else builtins.len(x)
class _BoolMeta(type):
    def __instancecheck__(c, o): return builtins.isinstance(o, bool) or builtins.isinstance(o, SymBool)
    def __call__(c, x=False):
        if isinstance(x, Sym): return mkbool(tolit(x))
        m = getattr(type(x), "__sx_truth__", None)
        if m: return mkbool(m(x))
        return builtins.bool(x)
    def __eq__(c, o): return o is c or o is bool
    def __hash__(c): return hash(bool)

def sx_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymInt): return x
        if isinstance(x, SymBool): return SymInt([x.l, F])
        if isinstance(x, B2): return x.asint()
        if isinstance(x, Pick): return x.map(builtins.int)
        if isinstance(x, np.ndarray) and x.ndim == 0: return sx_int(x[()])
        if isinstance(x, SymArray) and x.size == 1: return sx_int(x.reshape(-1)[0])
    return builtins.int(*a, **k)
def sx_float(*a):
    if len(a) == 1 and isinstance(a[0], Sym):
        if isinstance(a[0], poly.P): return a[0]
        if isinstance(a[0], (SymInt, SymBool)): return SymInt.of(a[0])
    return builtins.float(*a)
def sx_complex(*a):
    if len(a) == 1 and isinstance(a[0], poly.P): return a[0]
    if any(isinstance(x, poly.P) for x in a): return a[0] + 1j * a[1]
    return builtins.complex(*a)

def _any(it, site=None):
    acc = F; c = core.CTX
    it = iter(it)
    if c is not None:
        if site is None:
            f = sys._getframe(1); site = ("any", f.f_code.co_filename, f.f_lineno)
        if site in c.demoted or c.nomerge: return builtins.any(it)
    while True:
        if c is not None and acc != F: c.push(acc ^ 1, site)
        try:
            try: x = next(it)
            except StopIteration: break
            except Exception as e:
                if c is None or acc == F: raise
                if c._check(c.glit)[0] == core.z3.unsat: break
                raise core.NeedFork(site, f"exception {type(e).__name__}") from e
        finally:
            if c is not None and acc != F: c.pop()
        l = tolit(x) if is_sym(x) or hasattr(type(x), "__sx_truth__") else (T if x else F)
        if c is not None:
            v = c.value(l)
            if v is not None: l = T if v else F
        if l == T and acc == F: return True
        acc = core.or2(acc, l)
        if acc == T: return True
    return mkbool(acc)
def _all(it):
    f = sys._getframe(1); site = ("all", f.f_code.co_filename, f.f_lineno)
    return core.mk_not(_any((_neg(x) for x in it), site))
def _neg(x):
    return core.mk_not(x) if is_sym(x) or hasattr(type(x), "__sx_truth__") else not x

def _ext(pyf, better):
    def f(*a, **k):
        if len(a) == 1 and not k.get("key"):
            seq = list(a[0])
            if not seq or not any(is_sym(x) for x in seq): return pyf(seq, **k)
        elif not k.get("key"):
            seq = list(a)
            if not any(is_sym(x) for x in seq): return pyf(*a, **k)
        else: return pyf(*a, **k)
        acc = seq[0]
        for x in seq[1:]:
            c = better(x, acc)
            l = tolit(c)
            if l == F: continue
            acc = merge(l, x, acc) if isinstance(x, (SymInt, SymBool, int, Pick)) and isinstance(acc, (SymInt, SymBool, int, Pick)) else (x if bool(c) else acc)
        return acc
    return f
sx_max = _ext(builtins.max, lambda x, a: x > a)
sx_min = _ext(builtins.min, lambda x, a: x < a)
def sx_sum(it, start=0):
    acc = start
    for x in it: acc = acc + x
    return acc
def sx_round(x, *a):
    return x if isinstance(x, Sym) else builtins.round(x, *a)
def sx_str(*a):
    return builtins.str(*a)
def sx_hash(x): return builtins.hash(x)

SHADOW = dict(isinstance=sx_isinstance, len=sx_len, any=_any, all=_all, max=sx_max, min=sx_min, sum=sx_sum, round=sx_round)
CASTS = dict(int=sx_int, float=sx_float, complex=sx_complex, bool=_BoolMeta.__call__)
