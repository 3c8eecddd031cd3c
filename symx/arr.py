"""Symbolic numpy arrays: an object-dtype ndarray subclass whose operations never
force a symbolic element, plus the GF(2) array used in place of galois."""
import math, operator, itertools, functools
import numpy as np
from . import core
from .core import (Sym, SymBool, SymInt, Pick, T, F, and2, or2, xor2, ite, mkbool, mk_and, mk_or, mk_not, mk_xor,
                   tolit, merge, is_sym, ctx, Unsupported, NeedFork_here, INTS)

NUM = (int, float, complex, np.number, bool, np.bool_)
_RANK = {"b": 0, "i": 1, "f": 2, "c": 3, "O": 4}

def kind_of(x):
    if isinstance(x, SymArray): return x._kind
    if isinstance(x, np.ndarray):
        k = x.dtype.kind
        return {"b": "b", "i": "i", "u": "i", "f": "f", "c": "c"}.get(k, "O")
    if isinstance(x, (bool, np.bool_, SymBool)): return "b"
    if isinstance(x, INTS) or isinstance(x, SymInt): return "i"
    if isinstance(x, (float, np.floating)): return "f"
    if isinstance(x, (complex, np.complexfloating)): return "c"
    k = getattr(x, "__sx_kind__", None)
    return k if k else "O"

def maxkind(*ks):
    ks = [k for k in ks if k]
    return max(ks, key=lambda k: _RANK[k]) if ks else "O"

def dt_kind(dt):
    if dt is None: return "f"
    if dt is object: return "O"
    k = np.dtype(dt).kind
    return {"b": "b", "i": "i", "u": "i", "f": "f", "c": "c"}.get(k, "O")

class B2(Sym):
    "element of GF(2)"
    __slots__ = ("l",)
    def __init__(self, l): self.l = l
    __sx_kind__ = "i"
    shape = (); ndim = 0; size = 1
    def __sx_conc__(self, m): return 1 if core.ev(m, self.l) else 0
    def __sx_merge__(self, c, o):
        b = to_b2(o, strict=False)
        if b is None: return NotImplemented
        return B2(ite(c, self.l, b.l))
    def __sx_truth__(self): return self.l
    def asint(self): return int(self.l) if self.l in (T, F) else SymInt([self.l, F])
    def __bool__(self): return ctx().branch(self.l)
    def __int__(self): return int(bool(self))
    __index__ = __int__
    def __hash__(self): return hash(int(self))
    def __repr__(self): return f"B2({self.l})"
    def __str__(self): return "?"
    def item(self): return self.asint()
    def copy(self): return self
    def _o(self, o, name):
        if isinstance(o, B2): return o
        if isinstance(o, np.ndarray): return None
        raise TypeError(f"Operation '{name}' requires both operands to be GF(2) elements")
    def __add__(self, o):
        if isinstance(o, np.ndarray): return scalar_op(self, o, operator.add, False)
        return B2(xor2(self.l, self._o(o, "add").l))
    __radd__ = __add__
    def __sub__(self, o):
        if isinstance(o, np.ndarray): return scalar_op(self, o, operator.sub, False)
        return B2(xor2(self.l, self._o(o, "subtract").l))
    __rsub__ = __sub__
    def __neg__(self): return self
    def __mul__(self, o):
        if isinstance(o, np.ndarray): return scalar_op(self, o, operator.mul, False)
        if isinstance(o, B2): return B2(and2(self.l, o.l))
        x = SymInt.of(o)
        if x is None: raise TypeError("GF(2) scalar multiplication requires integers")
        return B2(and2(self.l, x.b[0]))
    __rmul__ = __mul__
    def __truediv__(self, o):
        if isinstance(o, np.ndarray): return scalar_op(self, o, operator.truediv, False)
        if not isinstance(o, B2): raise TypeError("GF(2) division")
        if not ctx().branch(o.l): raise ZeroDivisionError("Cannot divide by 0 in a Galois field.")
        return self
    def _bit(self, o):
        b = to_b2(o, strict=False)
        return b
    def __xor__(self, o):
        if isinstance(o, np.ndarray): return scalar_op(self, o, operator.xor, False)
        b = self._bit(o)
        if b is None: return SymInt.of(self.asint()) ^ o
        return B2(xor2(self.l, b.l))
    __rxor__ = __xor__
    def __and__(self, o):
        if isinstance(o, np.ndarray): return scalar_op(self, o, operator.and_, False)
        b = self._bit(o)
        if b is None: return SymInt.of(self.asint()) & o
        return B2(and2(self.l, b.l))
    __rand__ = __and__
    def __or__(self, o):
        if isinstance(o, np.ndarray): return scalar_op(self, o, operator.or_, False)
        b = self._bit(o)
        if b is None: return SymInt.of(self.asint()) | o
        return B2(or2(self.l, b.l))
    __ror__ = __or__
    def __eq__(self, o):
        if isinstance(o, np.ndarray): return scalar_op(self, o, operator.eq, False)
        if isinstance(o, B2): return mkbool(xor2(self.l, o.l) ^ 1)
        return SymInt([self.l, F]) == o
    def __ne__(self, o):
        if isinstance(o, np.ndarray): return scalar_op(self, o, operator.ne, False)
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_not(r)
    def __lt__(self, o): return SymInt([self.l, F]) < (o.asint() if isinstance(o, B2) else o)
    def __le__(self, o): return SymInt([self.l, F]) <= (o.asint() if isinstance(o, B2) else o)
    def __gt__(self, o): return SymInt([self.l, F]) > (o.asint() if isinstance(o, B2) else o)
    def __ge__(self, o): return SymInt([self.l, F]) >= (o.asint() if isinstance(o, B2) else o)
    def __pow__(self, o):
        if isinstance(o, INTS) and o > 0: return self
        if isinstance(o, INTS) and o == 0: return B2(T)
        raise Unsupported("GF(2) power")
    def reshape(self, *s):
        return mk(np.array([self], dtype=object), "i", GF2Array).reshape(*s)

def to_b2(x, strict=True):
    if isinstance(x, B2): return x
    if isinstance(x, SymBool): return B2(x.l)
    if isinstance(x, (bool, np.bool_)): return B2(T if x else F)
    if isinstance(x, SymInt):
        # numpy value must be 0/1
        ok = core.orn(x.b[1:])
        if ok != F and ctx().branch(ok): 
            if strict: raise ValueError("GF(2) arrays must have elements in `0 <= x < 2`")
            return None
        return B2(x.b[0])
    if isinstance(x, Pick):
        y = x.to_symint()
        return to_b2(y, strict) if y is not None else None
    if isinstance(x, INTS):
        if x in (0, 1): return B2(int(x))
        if strict: raise ValueError(f"GF(2) arrays must have elements in `0 <= x < 2`, not {x}")
        return None
    if isinstance(x, np.ndarray) and x.ndim == 0: return to_b2(x.item(), strict)
    if strict: raise TypeError(f"GF(2) arrays must have integer dtypes, not {type(x)}")
    return None

def _noconv(x): return x

def wrap0(x):
    a = np.empty((), dtype=object); a[()] = x
    return a

def mk(a, kind=None, cls=None):
    "view an object ndarray as a SymArray"
    a = np.asarray(a) if not isinstance(a, np.ndarray) else a
    if a.dtype != object: 
        kind = kind or kind_of(a)
        a = a.astype(object)
    r = a.view(cls or SymArray)
    if kind is None: kind = maxkind(*[kind_of(x) for x in a.ravel()]) if a.size else "f"
    r._kind = kind
    return r

def raw(x):
    "plain object ndarray of anything array-like (never resolves symbols)"
    if isinstance(x, np.ndarray):
        b = x.view(np.ndarray)
        return b if b.dtype == object else b.astype(object)
    if isinstance(x, Sym) or not isinstance(x, (list, tuple, range)):
        return wrap0(x)
    # nested sequence
    items = [raw(i) for i in x]
    if not items: return np.empty((0,), dtype=object)
    shp = items[0].shape
    if any(i.shape != shp for i in items):
        raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
    out = np.empty((len(items),) + shp, dtype=object)
    for k, it in enumerate(items):
        if shp == (): out[k] = it.item() if it.dtype != object else it[()]
        else: out[k] = it
    return out

def contains_sym(x):
    if isinstance(x, Sym) or isinstance(x, SymArray): return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(e, Sym) for e in x.ravel())
    if isinstance(x, (list, tuple)): return any(contains_sym(e) for e in x)
    return False

def unbox(a, kind=None, cls=None):
    if a.ndim == 0: return a[()]
    return mk(a, kind, cls)

def scalar_op(s, other, op, swap):
    "Sym scalar (op) ndarray"
    a = mk(wrap0(s), kind_of(s))
    b = other if isinstance(other, SymArray) else mk(raw(other), kind_of(other), GF2Array if isinstance(other, GF2Array) else None)
    if isinstance(s, B2): a = mk(wrap0(s), "i", GF2Array)
    uf = _OPUF[op]
    return b.__array_ufunc__(uf, "__call__", *((b, a) if swap else (a, b)))

_OPUF = {operator.add: np.add, operator.sub: np.subtract, operator.mul: np.multiply, operator.truediv: np.true_divide,
         operator.floordiv: np.floor_divide, operator.mod: np.remainder, operator.pow: np.power,
         operator.and_: np.bitwise_and, operator.or_: np.bitwise_or, operator.xor: np.bitwise_xor,
         operator.eq: np.equal, operator.ne: np.not_equal, operator.lt: np.less, operator.le: np.less_equal,
         operator.gt: np.greater, operator.ge: np.greater_equal, operator.matmul: np.matmul}

def _z(x): return isinstance(x, (int, float, complex)) and x == 0
def _add(a, b):
    if _z(a) : return b
    if _z(b): return a
    return a + b
def _mul(a, b):
    if (_z(a) and not isinstance(b, B2)) or (_z(b) and not isinstance(a, B2)): return 0
    if isinstance(a, (int, float)) and not isinstance(a, bool) and a == 1: return b
    if isinstance(b, (int, float)) and not isinstance(b, bool) and b == 1: return a
    return a * b

def _call1(name, fallback):
    def f(x):
        m = getattr(x, name, None)
        if m is not None and isinstance(x, Sym): return m()
        if isinstance(x, (SymBool, SymInt, Pick)): return fallback(x.resolve() if not isinstance(x, SymBool) else int(bool(x)))
        if isinstance(x, Sym): raise Unsupported(f"{name} of {type(x).__name__}")
        return fallback(x)
    return f
def _conj(x):
    if isinstance(x, (SymBool, SymInt, Pick, B2)): return x
    if isinstance(x, Sym): return x.conjugate()
    return x.conjugate() if hasattr(x, "conjugate") else x
def _isnan(x):
    if isinstance(x, Sym):
        m = getattr(x, "sx_isnan", None)
        return m() if m else False
    return bool(np.isnan(x))
def _isfinite(x):
    return True if isinstance(x, Sym) else bool(np.isfinite(x))
def _abs(x): return abs(x)
def _real(x):
    if isinstance(x, (SymBool, SymInt, Pick, B2)): return x
    return x.real
def _imag(x):
    if isinstance(x, (SymBool, SymInt, Pick, B2)): return 0
    return x.imag
def _np1(fn):
    return lambda x: fn(x)
def _min(a, b):
    c = a < b
    if getattr(a, '__sx_kind__', '') in ('f', 'c') or getattr(b, '__sx_kind__', '') in ('f', 'c'): return a if c else b     # by forking
    return merge(tolit(c), a, b) if is_sym(c) else (a if c else b)
def _max(a, b):
    c = a > b
    if getattr(a, '__sx_kind__', '') in ('f', 'c') or getattr(b, '__sx_kind__', '') in ('f', 'c'): return a if c else b     # by forking
    return merge(tolit(c), a, b) if is_sym(c) else (a if c else b)
def _eq(a, b):
    r = a == b
    return False if r is NotImplemented else (bool(r) if isinstance(r, np.bool_) else r)
def _ne(a, b): return mk_not(_eq(a, b))

_UF = {
    "add": _add, "subtract": lambda a, b: a if _z(b) else a - b, "multiply": _mul, "true_divide": lambda a, b: div(a, b), "divide": lambda a, b: div(a, b),
    "floor_divide": lambda a, b: a // b, "remainder": lambda a, b: a % b, "mod": lambda a, b: a % b, "power": lambda a, b: a ** b, "float_power": lambda a, b: a ** b,
    "bitwise_and": operator.and_, "bitwise_or": operator.or_, "bitwise_xor": operator.xor,
    "equal": _eq, "not_equal": _ne, "less": operator.lt, "less_equal": operator.le, "greater": operator.gt, "greater_equal": operator.ge,
    "logical_and": lambda a, b: mk_and(a, b), "logical_or": lambda a, b: mk_or(a, b), "logical_xor": lambda a, b: mk_xor(a, b), "logical_not": mk_not,
    "negative": operator.neg, "positive": lambda x: x, "absolute": _abs, "fabs": _abs, "conjugate": _conj, "conj": _conj,
    "square": lambda x: x * x, "invert": lambda x: mk_not(x) if isinstance(x, (bool, SymBool)) else ~x,
    "sqrt": _call1("sqrt", lambda x: np.sqrt(x).item() if not isinstance(x, complex) else complex(np.sqrt(x))),
    "sin": _call1("sin", lambda x: math.sin(x)), "cos": _call1("cos", lambda x: math.cos(x)), "tan": _call1("tan", lambda x: math.tan(x)),
    "exp": _call1("exp", lambda x: complex(np.exp(x)) if isinstance(x, complex) else math.exp(x)),
    "log2": _call1("log2", lambda x: float(np.log2(x))), "log": _call1("log", lambda x: float(np.log(x))),
    "isnan": _isnan, "isfinite": _isfinite, "isinf": lambda x: False if isinstance(x, Sym) else bool(np.isinf(x)),
    "minimum": _min, "maximum": _max, "fmin": _min, "fmax": _max,
    "sign": lambda x: (0 if x == 0 else (1 if x > 0 else -1)),
    "rint": lambda x: x if isinstance(x, (SymInt, SymBool)) else float(np.rint(x)),
    "floor": _call1("floor", lambda x: float(np.floor(x))), "ceil": _call1("ceil", lambda x: float(np.ceil(x))),
    "reciprocal": lambda x: div(1.0, x),
    "arctan2": lambda a, b: float(np.arctan2(a, b)),
}
def div(a, b):
    if isinstance(b, Sym) or isinstance(a, Sym):
        if isinstance(b, (int, float)) and not isinstance(b, bool) and b == 1: return a
        try: return a / b
        except ZeroDivisionError:
            from .poly import NAN
            return NAN          # numpy: inf or nan, no exception
    if b == 0:
        # numpy semantics: nan/inf, not an exception
        with np.errstate(all="ignore"):
            return (np.asarray(a) / np.asarray(b)).item()
    return a / b
_BOOLUF = {"equal", "not_equal", "less", "less_equal", "greater", "greater_equal", "logical_and", "logical_or", "logical_xor", "logical_not", "isnan", "isfinite", "isinf"}
_GFOK = {"add", "subtract", "multiply", "true_divide", "divide", "negative", "positive", "power", "square", "bitwise_xor", "bitwise_and", "bitwise_or"}
_INIT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False, "bitwise_xor": 0, "bitwise_or": 0, "logical_xor": False}

def elementwise(fn, *arrs):
    b = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    shape = b[0].shape
    out = np.empty(shape, dtype=object)
    of = out.reshape(-1) if out.ndim else None
    G = np.generic
    if out.ndim == 0:
        out[()] = fn(*[v.item() if isinstance(v, G) else v for v in (x[()] for x in b)]); return out
    for i, vals in enumerate(zip(*[x.ravel() for x in b])):
        of[i] = fn(*[v.item() if isinstance(v, G) else v for v in vals])
    return out

def matmul(a, b):
    a, b = raw(a), raw(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    a2 = a.reshape(1, -1) if a.ndim == 1 else a
    b2 = b.reshape(-1, 1) if b.ndim == 1 else b
    if a2.ndim > 2 or b2.ndim > 2: raise Unsupported("matmul of >2-d arrays")
    if a2.shape[1] != b2.shape[0]:
        raise ValueError(f"matmul: Input operand 1 has a mismatch in its core dimension 0 (size {b2.shape[0]} is different from {a2.shape[1]})")
    n, m = a2.shape[0], b2.shape[1]
    out = np.empty((n, m), dtype=object)
    G = np.generic
    bnz = [[(j, v.item() if isinstance(v, G) else v) for j, v in enumerate(row) if not _z(v)] for row in b2]
    for i in range(n):
        acc = [None] * m
        for k, v in enumerate(a2[i]):
            if isinstance(v, G): v = v.item()
            if _z(v): continue
            for j, w in bnz[k]:
                p = _mul(v, w)
                acc[j] = p if acc[j] is None else _add(acc[j], p)
        for j in range(m):
            out[i, j] = 0 if acc[j] is None else acc[j]
    if a.ndim == 1 and b.ndim == 1: return out.reshape(())
    if a.ndim == 1: return out.reshape(m)
    if b.ndim == 1: return out.reshape(n)
    return out

def guarded_write(view, new):
    "write `new` (broadcast) into the object ndarray `view` honouring the guard stack"
    c = core.CTX
    if c is None or not c.guards or c.glit == T:
        view[...] = new
        return
    g = c.glit
    newb = np.broadcast_to(new, view.shape)
    for idx in np.ndindex(view.shape):
        view[idx] = merge(g, newb[idx], view[idx])

class SymArray(np.ndarray):
    _kind = "O"
    def __array_finalize__(self, obj):
        if obj is not None: self._kind = getattr(obj, "_kind", None) or "O"
    # -- ufuncs
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        name = ufunc.__name__
        gf = any(isinstance(x, GF2Array) for x in inputs)
        ks = [kind_of(x) for x in inputs]
        if gf and method == "__call__" and name not in _BOOLUF and name != "matmul":
            if name in ("remainder", "mod", "invert", "floor_divide"):
                raise TypeError(f"ufunc {name} is not supported on GF(2) arrays")
            if name in ("add", "subtract", "true_divide", "divide") and not all(isinstance(x, (GF2Array, B2)) for x in inputs):
                raise TypeError(f"Operation '{name}' requires both operands to be GF(2) arrays")
        args = [x.l if False else raw(x) for x in inputs]
        where = kw.pop("where", True)
        if where is not True: raise Unsupported("where=")
        kw.pop("casting", None); kw.pop("subok", None); kw.pop("order", None)
        dtype = kw.pop("dtype", None)
        if method == "__call__":
            if name == "matmul":
                if gf and not all(isinstance(x, GF2Array) for x in inputs):
                    raise TypeError("matmul requires both operands to be GF(2) arrays")
                res = matmul(*args)
                if gf: res = elementwise(lambda x: x if isinstance(x, B2) else B2(F if x == 0 else T), res)
            else:
                fn = _UF.get(name)
                if fn is None: raise Unsupported(f"ufunc {name}")
                res = elementwise(fn, *args)
        elif method == "reduce":
            axis = kw.pop("axis", 0); keep = kw.pop("keepdims", False); initial = kw.pop("initial", np._NoValue)
            res = reduce_(name, args[0], axis, keep, initial, gf)
            if isinstance(res, np.ndarray) is False: res = wrap0(res)
        elif method == "outer":
            a, b = args
            res = elementwise(_UF[name], a.reshape(a.shape + (1,) * b.ndim), b)
        elif method == "at":
            raise Unsupported("ufunc.at")
        elif method == "accumulate":
            axis = kw.pop("axis", 0)
            a = np.moveaxis(args[0], axis, 0); res = np.empty_like(a); fn = _UF[name]
            for i in range(a.shape[0]): res[i] = a[i] if i == 0 else elementwise(fn, res[i - 1], a[i])
            res = np.moveaxis(res, 0, axis)
        else:
            raise Unsupported(f"ufunc method {method}")
        if name in _BOOLUF: kind, cls = "b", None
        elif gf and (name in _GFOK or name == "matmul"):
            kind, cls = "i", GF2Array
            if method == "__call__" and name in ("bitwise_xor", "bitwise_and", "bitwise_or") and not all(isinstance(e, B2) for e in res.ravel()):
                cls = None
        else:
            cls = None
            kind = maxkind(*ks)
            if name in ("true_divide", "divide", "sqrt", "sin", "cos", "exp", "log2", "log") and kind in ("b", "i"): kind = "f"
            if name in ("add", "multiply") and kind == "b" and method == "reduce": kind = "i"
        if dtype is not None: kind = dt_kind(dtype)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if isinstance(o, SymArray):
                newv = mk(res, kind, cls)
                guarded_write(o.view(np.ndarray), o._coerce(newv))
                return o
            raise Unsupported("out= native array")
        return unbox(res, kind, cls)

    # -- functions
    def __array_function__(self, func, types, args, kwargs):
        if not has_syms((args, kwargs)):
            return native_call(func, args, kwargs)
        h = FUNCS.get(func)
        if h is not None:
            return h(*args, **kwargs)
        impl = getattr(func, "_implementation", None)
        if impl is None: raise Unsupported(f"numpy function {func}")
        gf = any(isinstance(a, GF2Array) for a in flat_args(args))
        kind = maxkind(*[kind_of(a) for a in flat_args(args) if isinstance(a, np.ndarray)])
        a2 = tree(args); k2 = {k: tree(v) for k, v in kwargs.items()}
        r = impl(*a2, **k2)
        return rewrap(r, kind, GF2Array if gf else None)

    # -- element writes
    def _coerce(self, v):
        "convert a value to what numpy would store in an array of this kind"
        k = self._kind
        if isinstance(v, GF2Array) and not isinstance(self, GF2Array):
            return elementwise(lambda b: b.asint(), v.view(np.ndarray))
        r = raw(v)
        if isinstance(self, GF2Array):
            return elementwise(to_b2, r)
        def cv(x):
            if isinstance(x, B2): return x.asint()
            if k == "i":
                if isinstance(x, (float, np.floating)): return int(x)
                if isinstance(x, SymBool): return SymInt([x.l, F])
                if isinstance(x, (bool, np.bool_)): return int(x)
                if isinstance(x, Sym) and hasattr(x, "sx_to_int"): return x.sx_to_int()
            if k == "b" and not isinstance(x, (bool, SymBool)): return mkbool(tolit(x))
            if k == "f":
                if isinstance(x, complex): raise TypeError("can't convert complex to float")
                if isinstance(x, np.ndarray): return x.item()
            return x
        return elementwise(cv, r)
    def __setitem__(self, idx, v):
        idx2 = norm_index(idx)
        if has_sym_index(idx2):
            return sym_index_write(self, idx2, v)
        base = self.view(np.ndarray)
        nv = self._coerce(v)
        c = core.CTX
        if c is None or not c.guards or c.glit == T:
            base[idx2] = nv if nv.ndim else nv[()]
            return
        old = base[idx2]
        if not isinstance(old, np.ndarray):
            base[idx2] = merge(c.glit, nv[()] if nv.ndim == 0 else nv.reshape(-1)[0], old)
            return
        nb = np.broadcast_to(nv, old.shape) if nv.shape != old.shape else nv
        new = np.empty(old.shape, dtype=object)
        for i in np.ndindex(old.shape): new[i] = merge(c.glit, nb[i], old[i])
        base[idx2] = new
    def __getitem__(self, idx):
        idx2 = norm_index(idx)
        if has_sym_index(idx2):
            return sym_index_read(self, idx2)
        r = np.ndarray.__getitem__(self, idx2)
        return r
    def __iter__(self):
        for i in range(len(self)): yield self[i]
    def __bool__(self):
        if self.size == 1: return bool(self.reshape(-1)[0])
        if self.size == 0: return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
    def __contains__(self, x): return bool(mk_or(*[_eq(e, x) for e in self.view(np.ndarray).ravel()]))
    def __repr__(self): return "SymArray"
    def __str__(self): return str(np.array([x.__index__() if is_sym(x) and not hasattr(x, "n") else x for x in self.view(np.ndarray).ravel()], dtype=None if self._kind != "i" else int).reshape(self.shape)) if self._kind in ("i", "b") else "SymArray"
    def __hash__(self): raise TypeError("unhashable type: 'numpy.ndarray'")
    # -- methods that numpy would run on object elements
    def astype(self, dtype, *a, **k):
        kd = dt_kind(dtype)
        return self._as_kind(kd)
    def _as_kind(self, kd):
        src = elementwise(lambda b: b.asint(), self.view(np.ndarray)) if isinstance(self, GF2Array) else self.view(np.ndarray)
        out = mk(np.empty(self.shape, dtype=object), kd, SymArray)
        out.view(np.ndarray)[...] = out._coerce(mk(src.copy(), self._kind, SymArray))
        if kd == "f":
            out.view(np.ndarray)[...] = elementwise(lambda x: float(x) if isinstance(x, int) and not isinstance(x, bool) else x, out.view(np.ndarray))
        return out
    def all(self, axis=None, out=None, keepdims=False, **k): return np.logical_and.reduce(self, axis=axis, keepdims=keepdims)
    def any(self, axis=None, out=None, keepdims=False, **k): return np.logical_or.reduce(self, axis=axis, keepdims=keepdims)
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k): return np.add.reduce(self, axis=axis, keepdims=keepdims)
    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k): return np.multiply.reduce(self, axis=axis, keepdims=keepdims)
    def max(self, axis=None, out=None, keepdims=False, **k): return np.maximum.reduce(self, axis=axis, keepdims=keepdims)
    def min(self, axis=None, out=None, keepdims=False, **k): return np.minimum.reduce(self, axis=axis, keepdims=keepdims)
    def mean(self, axis=None, **k):
        s = self.sum(axis=axis)
        n = self.size if axis is None else self.shape[axis]
        return s / n
    def conj(self): return np.conjugate(self)
    def conjugate(self): return np.conjugate(self)
    @property
    def real(self): return unbox(elementwise(_real, self.view(np.ndarray)), "f")
    @property
    def imag(self): return unbox(elementwise(_imag, self.view(np.ndarray)), "f")
    def dot(self, o): return np.dot(self, o)
    def trace(self, *a, **k): return f_trace(self, *a, **k)
    def nonzero(self): return f_nonzero(self)
    def argmax(self, axis=None, **k): return f_argmax(self, axis)
    def argmin(self, axis=None, **k): return f_argmax(-self, axis)
    def argsort(self, *a, **k): return f_argsort(self, *a, **k)
    def tolist(self): return [x.tolist() if isinstance(x, np.ndarray) else x for x in self]
    def item(self, *a):
        return self.view(np.ndarray).item(*a)
    def round(self, *a, **k): return self
    def copy(self, order="C"):
        r = np.ndarray.copy(self); r._kind = self._kind
        return r
    def __sx_merge__(self, c, o):
        if not isinstance(o, np.ndarray): return NotImplemented
        return merge_arrays(c, self, o)
    def __deepcopy__(self, memo): return self.copy()
    def __matmul__(self, o): return np.matmul(self, o)
    def __rmatmul__(self, o): return np.matmul(o, self)
    def _bin(uf, swap=False):
        def f(self, o):
            if isinstance(o, (Sym, list, tuple)):
                o = mk(raw(o), kind_of(o) if isinstance(o, Sym) else None, GF2Array if isinstance(o, B2) else None)
            elif not isinstance(o, (np.ndarray, int, float, complex, np.generic)): return NotImplemented
            return self.__array_ufunc__(uf, "__call__", *((o, self) if swap else (self, o)))
        return f
    for _n, _u in [("add", np.add), ("sub", np.subtract), ("mul", np.multiply), ("truediv", np.true_divide), ("floordiv", np.floor_divide),
                   ("mod", np.remainder), ("pow", np.power), ("and", np.bitwise_and), ("or", np.bitwise_or), ("xor", np.bitwise_xor)]:
        locals()[f"__{_n}__"] = _bin(_u); locals()[f"__r{_n}__"] = _bin(_u, True)
    for _n, _u in [("eq", np.equal), ("ne", np.not_equal), ("lt", np.less), ("le", np.less_equal), ("gt", np.greater), ("ge", np.greater_equal)]:
        locals()[f"__{_n}__"] = _bin(_u)
    def _ibin(uf):
        def f(self, o):
            if isinstance(o, (Sym, list, tuple)):
                o = mk(raw(o), kind_of(o) if isinstance(o, Sym) else None, GF2Array if isinstance(o, B2) else None)
            return self.__array_ufunc__(uf, "__call__", self, o, out=(self,))
        return f
    for _n, _u in [("add", np.add), ("sub", np.subtract), ("mul", np.multiply), ("truediv", np.true_divide),
                   ("mod", np.remainder), ("and", np.bitwise_and), ("or", np.bitwise_or), ("xor", np.bitwise_xor)]:
        locals()[f"__i{_n}__"] = _ibin(_u)
    del _bin, _ibin, _n, _u

class GF2Array(SymArray):
    def __getitem__(self, idx):
        return SymArray.__getitem__(self, idx)
    def row_space(self, *a, **k): raise Unsupported("galois row_space")
    def row_reduce(self, *a, **k): raise Unsupported("galois row_reduce")

def norm_index(idx):
    if isinstance(idx, tuple): return tuple(_ni(i) for i in idx)
    return _ni(idx)
def _ni(i):
    if isinstance(i, SymBool): return SymInt([i.l, F])
    if isinstance(i, B2): return i.asint()
    if isinstance(i, SymArray):
        if i._kind == "b": return np.array([bool(x) for x in i.ravel()], dtype=bool).reshape(i.shape)
        return np.array([x if not is_sym(x) else x.resolve() for x in i.view(np.ndarray).ravel()], dtype=int).reshape(i.shape)
    if isinstance(i, list): return [(_ni(x) if not is_sym(x) else int(x)) for x in i]
    if isinstance(i, slice):
        f = lambda x: x if x is None else int(x)
        return slice(f(i.start), f(i.stop), f(i.step))
    return i
def has_sym_index(idx):
    if isinstance(idx, tuple): return any(isinstance(i, (SymInt, Pick)) for i in idx)
    return isinstance(idx, (SymInt, Pick))
def _alts_index(i, n):
    if isinstance(i, Pick): return [(l, v) for l, v in i.alts]
    out = []
    w = len(i.b)
    for v in range(-n, n):
        l = core._eq(i, SymInt.of(v))
        if l != F: out.append((l, v))
    return out
def _expand(idx, shape):
    if not isinstance(idx, tuple): idx = (idx,)
    ax = 0; per = []
    for i in idx:
        if i is None: per.append([(T, None)]); continue
        if i is Ellipsis: raise Unsupported("ellipsis with symbolic index")
        if isinstance(i, (SymInt, Pick)): per.append(_alts_index(i, shape[ax]))
        else: per.append([(T, i)])
        ax += 1
    for combo in itertools.product(*per):
        l = core.andn([c[0] for c in combo])
        if l != F: yield l, tuple(c[1] for c in combo)
def _inrange_or_raise(lits, what):
    ok = core.orn(lits)
    c = ctx()
    v = c.entailed(ok)
    if v is True: return
    if not c.branch(ok): raise IndexError(what)
def sym_index_read(a, idx):
    alts = list(_expand(idx, a.shape))
    _inrange_or_raise([l for l, _ in alts], "index out of bounds")
    res = None
    for l, i in alts:
        v = np.ndarray.__getitem__(a, i)
        res = v if res is None else merge(l, v, res)
    return res
def sym_index_write(a, idx, v):
    alts = list(_expand(idx, a.shape))
    _inrange_or_raise([l for l, _ in alts], "index out of bounds")
    c = ctx()
    for l, i in alts:
        c.push(l, ("symindex", 0, 0))
        try: a[i] = v
        finally: c.pop()

def merge_arrays(c, a, b):
    if a.shape != b.shape: raise NeedFork_here("merge arrays of different shape")
    cls = GF2Array if isinstance(a, GF2Array) and isinstance(b, GF2Array) else None
    return mk(elementwise(lambda x, y: merge(c, x, y), raw(a), raw(b)), maxkind(kind_of(a), kind_of(b)), cls)

def reduce_(name, a, axis, keep, initial, gf=False):
    fn = _UF[name]
    if axis is None:
        items = list(a.ravel())
        acc = _fold(name, fn, items, initial, gf)
        if keep:
            out = np.empty((1,) * a.ndim, dtype=object); out[...] = wrap0(acc); return out
        return wrap0(acc)
    if isinstance(axis, tuple):
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            a = reduce_(name, a, ax, keep, initial, gf)
            if not isinstance(a, np.ndarray): a = wrap0(a)
        return a
    axis = axis % a.ndim if a.ndim else 0
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(b.shape[:-1]):
        out[i] = _fold(name, fn, list(b[i]), initial, gf)
    if keep: out = np.expand_dims(out, axis)
    return out
def _fold(name, fn, items, initial, gf):
    if name == "logical_and": return mk_and(*items)
    if name == "logical_or": return mk_or(*items)
    if not items:
        if initial is not np._NoValue: return initial
        if name in _INIT: return B2(F) if gf and name == "add" else _INIT[name]
        raise ValueError(f"zero-size array to reduction operation {name} which has no identity")
    acc = items[0]
    if name in ("add", "multiply") and isinstance(acc, SymBool): acc = SymInt([acc.l, F])
    if name in ("add", "multiply") and isinstance(acc, (bool,)): acc = int(acc)
    for x in items[1:]: acc = fn(acc, x)
    if initial is not np._NoValue: acc = fn(initial, acc)
    return acc

# ------------------------------------------------------------------ numpy functions
def flat_args(args):
    for a in args:
        if isinstance(a, (list, tuple)): yield from flat_args(a)
        else: yield a
def tree(x):
    if isinstance(x, SymArray): return x.view(np.ndarray)
    if isinstance(x, list): return [tree(i) for i in x]
    if isinstance(x, tuple): return tuple(tree(i) for i in x)
    return x
def rewrap(r, kind, cls):
    if isinstance(r, np.ndarray):
        return mk(r, kind if r.dtype == object else None, cls) if r.dtype == object else r
    if isinstance(r, tuple): return tuple(rewrap(x, kind, cls) for x in r)
    if isinstance(r, list): return [rewrap(x, kind, cls) for x in r]
    return r

def has_syms(x):
    if isinstance(x, np.ndarray): return isinstance(x, GF2Array) or (x.dtype == object and any(isinstance(e, Sym) for e in x.ravel()))
    if isinstance(x, (list, tuple)): return any(has_syms(e) for e in x)
    if isinstance(x, dict): return any(has_syms(e) for e in x.values())
    return isinstance(x, Sym)
_DT = {"b": bool, "i": int, "f": float, "c": complex, "O": object}
def to_native(x):
    if isinstance(x, SymArray):
        b = x.view(np.ndarray)
        try: return np.array(b.tolist(), dtype=_DT[x._kind]).reshape(b.shape)
        except (TypeError, ValueError): return np.array(b.tolist()).reshape(b.shape)
    if isinstance(x, list): return [to_native(i) for i in x]
    if isinstance(x, tuple): return tuple(to_native(i) for i in x)
    if isinstance(x, dict): return {k: to_native(v) for k, v in x.items()}
    return x
def from_native(r):
    if isinstance(r, np.ndarray) and r.dtype.kind in "biufc": return mk(r.astype(object), kind_of(r))
    if type(r) is tuple: return tuple(from_native(i) for i in r)
    if type(r) is list: return [from_native(i) for i in r]
    return r
def native_call(func, args, kwargs):
    "no symbolic element is involved: ordinary numpy"
    out = kwargs.get("out")
    if out is not None: raise Unsupported("out=")
    return from_native(func(*to_native(tuple(args)), **to_native(dict(kwargs))))

FUNCS = {}
def reg(*fs):
    def d(f):
        for x in fs: FUNCS[x] = f
        return f
    return d

def _cat(arrs, axis, stackfn):
    arrs = list(arrs)
    gf = any(isinstance(a, GF2Array) for a in arrs)
    kind = maxkind(*[kind_of(a) for a in arrs])
    rs = []
    for a in arrs:
        r = raw(a)
        if gf: r = elementwise(to_b2, r)
        rs.append(r)
    return mk(stackfn(rs), kind, GF2Array if gf else None)
@reg(np.hstack)
def f_hstack(tup, **k):
    return _cat(tup, 0, lambda rs: np.hstack(rs))
@reg(np.vstack)
def f_vstack(tup, **k): return _cat(tup, 0, lambda rs: np.vstack(rs))
@reg(np.concatenate)
def f_concatenate(tup, axis=0, **k): return _cat(tup, axis, lambda rs: np.concatenate(rs, axis=axis))
@reg(np.stack)
def f_stack(tup, axis=0, **k): return _cat(tup, axis, lambda rs: np.stack(rs, axis=axis))
@reg(np.column_stack)
def f_cstack(tup): return _cat(tup, 0, lambda rs: np.column_stack(rs))
@reg(np.append)
def f_append(a, v, axis=None):
    if axis is None: return _cat([raw(a).ravel() if not isinstance(a, SymArray) else a.ravel(), raw(v).ravel()], 0, lambda rs: np.concatenate(rs))
    return _cat([a, v], axis, lambda rs: np.concatenate(rs, axis=axis))
@reg(np.block)
def f_block(x):
    def conv(y):
        return [conv(i) for i in y] if isinstance(y, list) else raw(y)
    def kinds(y):
        return maxkind(*[kinds(i) for i in y]) if isinstance(y, list) else kind_of(y)
    return mk(np.block(conv(x)), kinds(x))
@reg(np.kron)
def f_kron(a, b):
    ka, kb = kind_of(a), kind_of(b)
    a, b = raw(a), raw(b)
    nd = max(a.ndim, b.ndim)
    if nd == 0: return _mul(a[()], b[()])
    a = a.reshape((1,) * (nd - a.ndim) + a.shape); b = b.reshape((1,) * (nd - b.ndim) + b.shape)
    shp = tuple(x * y for x, y in zip(a.shape, b.shape))
    o = elementwise(_mul, a.reshape(tuple(itertools.chain(*[(s, 1) for s in a.shape]))), b.reshape(tuple(itertools.chain(*[(1, s) for s in b.shape]))))
    return mk(o.reshape(shp), maxkind(ka, kb))
@reg(np.outer)
def f_outer(a, b, out=None):
    return mk(elementwise(_mul, raw(a).ravel()[:, None], raw(b).ravel()[None, :]), maxkind(kind_of(a), kind_of(b)))
@reg(np.dot)
def f_dot(a, b, out=None):
    if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray) or a.ndim == 0 or b.ndim == 0: return a * b
    gf = isinstance(a, GF2Array)
    return (a if isinstance(a, SymArray) else mk(raw(a), kind_of(a))) @ b
@reg(np.inner)
def f_inner(a, b):
    if np.ndim(a) == 1 and np.ndim(b) == 1: return f_dot(a, b)
    return f_dot(a, b.T)
@reg(np.vdot)
def f_vdot(a, b):
    return unbox(matmul(elementwise(_conj, raw(a).ravel()), raw(b).ravel()), maxkind(kind_of(a), kind_of(b)))
@reg(np.trace)
def f_trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    r = raw(a)
    d = np.diagonal(r, offset, axis1, axis2)
    out = np.empty(d.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        acc = 0
        for x in d[i]: acc = _add(acc, x)
        out[i] = acc
    if isinstance(a, GF2Array): out = elementwise(to_b2, out)
    return unbox(out, kind_of(a)) if not isinstance(a, GF2Array) else (mk(out, "i", GF2Array) if out.ndim else out[()])
@reg(np.linalg.matrix_power)
def f_mpow(a, n):
    if n < 0: raise Unsupported("matrix_power of a negative exponent")
    r = np.eye(raw(a).shape[0], dtype=int)
    for _ in range(n): r = r @ a
    return r
@reg(np.linalg.multi_dot)
def f_multidot(arrs, out=None):
    r = arrs[0]
    for x in arrs[1:]: r = f_dot(r, x)
    return r
@reg(np.diag)
def f_diag(v, k=0):
    r = raw(v)
    if r.ndim == 1:
        n = len(r) + abs(k)
        out = np.empty((n, n), dtype=object); out[...] = 0
        for i, x in enumerate(r): out[i + max(0, -k), i + max(0, k)] = x
        if isinstance(v, GF2Array): return mk(elementwise(to_b2, out), "i", GF2Array)
        return mk(out, kind_of(v))
    return mk(np.diag(r, k).copy(), kind_of(v), type(v) if isinstance(v, SymArray) else None)
@reg(np.any)
def f_any(a, axis=None, out=None, keepdims=False, **k):
    return np.logical_or.reduce(a if isinstance(a, SymArray) else mk(raw(a)), axis=axis)
@reg(np.all)
def f_all(a, axis=None, out=None, keepdims=False, **k):
    return np.logical_and.reduce(a if isinstance(a, SymArray) else mk(raw(a)), axis=axis)
@reg(np.sum)
def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k): return np.add.reduce(a, axis=axis, keepdims=bool(keepdims) if keepdims is not np._NoValue else False)
@reg(np.prod)
def f_prod(a, axis=None, **k): return np.multiply.reduce(a, axis=axis)
@reg(np.max, np.amax)
def f_max(a, axis=None, **k): return np.maximum.reduce(a, axis=axis)
@reg(np.min, np.amin)
def f_min(a, axis=None, **k): return np.minimum.reduce(a, axis=axis)
@reg(np.mean)
def f_mean(a, axis=None, **k): return a.mean(axis=axis)
@reg(np.var)
def f_var(a, axis=None, **k):
    m = a.mean(axis=axis); d = a - (np.expand_dims(m, axis) if axis is not None else m)
    return (d * d).mean(axis=axis)
@reg(np.argmax)
def f_argmax(a, axis=None, **k):
    if axis is not None and a.ndim > 1: raise Unsupported("argmax axis")
    items = list(raw(a).ravel())
    if not items: raise ValueError("attempt to get argmax of an empty sequence")
    best, bi = items[0], 0
    for i, x in enumerate(items[1:], 1):
        c = x > best
        l = tolit(c)
        if l == F: continue
        if all(isinstance(z, (int, bool, SymInt, SymBool, B2)) for z in (best, x)):
            best = merge(l, x, best); bi = merge(l, i, bi)
        elif bool(c): best, bi = x, i
    return bi
@reg(np.argmin)
def f_argmin(a, axis=None, **k):
    items = list(raw(a).ravel())
    best, bi = items[0], 0
    for i, x in enumerate(items[1:], 1):
        c = x < best
        l = tolit(c)
        if l == F: continue
        if all(isinstance(z, (int, bool, SymInt, SymBool, B2)) for z in (best, x)):
            best = merge(l, x, best); bi = merge(l, i, bi)
        elif bool(c): best, bi = x, i
    return bi
@reg(np.argsort)
def f_argsort(a, axis=-1, kind=None, order=None, **k):
    pass
    items = list(raw(a).ravel())
    ix = sorted(range(len(items)), key=functools.cmp_to_key(lambda i, j: -1 if bool(items[i] < items[j]) else (1 if bool(items[j] < items[i]) else i - j)))
    return np.array(ix)
@reg(np.sort)
def f_sort(a, axis=-1, **k):
    if a.ndim != 1: raise Unsupported("sort nd")
    return a[f_argsort(a)]
def _nz(x):
    return tolit(x != 0) if not isinstance(x, (SymBool, B2, bool)) else tolit(x)
@reg(np.nonzero)
def f_nonzero(a):
    r = raw(a)
    idx = [i for i in np.ndindex(r.shape) if _btrue(_nz(r[i]))]
    if not idx: return tuple(np.array([], dtype=int) for _ in range(r.ndim))
    return tuple(np.array(x, dtype=int) for x in zip(*idx))
def _btrue(l):
    return True if l == T else (False if l == F else ctx().branch(l))
@reg(np.flatnonzero)
def f_flatnonzero(a): return f_nonzero(a.ravel())[0]
@reg(np.argwhere)
def f_argwhere(a): return np.array(f_nonzero(a)).T
@reg(np.count_nonzero)
def f_count_nonzero(a, axis=None, **k):
    if axis is not None: raise Unsupported("count_nonzero axis")
    acc = 0
    for x in raw(a).ravel():
        l = _nz(x)
        acc = acc + (int(l) if l in (T, F) else SymInt([l, F]))
    return acc
@reg(np.where)
def f_where(c, x=None, y=None):
    if x is None: return f_nonzero(c)
    return unbox(elementwise(lambda l, p, q: merge(_nz(l), p, q), raw(c), raw(x), raw(y)), maxkind(kind_of(x), kind_of(y)))
@reg(np.array_equal)
def f_array_equal(a, b, equal_nan=False):
    a, b = raw(a), raw(b)
    if a.shape != b.shape: return False
    return mk_and(*[_eq(x, y) for x, y in zip(a.ravel(), b.ravel())])
@reg(np.allclose)
def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    x, y = np.broadcast_arrays(raw(a), raw(b))
    return mk_and(*[_close(p, q) for p, q in zip(x.ravel(), y.ravel())])
def _close(p, q):
    if not is_sym(p) and not is_sym(q): return bool(np.isclose(p, q))
    return _eq(p, q)
@reg(np.isclose)
def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return unbox(elementwise(_close, raw(a), raw(b)), "b")
@reg(np.copy)
def f_copy(a, *x, **k): return a.copy()
def _filled(shape, v, kind, cls=None):
    out = np.empty(shape, dtype=object)
    out[...] = v
    return mk(out, kind, cls)
@reg(np.zeros_like)
def f_zeros_like(a, dtype=None, **k):
    kd = dt_kind(dtype) if dtype is not None else kind_of(a)
    return _filled(np.shape(a), 0.0 if kd == "f" else 0, kd) if not isinstance(a, GF2Array) else _filled(a.shape, B2(F), "i", GF2Array)
@reg(np.ones_like)
def f_ones_like(a, dtype=None, **k): 
    kd = dt_kind(dtype) if dtype is not None else kind_of(a)
    return _filled(np.shape(a), 1.0 if kd == "f" else 1, kd)
@reg(np.full_like)
def f_full_like(a, v, dtype=None, **k): return _filled(np.shape(a), v, kind_of(a))
@reg(np.empty_like)
def f_empty_like(a, dtype=None, **k): return f_zeros_like(a, dtype)
@reg(np.linalg.norm)
def f_norm(x, ord=None, axis=None, keepdims=False):
    r = raw(x)
    if axis is not None:
        rr = np.moveaxis(r, axis, -1)
        out = np.empty(rr.shape[:-1], dtype=object)
        for i in np.ndindex(rr.shape[:-1]): out[i] = f_norm(mk(rr[i].copy(), kind_of(x)))
        return unbox(out, "f")
    if ord not in (None, 2, "fro"): raise Unsupported("norm ord")
    if isinstance(x, GF2Array) or all(isinstance(e, (B2, SymBool)) or (isinstance(e, (int, SymInt))) for e in r.ravel()):
        # 0 exactly when all entries are zero; only used in comparisons
        return BitNorm([_nz(e) for e in r.ravel()], [e.asint() if isinstance(e, B2) else e for e in r.ravel()])
    acc = 0
    for e in r.ravel(): acc = _add(acc, _mul(_conj(e), e))
    if isinstance(acc, (int, float, complex)): return math.sqrt(abs(acc))
    acc = _real(acc)
    return _UF["sqrt"](acc)
class BitNorm(Sym):
    "Euclidean norm of an integer vector: supports comparison with thresholds"
    __slots__ = ("nz", "vals")
    __sx_kind__ = "f"
    def __init__(self, nz, vals): self.nz = nz; self.vals = vals
    def _sq(self):
        s = 0
        for v in self.vals: s = s + v * v
        return s
    def __sx_truth__(self): return core.orn(self.nz)
    def __bool__(self): return ctx().branch(core.orn(self.nz))
    def __float__(self): return math.sqrt(int(self._sq()))
    def _cmp(self, o, f):
        # compare sqrt(n) with constant t: n integer
        if isinstance(o, BitNorm): return f(self._sq(), o._sq())
        if o < 0: return f(0, -1)
        t = float(o) ** 2
        return f(self._sq(), t)
    def __le__(self, o): return self._cmp(o, operator.le)
    def __lt__(self, o): return self._cmp(o, operator.lt)
    def __ge__(self, o): return self._cmp(o, operator.ge)
    def __gt__(self, o): return self._cmp(o, operator.gt)
    def __eq__(self, o): return self._cmp(o, operator.eq)
    def __ne__(self, o): return mk_not(self._cmp(o, operator.eq))
    def __hash__(self): return id(self)
@reg(np.linalg.matrix_rank)
def f_rank(a, *x, **k):
    if not isinstance(a, GF2Array): raise Unsupported("matrix_rank over the reals")
    # rank over GF(2) (galois): insert the rows into an echelon basis indexed by leading column
    M = [[e.l for e in row] for row in a.view(np.ndarray)]
    if not M: return 0
    m = len(M[0]); valid = [F] * m; basis = [[F] * m for _ in range(m)]
    for r in M:
        live = T
        for j in range(m):
            b = and2(live, r[j])
            hit, ins = and2(b, valid[j]), and2(b, valid[j] ^ 1)
            basis[j] = [ite(ins, x, y) for x, y in zip(r, basis[j])]
            valid[j] = or2(valid[j], ins)
            live = and2(live, ins ^ 1)
            r = [xor2(x, and2(hit, y)) for x, y in zip(r, basis[j])]
    n = 0
    for l in valid: n = n + (int(l) if l in (T, F) else SymInt([l, F]))
    return n
@reg(np.real)
def f_real(a): return a.real
@reg(np.imag)
def f_imag(a): return a.imag
@reg(np.round, np.around)
def f_round(a, *x, **k): return a
@reg(np.shape)
def f_shape(a): return raw(a).shape
@reg(np.ndim)
def f_ndim(a): return raw(a).ndim
@reg(np.size)
def f_size(a, axis=None): return raw(a).size if axis is None else raw(a).shape[axis]
@reg(np.transpose)
def f_transpose(a, axes=None): return mk(np.transpose(raw(a), axes), kind_of(a), type(a) if isinstance(a, SymArray) else None)
@reg(np.isin)
def f_isin(e, t, **k):
    ts = list(raw(t).ravel())
    return unbox(elementwise(lambda x: mk_or(*[_eq(x, y) for y in ts]), raw(e)), "b")
@reg(np.unique)
def f_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if return_index or return_inverse or return_counts or isinstance(a, GF2Array) and axis is None: raise Unsupported("unique")
    if axis is None:
        keep = []
        for x in sorted(raw(a).ravel(), key=functools.cmp_to_key(_cmpf)):
            if not keep or not _tv(_eq(keep[-1], x)): keep.append(x)
        return mk(np.array(keep, dtype=object), kind_of(a))
    if axis != 0 or raw(a).ndim != 2: raise Unsupported("unique")
    def cmp(p, q):
        for x, y in zip(p, q):
            c = _cmpf(x, y)
            if c: return c
        return 0
    keep = []
    for row in sorted(list(raw(a)), key=functools.cmp_to_key(cmp)):
        if not keep or cmp(keep[-1], row): keep.append(row)
    out = np.empty((len(keep), raw(a).shape[1]), dtype=object)
    for i, row in enumerate(keep): out[i] = row
    return mk(out, kind_of(a), type(a) if isinstance(a, SymArray) else None)
def _tv(x): return x if isinstance(x, (bool, np.bool_)) else bool(x)
def _cmpf(x, y):
    if _tv(_eq(x, y)): return 0
    return -1 if _tv(operator.lt(x.asint() if isinstance(x, B2) else x, y.asint() if isinstance(y, B2) else y)) else 1
@reg(np.tensordot)
def f_tensordot(a, b, axes=2):
    ka = maxkind(kind_of(a), kind_of(b))
    a, b = raw(a), raw(b)
    if isinstance(axes, int):
        aa, bb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        aa, bb = axes
        aa = [aa] if isinstance(aa, int) else list(aa); bb = [bb] if isinstance(bb, int) else list(bb)
    aa = [x % a.ndim for x in aa]; bb = [x % b.ndim for x in bb]
    fa = [i for i in range(a.ndim) if i not in aa]; fb = [i for i in range(b.ndim) if i not in bb]
    K = int(np.prod([a.shape[i] for i in aa], dtype=int))
    A = a.transpose(fa + aa).reshape(-1, K); B = b.transpose(bb + fb).reshape(K, -1)
    return unbox(matmul(A, B).reshape([a.shape[i] for i in fa] + [b.shape[i] for i in fb]), ka)
@reg(np.einsum)
def f_einsum(sub, *ops, **k):
    sub = sub.replace(" ", "")
    lhs, _, rhs = sub.partition("->")
    ins = lhs.split(",")
    rs = [raw(o) for o in ops]
    if "." in sub or len(ins) != len(rs): raise Unsupported("einsum form")
    if "->" not in sub:
        import collections
        cnt = collections.Counter("".join(ins)); rhs = "".join(sorted(c for c in cnt if cnt[c] == 1))
    dim = {}
    for s, r in zip(ins, rs):
        for c, d in zip(s, r.shape): dim[c] = d
    summed = [c for c in dim if c not in rhs]
    out = np.empty([dim[c] for c in rhs], dtype=object)
    for oi in np.ndindex(*out.shape) if out.ndim else [()]:
        env = dict(zip(rhs, oi)); acc = 0
        for si in itertools.product(*[range(dim[c]) for c in summed]):
            env.update(zip(summed, si))
            t = 1
            for s, r in zip(ins, rs):
                t = _mul(t, r[tuple(env[c] for c in s)])
                if _z(t): break
            if not _z(t): acc = _add(acc, t)
        out[oi] = acc
    return unbox(out, maxkind(*[kind_of(o) for o in ops]))
@reg(np.vectorize)
def f_vec(*a): raise Unsupported("vectorize")
@reg(np.histogram)
def f_histogram(a, bins=10, range=None, density=None, weights=None):
    "one path per placement of the values in the bins; edges are the ones numpy uses"
    if weights is not None or (range is None and np.ndim(raw(bins)) == 0): raise Unsupported("histogram form")
    edges = np.histogram_bin_edges(np.zeros(1), bins, range) if np.ndim(bins) == 0 else np.asarray(raw(bins), dtype=float)
    counts = np.zeros(len(edges) - 1, dtype=int)
    for x in raw(a).ravel():
        if _tv(x < edges[0]) or _tv(x > edges[-1]): continue
        b = len(edges) - 2
        while b > 0 and _tv(x < edges[b]): b -= 1
        counts[b] += 1
    if density: return counts / np.diff(edges) / counts.sum(), edges
    return counts, edges
