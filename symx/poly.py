"""Exact symbolic complex numbers.

A value is a quotient of Laurent polynomials over Q(zeta_8) in
  * unit phases        u = e^{i theta/2}      (conjugate u^-1)
  * complex amplitudes a, conj(a)             (optionally sum |a|^2 = 1)
  * real unknowns      r
  * square roots       s  (s^2 = given polynomial)
and carries a canonical form, so equality of two values for *every* assignment is
usually decided by normalisation; whatever is not constant is handed to z3 as a
real-arithmetic atom.
"""
import math, itertools
from fractions import Fraction
from math import gcd
import numpy as np
from . import core
from .core import Sym, SymBool, T, F, ctx, Unsupported, mkbool, z3

W = 12; HALF = 1 << (W - 1); MASK = (1 << W) - 1

class Var:
    __slots__ = ("kind", "name", "i", "conj", "rel", "z", "base", "angle")
VARS = []
BYNAME = {}
_red = {}      # monomial -> replacement P dict (num, den) or None
_conjm = {}
_sqrtc = {}
_ufc = {}
_special = [False]

def reset():
    VARS.clear(); BYNAME.clear(); _red.clear(); _conjm.clear(); _sqrtc.clear(); _ufc.clear(); _special[0] = False; _zexp.clear()

def newvar(kind, name):
    v = Var(); v.kind = kind; v.name = name; v.i = len(VARS); v.conj = None; v.rel = None; v.z = None; v.base = None; v.angle = None
    VARS.append(v); BYNAME[name] = v
    return v

def mono(v, e=1): return e << (W * v.i)

def exps(m):
    out = []
    i = 0
    while m:
        e = m & MASK
        if e >= HALF: e -= MASK + 1
        if e: out.append((i, e))
        m = (m - e) >> W
        i += 1
    return out

def conj_mono(m):
    r = _conjm.get(m)
    if r is None:
        r = 0
        for i, e in exps(m):
            v = VARS[i]
            if v.kind == "u": r += (-e) << (W * i)
            elif v.kind == "c": r += e << (W * v.conj)
            else: r += e << (W * i)
        _conjm[m] = r
    return r

# ---- Z[zeta8] coefficients
def cmul(a, b):
    a0, a1, a2, a3 = a; b0, b1, b2, b3 = b
    if not (a1 or a2 or a3):
        return (a0 * b0, a0 * b1, a0 * b2, a0 * b3)
    if not (b1 or b2 or b3):
        return (a0 * b0, a1 * b0, a2 * b0, a3 * b0)
    return (a0 * b0 - a1 * b3 - a2 * b2 - a3 * b1,
            a0 * b1 + a1 * b0 - a2 * b3 - a3 * b2,
            a0 * b2 + a1 * b1 + a2 * b0 - a3 * b3,
            a0 * b3 + a1 * b2 + a2 * b1 + a3 * b0)
def cconj(a): return (a[0], -a[3], -a[2], -a[1])
ZERO4 = (0, 0, 0, 0)
_R2 = math.sqrt(0.5)
def cfloat(a):
    return complex(a[0] + (a[1] - a[3]) * _R2, a[2] + (a[1] + a[3]) * _R2)
def cinv(a):
    "inverse as (coeffs, integer denominator)"
    # conjugates under the Galois group: z->z^3, z->z^5, z->z^7
    def gal(k):
        r = [0] * 4
        for j, x in enumerate(a):
            e = j * k % 8
            s = 1
            if e >= 4: e -= 4; s = -1
            r[e] += s * x
        return tuple(r)
    p = cmul(cmul(gal(3), gal(5)), gal(7))
    n = cmul(a, p)
    assert n[1] == n[2] == n[3] == 0
    if n[0] < 0: return tuple(-x for x in p), -n[0]
    return p, n[0]

# ---- dict polynomials (num, den): {mono: coeff4}, positive int den
def _norm(t, d):
    if d != 1:
        g = d
        for c in t.values():
            for x in c:
                if x: g = gcd(g, x)
                if g == 1: break
            if g == 1: break
        if g > 1:
            d //= g
            t = {m: (c[0] // g, c[1] // g, c[2] // g, c[3] // g) for m, c in t.items()}
    return t, d

def padd(A, B, sign=1):
    a, d = A; b, e = B
    if d == e: l = d; fa = fb = 1
    else:
        l = d * e // gcd(d, e); fa = l // d; fb = l // e
    fb *= sign
    if fa == 1: r = dict(a)
    else: r = {m: (c[0] * fa, c[1] * fa, c[2] * fa, c[3] * fa) for m, c in a.items()}
    for m, c in b.items():
        o = r.get(m)
        if o is None: r[m] = (c[0] * fb, c[1] * fb, c[2] * fb, c[3] * fb)
        else:
            n = (o[0] + c[0] * fb, o[1] + c[1] * fb, o[2] + c[2] * fb, o[3] + c[3] * fb)
            if n == ZERO4: del r[m]
            else: r[m] = n
    return _norm(r, l)

def pmul(A, B):
    a, d = A; b, e = B
    if len(a) > len(b): a, b = b, a
    r = {}
    for m, c in a.items():
        for n, k in b.items():
            p = m + n
            x = cmul(c, k)
            o = r.get(p)
            if o is not None: x = (o[0] + x[0], o[1] + x[1], o[2] + x[2], o[3] + x[3])
            r[p] = x
    r = {m: c for m, c in r.items() if c != ZERO4}
    r, d = _norm(r, d * e)
    if _special[0]: return reduce_(r, d)
    return r, d

def _redof(m):
    "None, or (monomial, multiplier polynomial) rewriting m"
    if m in _red: return _red[m]
    res = None
    for i, e in exps(m):
        v = VARS[i]
        if v.rel is None: continue
        r = v.rel(m, i, e)
        if r is not None: res = r; break
    _red[m] = res
    return res

def reduce_(t, d):
    while True:
        todo = [m for m in t if _redof(m) is not None]
        if not todo: return t, d
        rest = {m: c for m, c in t.items() if _red[m] is None}
        acc = (rest, d)
        for m in todo:
            nm, poly = _red[m]
            tt = {}
            for k, c in poly[0].items():
                x = cmul(c, t[m]); tt[k + nm] = x
            acc = padd(acc, (tt, d * poly[1]))
        t, d = acc

ONE = ({0: (1, 0, 0, 0)}, 1)
ZEROP = ({}, 1)

# ---- recognising native numbers
def _recog_real(x):
    "coeff4, den for a real float/int"
    if isinstance(x, (bool, np.bool_)): x = int(x)
    if isinstance(x, (int, np.integer)): return ({0: (int(x), 0, 0, 0)}, 1) if x else ZEROP
    x = float(x)
    if x != x or x in (math.inf, -math.inf): raise Unsupported("nan/inf mixed with a symbolic number")
    if x == 0 or abs(x) < 1e-14: return ZEROP
    if abs(x) > 1e-7:
        tol = 4e-13 * max(1.0, abs(x))
        for d in (1, 2, 4, 8, 16, 32, 64):
            y = x * d
            if abs(y - round(y)) < tol * d and round(y): return _norm({0: (int(round(y)), 0, 0, 0)}, d)
        for d in (2, 4, 8, 16, 32, 64):   # k*sqrt2/d
            y = x / math.sqrt(2) * d
            if abs(y - round(y)) < tol * d and round(y):
                k = int(round(y)); return _norm({0: (0, k, 0, -k)}, d)
        for d in (1, 2, 3, 4, 6, 8):
            y = x / math.pi * d
            if abs(y - round(y)) < tol * d and round(y):
                return _norm({mono(PI()): (int(round(y)), 0, 0, 0)}, d)
        c, s = math.cos(math.pi / 8), math.sin(math.pi / 8)
    f = Fraction(repr(float(x)))
    return ({0: (f.numerator, 0, 0, 0)}, f.denominator)

_reccache = {}
def recog(x):
    k = (type(x), x)
    r = _reccache.get(k)
    if r is not None and (len(r[0]) == 0 or 0 in r[0]): return r
    if isinstance(x, (complex, np.complexfloating)):
        a = _recog_real(x.real)
        if x.imag != 0:
            b = _recog_real(x.imag)
            a = padd(a, pmul(b, ({0: (0, 0, 1, 0)}, 1)))
        r = a
    else: r = _recog_real(x)
    _reccache[k] = r
    return r

def PI():
    v = BYNAME.get("@pi")
    if v is None: v = newvar("r", "@pi")
    return v

NUM = (int, float, complex, bool, np.number, np.bool_)

def lift(x):
    if isinstance(x, P): return x
    if isinstance(x, NaNP): return None
    if isinstance(x, NUM): return P(recog(x))
    if isinstance(x, SymBool) or isinstance(x, core.SymInt): return P(recog(int(x)))
    if isinstance(x, np.ndarray) and x.ndim == 0: return lift(x.item())
    return None

class NPInt(int):
    "an exact integer result: like a numpy number it can divide a list"
    def __rtruediv__(self, o):
        if isinstance(o, (list, tuple)):
            from . import arr
            return arr.mk(np.array(o, dtype=object), "c") / int(self)
        return int.__rtruediv__(self, o)
    shape = (); ndim = 0; size = 1
    @property
    def T(self): return self
    def conj(self): return self
    def item(self): return int(self)
    def sum(self, *a, **k): return self
    def copy(self): return self
    def reshape(self, *s):
        from . import arr
        if len(s) == 1 and isinstance(s[0], (tuple, list)): s = tuple(s[0])
        return arr.mk(np.array([int(self)], dtype=object).reshape(s), "c")
def out(n, q=None):
    "simplify to native number where exact"
    t = n[0]
    if not t: return NPInt(0)
    if q is None and len(t) == 1 and n[1] == 1:
        c = t.get(0)
        if c is not None and not (c[1] or c[2] or c[3]): return NPInt(c[0])
    return P(n, q)

def _const_of(n):
    t = n[0]
    if not t: return ZERO4, 1
    if len(t) == 1 and 0 in t: return t[0], n[1]
    return None

class P(Sym):
    __slots__ = ("n", "q", "_h")
    def __init__(self, n, q=None):
        self.n = n; self.q = q; self._h = None
    # -- structure
    @property
    def __sx_kind__(self):
        return "f" if self.is_real() else "c"
    def is_real(self):
        if self.q is not None:
            x = pmul(self.n, pconj(self.q)); y = pmul(pconj(self.n), self.q)
            return x == y
        return pconj(self.n) == self.n
    def const(self):
        "(coeff4, den) if constant"
        if self.q is not None: return None
        return _const_of(self.n)
    def is_zero(self): return not self.n[0]
    # -- arithmetic
    def _bin(self, o, f):
        y = lift(o)
        if y is None: return NotImplemented
        return f(self, y)
    def __add__(self, o):
        if isinstance(o, np.ndarray): return _arr(self, o, "add", False)
        return self._bin(o, add)
    def __radd__(self, o):
        if isinstance(o, np.ndarray): return _arr(self, o, "add", True)
        return self._bin(o, add)
    def __sub__(self, o):
        if isinstance(o, np.ndarray): return _arr(self, o, "sub", False)
        return self._bin(o, lambda a, b: add(a, b, -1))
    def __rsub__(self, o):
        if isinstance(o, np.ndarray): return _arr(self, o, "sub", True)
        return self._bin(o, lambda a, b: add(b, a, -1))
    def __mul__(self, o):
        if isinstance(o, np.ndarray): return _arr(self, o, "mul", False)
        return self._bin(o, mul)
    def __rmul__(self, o):
        if isinstance(o, np.ndarray): return _arr(self, o, "mul", True)
        return self._bin(o, mul)
    def __truediv__(self, o):
        if isinstance(o, np.ndarray): return _arr(self, o, "truediv", False)
        return self._bin(o, div)
    def __rtruediv__(self, o):
        if isinstance(o, (list, tuple)): o = np.array(o, dtype=object)      # like a numpy number
        if isinstance(o, np.ndarray): return _arr(self, o, "truediv", True)
        return self._bin(o, lambda a, b: div(b, a))
    def __pow__(self, o):
        if isinstance(o, np.ndarray): return _arr(self, o, "pow", False)
        if isinstance(o, (float, np.floating)) and float(o) == 0.5: return self.sqrt()
        if isinstance(o, (float, np.floating)) and float(o).is_integer(): o = int(o)
        if isinstance(o, (int, np.integer)):
            o = int(o)
            if o == 0: return 1
            if o < 0: return 1 / (self ** (-o))
            r = self
            for _ in range(o - 1): r = r * self
            return r
        raise Unsupported("symbolic exponent")
    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")
    def __neg__(self): return mul(self, P(recog(-1)))
    def __pos__(self): return self
    def __mod__(self, o):
        raise Unsupported("mod of symbolic real")
    def conjugate(self):
        return P(pconj(self.n), None if self.q is None else pconj(self.q))
    conj = conjugate
    @property
    def real(self):
        c = self.conjugate()
        return mul(lift(add(self, c)), P(({0: (1, 0, 0, 0)}, 2)))
    @property
    def imag(self):
        c = self.conjugate()
        return mul(lift(add(self, c, -1)), P(({0: (0, 0, -1, 0)}, 2)))
    @property
    def T(self): return self
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    @property
    def dtype(self): return np.dtype(complex if not self.is_real() else float)
    def item(self): return self
    def copy(self): return self
    def astype(self, *a, **k): return self
    def tolist(self): return self
    def squeeze(self): return self
    def reshape(self, *s):
        from . import arr
        return arr.mk(arr.wrap0(self), self.__sx_kind__).reshape(*s)
    def __abs__(self):
        if self.is_real():
            k = self.const()
            if k is not None:
                return self if cfloat(k[0]).real >= 0 else -self
            t = self.n[0]
            if self.q is None and len(t) == 1:
                (m, c), = t.items()
                if all(VARS[i].kind == "s" for i, e in exps(m)) and c[1:] == (0, 0, 0): return self if c[0] > 0 else -self
                if any(VARS[i].name == "@pi" for i, e in exps(m)) and len(exps(m)) == 1 and c[1:] == (0, 0, 0): return self if c[0] > 0 else -self
            sq = lift(mul(self, self))
            return sq.sqrt()
        n = lift(mul(self, self.conjugate()))
        return n.sqrt()
    def sqrt(self): return psqrt(self)
    def cos(self):
        e = pexp_i(self); 
        return mul(lift(add(lift(e), lift(e).conjugate())), P(({0: (1, 0, 0, 0)}, 2)))
    def sin(self):
        e = pexp_i(self)
        return mul(lift(add(lift(e), lift(e).conjugate(), -1)), P(({0: (0, 0, -1, 0)}, 2)))
    def tan(self): return self.sin() / self.cos()
    def exp(self):
        # e^{x}, x = i*phi
        if self.is_zero(): return 1
        phi = mul(self, P(({0: (0, 0, -1, 0)}, 1)))
        if not lift(phi).is_real(): raise Unsupported("exp of a non-imaginary symbolic value")
        return pexp_i(lift(phi))
    def __float__(self):
        k = self.const()
        if k is not None:
            z = cfloat(k[0]) / k[1]
            if abs(z.imag) < 1e-15: return z.real
        if self.q is None and set(self.n[0]) <= {0, mono(PI())}:
            z = sum(cfloat(c) * (math.pi if m else 1) for m, c in self.n[0].items()) / self.n[1]
            return z.real
        raise Unsupported("float() of a symbolic number")
    def __complex__(self):
        k = self.const()
        if k is not None: return cfloat(k[0]) / k[1]
        raise Unsupported("complex() of a symbolic number")
    def __int__(self):
        try: return int(float(self))
        except Unsupported:
            if not self.is_real(): raise
        k = 0                              # truncation of a symbolic real, decided by forking
        if bool(self >= 0):
            while not bool(self < k + 1):
                k += 1
                if k > 64: raise Unsupported("int() of a large symbolic number")
        else:
            while not bool(self > k - 1):
                k -= 1
                if k < -64: raise Unsupported("int() of a large symbolic number")
        return k
    def __round__(self, n=None):
        "some real within half a unit of the last place"
        if self.const() is not None:
            return round(float(self), n) if n is not None else round(float(self))
        c = ctx(); c.nfresh += 1
        r = real(f"round{c.nfresh}"); h = Fraction(1, 2 * 10 ** (n or 0))
        h = lift(h.numerator) / lift(h.denominator)
        c.assume(core.mk_and(r - self <= h, self - r <= h))
        return r
    def round(self, decimals=0, out=None): return self.__round__(decimals)
    def __hash__(self):
        if self._h is None:
            self._h = hash((frozenset(self.n[0].items()), self.n[1], self.q is None))
        return self._h
    def __repr__(self): return f"P({show(self)})"
    def __str__(self): return "?"
    def __format__(self, spec): return "?"
    def __bool__(self):
        r = self != 0
        return bool(r)
    # -- comparison
    def __eq__(self, o):
        if isinstance(o, np.ndarray): return _arr(self, o, "eq", False)
        try: y = lift(o)
        except Unsupported: return False
        if y is None: return NotImplemented if not (o is None or isinstance(o, (str, tuple, list, dict))) else False
        return is_zero(add(self, y, -1))
    def __ne__(self, o):
        if isinstance(o, np.ndarray): return _arr(self, o, "ne", False)
        r = self.__eq__(o)
        return r if r is NotImplemented else core.mk_not(r)
    def _cmp(self, o, sgn, strict):
        if isinstance(o, np.ndarray): return _arr(self, o, {(1, True): "gt", (1, False): "ge", (-1, True): "lt", (-1, False): "le"}[(sgn, strict)], False)
        if isinstance(o, (float, np.floating)) and math.isinf(o): return (o < 0) == (sgn > 0)
        y = lift(o)
        if y is None: return NotImplemented
        d = add(self, y, -1)
        return positive(d if sgn > 0 else -d, strict)
    def __gt__(self, o): return self._cmp(o, 1, True)
    def __ge__(self, o): return self._cmp(o, 1, False)
    def __lt__(self, o): return self._cmp(o, -1, True)
    def __le__(self, o): return self._cmp(o, -1, False)
    def __sx_truth__(self): return core.tolit(self != 0)
    def __sx_conc__(self, m):
        return evalp(self, m)
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        ins = tuple(arr.mk(arr.wrap0(x), arr.kind_of(x)) if isinstance(x, Sym) else x for x in inputs)
        return arr.SymArray.__array_ufunc__(next(i for i in ins if isinstance(i, arr.SymArray)), ufunc, method, *ins, **kw)
    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        def cv(x):
            if isinstance(x, P): return arr.mk(arr.wrap0(x), x.__sx_kind__)
            if isinstance(x, (list, tuple)): return type(x)(cv(i) for i in x)
            return x
        args = cv(list(args)); kwargs = {k: cv(v) for k, v in kwargs.items()}
        h = arr.FUNCS.get(func)
        if h is None: raise Unsupported(f"numpy function {func}")
        r = h(*args, **kwargs)
        return r[()] if isinstance(r, np.ndarray) and r.ndim == 0 else r

def _arr(s, o, op, swap):
    import operator
    from . import arr
    return arr.scalar_op(s, o, getattr(operator, op), swap)

def pconj(A): return ({conj_mono(m): cconj(c) for m, c in A[0].items()}, A[1]) if not _special[0] else reduce_({conj_mono(m): cconj(c) for m, c in A[0].items()}, A[1])

def add(a, b, sign=1):
    if a.q is None and b.q is None: return out(padd(a.n, b.n, sign))
    if a.q is not None and b.q is not None and a.q == b.q:
        return quot(padd(a.n, b.n, sign), a.q)
    qa, qb = a.q or ONE, b.q or ONE
    return quot(padd(pmul(a.n, qb), pmul(b.n, qa), sign), pmul(qa, qb))
def mul(a, b):
    if a.q is None and b.q is None: return out(pmul(a.n, b.n))
    qa, qb = a.q or ONE, b.q or ONE
    if b.n == qa: return quot(a.n, qb)
    if a.n == qb: return quot(b.n, qa)
    return quot(pmul(a.n, b.n), pmul(qa, qb))
def quot(n, q):
    if not n[0]: return NPInt(0)
    if not q[0]: raise ZeroDivisionError("division by zero")
    if len(q[0]) == 1:
        (m, c), = q[0].items()
        if all(VARS[i].kind == "u" for i, e in exps(m)):
            ci, cd = cinv(c)
            inv = ({-m: tuple(x * q[1] for x in ci)}, cd)
            return out(pmul(n, inv))
    if n == q: return NPInt(1)
    # exact proportionality  n = k q
    if len(n[0]) == len(q[0]) and n[0].keys() == q[0].keys():
        m0 = next(iter(n[0]))
        r = quot(({0: n[0][m0]}, n[1]), ({0: q[0][m0]}, q[1]))
        r = lift(r)
        if pmul(r.n, q) == n: return out(r.n)
    # exact polynomial division
    d = pdivide(n, q)
    if d is not None: return out(d)
    # normalise the integer denominators of q
    return P(_norm(*pmul(n, ({0: (q[1], 0, 0, 0)}, 1))), (q[0], 1))

def _lead(t): return max(t, key=lambda m: tuple(sorted(exps(m), reverse=True)))
def pdivide(n, q, limit=200):
    "n/q when exact (ordinary multivariate division by the leading term), else None"
    if _special[0] and any(VARS[i].rel for m in list(n[0]) + list(q[0]) for i, e in exps(m)): return None
    if len(q[0]) > 30 or len(n[0]) > 200: return None
    def ev_(m):
        e = [0] * len(VARS)
        for i, k in exps(m): e[i] = k
        return tuple(reversed(e))
    lq = max(q[0], key=ev_); ci, cd = cinv(q[0][lq])
    r = n; res = ZEROP
    lo = min(ev_(m) for m in n[0])
    for _ in range(limit):
        if not r[0]: return res
        lr = max(r[0], key=ev_)
        c = cmul(r[0][lr], ci)
        t = _norm({lr - lq: tuple(x * q[1] for x in c)}, r[1] * cd)
        # only divide when all non-unit exponents stay non-negative
        if any(k < 0 and VARS[i].kind != "u" for i, k in exps(lr - lq)): return None
        res = padd(res, t)
        r = padd(r, pmul(t, q), -1)
        if r[0] and ev_(max(r[0], key=ev_)) >= ev_(lr): return None
        if r[0] and min(ev_(m) for m in r[0]) < tuple(x - 40 for x in lo): return None
    return None
def div(a, b):
    if b.is_zero(): raise ZeroDivisionError("division by zero")
    qa, qb = a.q or ONE, b.q or ONE
    if b.const() is None:
        z = is_zero(b)
        if z is not False and bool(z): raise ZeroDivisionError("division by zero")
    # sqrt denominators: 1/s = s/s^2
    if b.q is None and len(b.n[0]) == 1:
        (m, c), = b.n[0].items()
        for i, e in exps(m):
            if VARS[i].kind == "s" and e == 1:
                s = P(({mono(VARS[i]): (1, 0, 0, 0)}, 1))
                return lift(mul(a, s)) / (lift(mul(b, s)))
    return quot(pmul(a.n, qb), pmul(qa, b.n))

class NaNP(Sym):
    "not-a-number: absorbs arithmetic, compares false"
    __slots__ = ()
    __sx_kind__ = "f"
    def _me(self, *a, **k): return self
    for _n in "add sub mul truediv pow".split():
        locals()[f"__{_n}__"] = _me; locals()[f"__r{_n}__"] = _me
    __neg__ = __pos__ = __abs__ = conjugate = conj = sqrt = sin = cos = exp = item = copy = _me
    real = imag = property(lambda self: self)
    def __eq__(self, o): return False
    def __ne__(self, o): return True
    def _f(self, o): return False
    __lt__ = __le__ = __gt__ = __ge__ = _f
    def __bool__(self): return True
    def __sx_truth__(self): return T
    def __hash__(self): return 7
    def __repr__(self): return "nan"
    def __sx_conc__(self, m): return float("nan")
    def sx_isnan(self): return True
    __array_ufunc__ = None
NAN = NaNP()

# ---- transcendental functions
def linear(x):
    "x = sum coef * theta + c*pi  -> dict var index -> Fraction ; None if not of that form"
    if x.q is not None: return None
    r = {}
    for m, c in x.n[0].items():
        e = exps(m)
        if c[1] or c[2] or c[3] or len(e) != 1 or e[0][1] != 1: return None
        r[e[0][0]] = Fraction(c[0], x.n[1])
    return r
def pexp_i(x):
    "e^{i x} for a real linear form x"
    if x.is_zero(): return 1
    l = linear(x)
    if l is not None:
        m = 0; k = 0; ok = True
        for i, f in l.items():
            v = VARS[i]
            if v.name == "@pi":
                f4 = f * 4
                if f4.denominator != 1: ok = False; break
                k = int(f4) % 8
            elif v.angle is not None:
                f2 = f * 2
                if f2.denominator != 1: ok = False; break
                m += mono(VARS[v.angle], int(f2))
            else: ok = False; break
        if ok:
            c = [0] * 4
            if k >= 4: c[k - 4] = -1
            else: c[k] = 1
            return out(({m: tuple(c)}, 1))
    # opaque unit with exact argument key (congruence of the exponential)
    sg = 1
    key = (frozenset(x.n[0].items()), x.n[1], None if x.q is None else (frozenset(x.q[0].items()), x.q[1]))
    y = -x
    key2 = (frozenset(y.n[0].items()), y.n[1], None if y.q is None else (frozenset(y.q[0].items()), y.q[1]))
    if ("exp", key2) in _ufc:
        return _ufc[("exp", key2)].conjugate()
    if ("exp", key) not in _ufc:
        v = newvar("u", f"@e{len(VARS)}")
        v.base = x
        _ufc[("exp", key)] = P(({mono(v): (1, 0, 0, 0)}, 1))
    return _ufc[("exp", key)]

def _isqrt(f):
    a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if a * a == f.numerator and b * b == f.denominator: return Fraction(a, b)
    return None
def psqrt(x):
    if isinstance(x, NUM): x = lift(x)
    if x.is_zero(): return 0
    k = x.const()
    if k is not None:
        c, d = k
        if c[1] == c[2] == c[3] == 0 and c[0] > 0:
            r = _isqrt(Fraction(c[0], d))
            if r is not None: return out(({0: (r.numerator, 0, 0, 0)}, r.denominator))
            r = _isqrt(Fraction(c[0], d) / 2)
            if r is not None: return out(({0: (0, r.numerator, 0, -r.numerator)}, r.denominator))
        if c[2] == 0 and c[1] == -c[3]:     # a + b sqrt2 : try (p+q sqrt2)^2
            a, b = Fraction(c[0], d), Fraction(c[1], d)
            disc = _isqrt(a * a - 2 * b * b) if a * a >= 2 * b * b else None
            if disc is not None:
                for s in (1, -1):
                    p = _isqrt((a + s * disc) / 2)
                    if p:
                        q = b / (2 * p)
                        l = p.denominator * q.denominator // gcd(p.denominator, q.denominator)
                        val = P(({0: (int(p * l), int(q * l), 0, -int(q * l))}, l))
                        return val if float(val) >= 0 else -val
    if x.q is not None:
        num, den = P(x.n), P(x.q)
        return lift(psqrt(lift(mul(num, den)))) / abs(den)
    # perfect squares of a single monomial in s-variables / constants handled above
    key = (frozenset(x.n[0].items()), x.n[1])
    r = _sqrtc.get(key)
    if r is None:
        # pull out a positive rational square factor
        g = 0
        for c in x.n[0].values():
            for e in c: g = gcd(g, e)
        f = Fraction(g, x.n[1])
        sf = _isqrt(f)
        if sf is None:
            sf = _isqrt(f / 2); two = True
            if sf is None: sf = Fraction(1); two = False; f = Fraction(1)
        else: two = False
        y = lift(x / P(({0: (f.numerator, 0, 0, 0)}, f.denominator)))
        # is y = z*conj(z) obvious perfect square of a real single variable?
        root = _poly_sqrt(y)
        if root is None:
            key2 = (frozenset(y.n[0].items()), y.n[1])
            root = _sqrtc.get(("r", key2))
            if root is None:
                v = newvar("s", f"@s{len(VARS)}")
                v.base = y
                yn = y.n
                def rel(m, i, e, v=v, yn=yn):
                    if e >= 2: return (m - (2 << (W * i)), yn)
                    return None
                v.rel = rel; _special[0] = True; _red.clear()
                root = P(({mono(v): (1, 0, 0, 0)}, 1))
                _sqrtc[("r", key2)] = root
        s = P(({0: (0, sf.numerator, 0, -sf.numerator)}, sf.denominator)) if two else P(({0: (sf.numerator, 0, 0, 0)}, sf.denominator))
        r = mul(s, root)
        _sqrtc[key] = r
    return r
def _poly_sqrt(y):
    return None

# ---- decision of real facts through z3
_zexp = {}
def zvar(v):
    if v.z is None:
        if v.kind == "u": v.z = (z3.Real(v.name + ".c"), z3.Real(v.name + ".s"))
        elif v.kind == "c":
            if v.conj > v.i: v.z = (z3.Real(v.name + ".re"), z3.Real(v.name + ".im"))
            else:
                a = zvar(VARS[v.conj]); v.z = (a[0], -a[1])
        else: v.z = (z3.Real(v.name), z3.RealVal(0))
    return v.z
def zconstraints():
    cs = []
    w = z3.Real("@sqrt2"); cs += [w > 0, w * w == 2]
    for v in VARS:
        if v.kind == "u":
            c, s = zvar(v); cs.append(c * c + s * s == 1)
        elif v.kind == "s":
            z = zvar(v)[0]
            re, im = zpoly(v.base.n)
            cs += [z >= 0, z * z == re]
        elif v.kind == "r" and v.name == "@pi":
            z = zvar(v)[0]
            cs += [z > z3.Q(314159, 100000), z < z3.Q(314160, 100000)]
    for grp in _norms:
        cs.append(z3.Sum([zvar(VARS[i])[0] ** 2 + zvar(VARS[i])[1] ** 2 for i in grp]) == 1)
    return cs
_norms = []
def _zm(a, b):
    def times(p, q):
        if isinstance(p, int) and p == 0 or isinstance(q, int) and q == 0: return 0
        if isinstance(p, int) and p == 1: return q
        if isinstance(q, int) and q == 1: return p
        return p * q
    def sub(p, q):
        if isinstance(q, int) and q == 0: return p
        return p - q
    def plus(p, q):
        if isinstance(q, int) and q == 0: return p
        if isinstance(p, int) and p == 0: return q
        return p + q
    return (sub(times(a[0], b[0]), times(a[1], b[1])), plus(times(a[0], b[1]), times(a[1], b[0])))
def zmono(m):
    r = (1, 0)
    for i, e in exps(m):
        z = zvar(VARS[i])
        if e < 0: z = (z[0], -z[1]); e = -e
        if VARS[i].kind in ("r", "s"): z = (z[0], 0)
        for _ in range(e): r = _zm(r, z)
    return r
def zpoly(n):
    w = z3.Real("@sqrt2")
    re, im = [], []
    for m, c in n[0].items():
        zr, zi = zmono(m)
        a = z3.Q(c[0], n[1]) + (z3.Q(c[1] - c[3], 2 * n[1]) * w if c[1] != c[3] else 0)
        b = z3.Q(c[2], n[1]) + (z3.Q(c[1] + c[3], 2 * n[1]) * w if c[1] != -c[3] else 0)
        re.append(a * zr - b * zi); im.append(a * zi + b * zr)
    return (z3.Sum(re) if re else z3.RealVal(0), z3.Sum(im) if im else z3.RealVal(0))

def ensure_constraints(c):
    done = getattr(c, "_pz", 0)
    if done != len(VARS) or not hasattr(c, "_pz"):
        seen = getattr(c, "_pzs", set())
        for z in zconstraints():
            k = z.sexpr()
            if k not in seen: seen.add(k); c.solver.add(z)
        c._pzs = seen; c._pz = len(VARS)

def link_angles(c, d):
    """comparisons of an angle with a constant, or of two angles: equal angles have equal half-angle phases,
    and the angle zero has the phase one"""
    if d.q is not None: return
    vs = []; k = 0.0
    for m, co in d.n[0].items():
        z = cfloat(co) / d.n[1]; es = exps(m)
        if not es: k += z
        elif len(es) == 1 and es[0][1] == 1 and VARS[es[0][0]].angle is not None: vs.append((VARS[es[0][0]], z))
        elif len(es) == 1 and es[0][1] == 1 and VARS[es[0][0]].name == "@pi": k += z * math.pi
        else: return
    if len(vs) == 1:
        x = complex(-k / vs[0][1])
        if abs(x.imag) > 1e-12: return
        c.__dict__.setdefault("_angc", {}).setdefault(vs[0][0].i, set()).add(x.real)
        if abs(x) < 1e-15:
            re, im = zvar(VARS[vs[0][0].angle])
            c.solver.add(z3.Implies(zvar(vs[0][0])[0] == 0, z3.And(re == 1, im == 0)))
    elif len(vs) == 2 and k == 0 and vs[0][1] == -vs[1][1]:
        a, b = (zvar(VARS[v.angle]) for v, z in vs)
        c.solver.add(z3.Implies(zvar(vs[0][0])[0] == zvar(vs[1][0])[0], z3.And(a[0] == b[0], a[1] == b[1])))

# ---- cheap signs: linear consequences of the comparisons decided on this path
def _linre(c, n):
    "real part of a polynomial as a linear form over the real and imaginary parts of its monomials (a relaxation)"
    L = c.__dict__.setdefault("_lmon", {}); out = []
    def var(key): 
        if key not in L: L[key] = z3.Real(f"@lm{len(L)}")
        return L[key]
    for m, k in n[0].items():
        cm_ = conj_mono(m); a, sg = (m, 1) if m <= cm_ else (cm_, -1)
        for co, tag in ((z3.Q(k[0], n[1]), "re"), (z3.Q(k[1] - k[3], 2 * n[1]), "wre"), (z3.Q(-sg * k[2], n[1]), "im"), (z3.Q(-sg * (k[1] + k[3]), 2 * n[1]), "wim")):
            if z3.is_rational_value(co) and co.numerator_as_long() == 0: continue
            if tag.endswith("im") and m == cm_: continue
            if m == 0 and tag == "re": out.append(co)
            else: out.append(co * var((a, tag)))
    return z3.Sum(out) if out else z3.RealVal(0)
def lsign(c, n):
    "+1 / -1 if the real polynomial n is known to be positive / negative, else 0"
    F_ = c.__dict__.get("_lfacts")
    if not F_: return 0
    fs = [(f if v else z3.Not(f)) for lit, f in F_ for v in [c.value(lit)] if v is not None]
    if not fs: return 0
    key = (frozenset(n[0].items()), n[1], len(fs)); ch = c.__dict__.setdefault("_lsign", {})
    if key in ch: return ch[key]
    e = _linre(c, n); r = 0
    s = z3.SolverFor("QF_LRA"); s.set("timeout", 2000); s.add(fs)
    wre = c._lmon.get((0, "wre"))
    if wre is not None: s.add(wre > z3.Q(14142, 10000), wre < z3.Q(14143, 10000))
    if s.check(e <= 0) == z3.unsat: r = 1
    elif s.check(e >= 0) == z3.unsat: r = -1
    c.stats.queries += 1
    if s.check() == z3.unsat: r = 0
    ch[key] = r
    return r
def is_zero(d):
    "d == 0 for the current values: constant, or an atom"
    if isinstance(d, NUM): return d == 0
    if d.is_zero(): return True
    k = d.const()
    if k is not None: return False
    if len(d.n[0]) == 1:
        (m, c), = d.n[0].items()
        vs = exps(m)
        if all(VARS[i].kind == "u" or VARS[i].name == "@pi" for i, e in vs): return False
    c = ctx(); 
    if pconj(d.n) == d.n and lsign(c, d.n): return False
    re, im = zpoly(d.n)
    ensure_constraints(c)
    link_angles(c, d)
    return mkbool(core.and2(core.atom(z3.simplify(re == 0)), core.atom(z3.simplify(im == 0))))

def positive(d, strict):
    if isinstance(d, NUM): 
        return bool(d > 0) if strict else bool(d >= 0)
    if d.is_zero(): return not strict
    k = d.const()
    if k is not None:
        z = cfloat(k[0]) / k[1]
        if abs(z.imag) > 1e-15: raise TypeError("complex comparison")
        return z.real > 0
    if d.q is None and set(d.n[0]) <= {0, mono(PI())}:
        return float(d) > 0
    if not d.is_real():
        raise Unsupported("ordering of complex symbolic values")
    q = d.q; c = ctx()
    if q is not None and pconj(q) == q and pconj(d.n) == d.n and (sg := lsign(c, q)):
        n = d.n if sg > 0 else pmul(d.n, ({0: (-1, 0, 0, 0)}, 1))
    else: n = d.n if q is None else pmul(d.n, q if P(q).is_real() else pconj(q))
    # obviously non-negative forms (sums of squares) are left to z3
    sg = lsign(c, n)
    if sg: return sg > 0
    re, im = zpoly(n)
    ensure_constraints(c)
    r = mkbool(core.atom(z3.simplify(re > 0 if strict else re >= 0)))
    if isinstance(r, SymBool):
        e = _linre(c, n); c.__dict__.setdefault("_lfacts", []).append((core.tolit(r), e > 0 if strict else e >= 0))
    return r

# ---- creating inputs
def angle(name):
    t = newvar("r", name); u = newvar("u", name + "/2")
    t.angle = u.i; u.base = None
    return P(({mono(t): (1, 0, 0, 0)}, 1))
def real(name):
    v = newvar("r", name)
    return P(({mono(v): (1, 0, 0, 0)}, 1))
def sign(name):
    v = newvar("g", name)
    def rel(m, i, e):
        if e >= 2: return (m - ((e - e % 2) << (W * i)), ONE)
        return None
    v.rel = rel; _special[0] = True; _red.clear()
    return P(({mono(v): (1, 0, 0, 0)}, 1))
def amps(name, n, normalised=True):
    vs = []
    for j in range(n):
        a = newvar("c", f"{name}{j}"); b = newvar("c", f"{name}{j}*")
        a.conj = b.i; b.conj = a.i
        vs.append((a, b))
    if normalised:
        if n == 1: raise ValueError
        repl = {0: (1, 0, 0, 0)}
        for a, b in vs[1:]: repl[mono(a) + mono(b)] = (-1, 0, 0, 0)
        repl = (repl, 1)
        a0, b0 = vs[0]
        def rel(m, i, e):
            ex = dict(exps(m))
            if ex.get(a0.i, 0) >= 1 and ex.get(b0.i, 0) >= 1:
                return (m - mono(a0) - mono(b0), repl)
            return None
        a0.rel = rel; _special[0] = True; _red.clear()
        _norms.append([a.i for a, b in vs])
    return [P(({mono(a): (1, 0, 0, 0)}, 1)) for a, b in vs]

# ---- evaluation in a z3 model, hints
def _zf(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_rational_value(v): return float(v.as_fraction())
    if z3.is_algebraic_value(v): return float(v.approx(15).as_fraction())
    return 0.0
def varval(v, m):
    if v.kind == "u":
        c, s = zvar(v); return complex(_zf(m, c), _zf(m, s))
    if v.kind == "c":
        c, s = zvar(v); return complex(_zf(m, c), _zf(m, s))
    if v.name == "@pi": return math.pi
    if v.angle is not None:
        t = _zf(m, zvar(v)[0])
        for x in ctx().__dict__.get("_angc", {}).get(v.i, ()):
            if abs(t - x) < 1e-9: return x
        z = varval(VARS[v.angle], m)
        if z == 0: z = 1
        return 2 * math.atan2(z.imag, z.real)
    return _zf(m, zvar(v)[0])
def evalp(p, m):
    def ep(n):
        t = 0
        for mo, c in n[0].items():
            x = cfloat(c)
            for i, e in exps(mo): x *= varval(VARS[i], m) ** e
            t += x
        return t / n[1]
    z = ep(p.n)
    if p.q is not None: z /= ep(p.q)
    z = complex(z)
    if abs(z.imag) < 1e-12: return z.real
    return {"re": z.real, "im": z.imag}

PYTH = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (20, 21, 29), (12, 35, 37), (9, 40, 41), (28, 45, 53), (11, 60, 61)]
AMPV = {2: [[3, 4], [4, -3]], 4: [[1, 2, 2, 4], [2, 4, -1, 2]], 8: [[1, 1, 1, 1, 1, 1, 1, 3], [3, 1, 1, -1, 1, 1, 1, 1]],
        16: [[1] * 16, [3] + [1] * 7 + [0] * 8]}
def hints(c):
    "rational points (on circles / spheres) at which z3 is asked for a model"
    for k in range(6):
        cs = []; j = k
        for v in VARS:
            if v.kind == "u" and v.base is None:
                p, q, h = PYTH[j % len(PYTH)]; j += 1
                if k == 4: p, q, h = 0, 1, 1
                if k == 5: p, q, h = (0, 1, 1) if j % 2 else (1, 0, 1)
                if k % 2: p, q = q, -p
                z = zvar(v); cs += [z[0] == z3.Q(p, h), z[1] == z3.Q(q, h)]
            elif v.kind == "g":
                cs += [zvar(v)[0] == (1 if (k >> (v.i % 2)) & 1 else -1)]
            elif v.kind == "r" and v.angle is None and v.name != "@pi":
                cs += [zvar(v)[0] == z3.Q([1, 2, -1, 3, 5, -2][(k + v.i) % 6], [1, 3, 2, 2, 3, 5][(k + 2 * v.i) % 6])]
        for g in _norms:
            n = len(g)
            base = AMPV.get(n)
            vals = base[k % 2] if base else [1] + [0] * (n - 1)
            if n == 16 and k % 2 == 0: pass
            h = math.isqrt(sum(x * x for x in vals))
            for t, i in enumerate(g):
                z = zvar(VARS[i])
                p, q, hh = PYTH[(t + k) % len(PYTH)]
                if k == 2: p, q, hh = 1, 0, 1
                cs += [z[0] == z3.Q(vals[t] * p, h * hh), z[1] == z3.Q(vals[t] * q, h * hh)]
        grouped = {i for g in _norms for i in g}
        for v in VARS:
            if v.kind == "c" and v.conj > v.i and v.i not in grouped:
                z = zvar(v); cs += [z[0] == z3.Q((v.i * 3 + k) % 7 - 3, 3), z[1] == z3.Q((v.i * 5 + k) % 5 - 2, 4)]
        yield cs

def show(p):
    def sp(n):
        return " + ".join(f"{c}*" + ".".join(f"{VARS[i].name}^{e}" for i, e in exps(m)) for m, c in list(n[0].items())[:6]) + (f"[{len(n[0])} terms]" if len(n[0]) > 6 else "") + f" /{n[1]}"
    return sp(p.n) + ("" if p.q is None else " // " + sp(p.q))

class UF:
    "uninterpreted real function: equal (canonical) arguments give equal values"
    def __init__(self, name): self.name = name; self.calls = []
    def __call__(self, x):
        from . import arr
        key = tuple(_ckey(e) for e in arr.raw(x).ravel())
        k = ("uf", self.name, key)
        if k not in _ufc:
            _ufc[k] = real(f"{self.name}#{len([1 for q in _ufc if q[0] == 'uf'])}")
        self.calls.append((key, _ufc[k]))
        return _ufc[k]
def _ckey(e):
    e = lift(e)
    return (frozenset(e.n[0].items()), e.n[1], None if e.q is None else (frozenset(e.q[0].items()), e.q[1]))

# ---- equality obligations
def _lin(n, cache):
    "polynomial as four linear forms (components in 1, zeta, zeta^2, zeta^3) over one z3 real per monomial"
    cs = [[], [], [], []]
    for m, c in n[0].items():
        v = cache.get(m)
        if v is None: v = cache[m] = z3.Real(f"mon{len(cache)}")
        for k in range(4):
            if c[k]: cs[k].append(z3.Q(c[k], n[1]) * v)
    return [z3.Sum(x) if x else z3.RealVal(0) for x in cs]

def check_eq(c, A, B, msg, **info):
    """A == B (scalars or arrays of exact numbers) for every value of the inputs.
    One z3 query: over the reals standing for the distinct monomials of the two exact
    normal forms, can any component of A - B be non-zero?"""
    from . import arr
    A, B = arr.raw(A), arr.raw(B)
    if A.shape != B.shape:
        return c.check(False, f"{msg}: shape {A.shape} instead of {B.shape}", **info)
    cache = {}; diffs = []; lit = T
    for a, b in zip(A.ravel(), B.ravel()):
        a, b = lift(a), lift(b)
        if a is None or b is None: return c.check(False, msg + " (not a number)", **info)
        na, nb = a.n, b.n
        if a.q is not None or b.q is not None:
            na, nb = pmul(a.n, b.q or ONE), pmul(b.n, a.q or ONE)
        if na == nb and not na[0]: continue
        for x, y in zip(_lin(na, cache), _lin(nb, cache)):
            if not x.eq(y): diffs.append(x != y)
            else: diffs.append(x != y)
    c.stats.checks += 1; c.reach.add(msg)
    if diffs:
        s = z3.Solver(); s.set("timeout", c.qtimeout)
        import time as _t
        t = _t.time(); s.add(z3.Or(diffs)); r = s.check()
        c.stats.queries += 1; c.stats.solver_s += _t.time() - t
        if r == z3.unsat: c.stats.unsat += 1; return
        c.stats.sat += 1
        # not identical as normal forms: look for real values of the inputs that separate them
        lit = core.andn([core.tolit(lift(a) == b) if lift(a) is not None else core.tolit(a == b) for a, b in zip(A.ravel(), B.ravel())])
        c.stats.checks -= 1
        c.check(mkbool(lit), msg, **info)

def check_close(c, A, B, eps, msg, bound=1, **info):
    """|A - B| <= eps for all values of the inputs, where every monomial is bounded by `bound` in modulus.
    Decided by z3 over the (relaxed) monomials; only if that fails on the inputs themselves."""
    from . import arr
    A, B = arr.raw(A), arr.raw(B)
    if A.shape != B.shape: return c.check(False, f"{msg}: shape {A.shape} instead of {B.shape}", **info)
    ds = []; cs = []; cache = {}
    for a, b in zip(A.ravel(), B.ravel()):
        d = lift(add(lift(a), lift(b), -1))
        if d is None or d.q is not None: return c.check(False, msg + " (not a polynomial)", **info)
        re, im = [], []
        for m, k in d.n[0].items():
            z = complex(cfloat(k)) / d.n[1]
            if m == 0: x, y = z3.RealVal(1), z3.RealVal(0)
            else:
                if m not in cache:
                    cache[m] = (z3.Real(f"mr{len(cache)}"), z3.Real(f"mi{len(cache)}"))
                    for t in cache[m]: cs += [t <= bound, t >= -bound]
                x, y = cache[m]
            p, q = z3.Q(Fraction(z.real).numerator, Fraction(z.real).denominator), z3.Q(Fraction(z.imag).numerator, Fraction(z.imag).denominator)
            re.append(p * x - q * y); im.append(p * y + q * x)
        e = z3.Q(Fraction(eps).limit_denominator(10**15).numerator, Fraction(eps).limit_denominator(10**15).denominator)
        for t in (re, im):
            if t: s = z3.Sum(t); ds += [s > e, s < -e]
    c.stats.checks += 1; c.reach.add(msg)
    if not ds: return
    import time as _t
    s = z3.Solver(); s.set("timeout", c.qtimeout); t = _t.time(); s.add(*cs); s.add(z3.Or(ds)); r = s.check()
    c.stats.queries += 1; c.stats.solver_s += _t.time() - t
    if r == z3.unsat: c.stats.unsat += 1; return
    c.stats.sat += 1
    lits = []
    for a, b in zip(A.ravel(), B.ravel()):
        d = lift(add(lift(a), lift(b), -1)); e = lift(eps)
        for part in (d.real, d.imag):
            part = lift(part)
            if part.is_zero(): continue
            lits += [core.tolit(part <= e), core.tolit(-e <= part)]
    c.stats.checks -= 1
    c.check(mkbool(core.andn(lits)), msg, **info)
