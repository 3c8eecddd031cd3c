"""Symbolic core: Boolean graph (AIG), path exploration, symbolic bool/int/union values.

The repository's Python code is executed natively; the values below stand in for
symbolic inputs.  Every control decision on a symbolic value goes through
`Ctx.branch` (path forking decided by z3) or is merged by the instrumentation
(see instr.py); every property is checked by `Ctx.check` with one z3 query over
all values of the current path.
"""
import sys, time, operator
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3
import numpy as _np

# ------------------------------------------------------------------ exceptions
class Engine(BaseException):
    "base of the engine's own exceptions (never caught by `except Exception`)"

class NeedFork(Engine):
    def __init__(self, site, why=""):
        super().__init__(f"{site}: {why}")
        self.site = site

class Unsupported(Engine):
    pass

class PathEnd(Engine):
    "path condition became infeasible / assumption violated"

class Timeout(Engine):
    pass

class Violation(Engine):
    def __init__(self, msg, inputs, info=None):
        super().__init__(msg)
        self.msg, self.inputs, self.info = msg, inputs, info or {}

class Inconclusive(Engine):
    pass

# ------------------------------------------------------------------ AIG
F, T = 0, 1
_nodes = [None]            # node 0 = constant
_strash = {}
_vars = {}

def _new(key):
    n = _strash.get(key)
    if n is None:
        n = len(_nodes)
        _nodes.append(key)
        _strash[key] = n
    return 2 * n

def var(name):
    return _new(("v", name))

def atom(z):
    "a literal standing for an arbitrary z3 Boolean term"
    if z3.is_true(z): return T
    if z3.is_false(z): return F
    key = ("p", z.get_id())
    if key not in _strash:
        n = len(_nodes)
        _nodes.append(("p", z))
        _strash[key] = n
    return 2 * _strash[key]

def neg(a):
    return a ^ 1

def and2(a, b):
    if a > b: a, b = b, a
    if a == F: return F
    if a == T: return b
    if a == b: return a
    if a ^ 1 == b: return F
    # one-level absorption
    nb = _nodes[b >> 1]
    if nb[0] == "a":
        l, r = nb[1], nb[2]
        if b & 1 == 0:
            if a == l or a == r: return b
            if a ^ 1 == l or a ^ 1 == r: return F
        else:
            if a ^ 1 == l or a ^ 1 == r: return a
            if a == l: return and2(a, r ^ 1)
            if a == r: return and2(a, l ^ 1)
    na = _nodes[a >> 1]
    if na[0] == "a":
        l, r = na[1], na[2]
        if a & 1 == 0:
            if b == l or b == r: return a
            if b ^ 1 == l or b ^ 1 == r: return F
        else:
            if b ^ 1 == l or b ^ 1 == r: return b
    return _new(("a", a, b))

def or2(a, b):
    return and2(a ^ 1, b ^ 1) ^ 1

def xor2(a, b):
    if a > b: a, b = b, a
    if a == F: return b
    if a == T: return b ^ 1
    if a == b: return F
    if a ^ 1 == b: return T
    s = (a & 1) ^ (b & 1)
    return _new(("x", a & ~1, b & ~1)) ^ s

def ite(c, t, e):
    if c == T: return t
    if c == F: return e
    if t == e: return t
    if c & 1: c, t, e = c ^ 1, e, t
    if t == T: return or2(c, e)
    if t == F: return and2(c ^ 1, e)
    if e == F: return and2(c, t)
    if e == T: return or2(c ^ 1, t)
    if t ^ 1 == e: return xor2(c, e)
    if t == c: return or2(c, e)
    if e == c: return and2(c, t)
    if t & 1:
        return _new(("i", c, t ^ 1, e ^ 1)) ^ 1
    return _new(("i", c, t, e))

def andn(ls):
    r = T
    for l in ls:
        r = and2(r, l)
        if r == F: break
    return r

def orn(ls):
    r = F
    for l in ls:
        r = or2(r, l)
        if r == T: break
    return r

_z3c = {}
def to_z3(lit):
    n = lit >> 1
    if n == 0:
        return z3.BoolVal(lit == T)
    stack = [n]
    while stack:
        k = stack[-1]
        if k in _z3c:
            stack.pop(); continue
        nd = _nodes[k]
        kind = nd[0]
        if kind == "v":
            _z3c[k] = z3.Bool(nd[1]); stack.pop(); continue
        if kind == "p":
            _z3c[k] = nd[1]; stack.pop(); continue
        todo = [l >> 1 for l in nd[1:] if (l >> 1) and (l >> 1) not in _z3c]
        if todo:
            stack.extend(todo); continue
        def g(l):
            if l >> 1 == 0: return z3.BoolVal(l == T)
            e = _z3c[l >> 1]
            return z3.Not(e) if l & 1 else e
        if kind == "a":
            _z3c[k] = z3.And(g(nd[1]), g(nd[2]))
        elif kind == "x":
            _z3c[k] = z3.Xor(g(nd[1]), g(nd[2]))
        else:
            _z3c[k] = z3.If(g(nd[1]), g(nd[2]), g(nd[3]))
        stack.pop()
    e = _z3c[n]
    return z3.Not(e) if lit & 1 else e

def reset_graph():
    del _nodes[1:]
    _strash.clear(); _z3c.clear()

# ------------------------------------------------------------------ context
CTX = None

def ctx():
    if CTX is None:
        raise Unsupported("no symbolic context")
    return CTX

class Stats:
    def __init__(self):
        self.paths = 0; self.queries = 0; self.solver_s = 0.0; self.checks = 0
        self.restarts = 0; self.branches = 0; self.sat = 0; self.unsat = 0
        self.unknown = 0; self.merges = 0; self.infeasible = 0
    def as_dict(self):
        return dict(self.__dict__)

class Ctx:
    def __init__(self, prefix, demoted, stats, deadline=None, qtimeout_ms=60000, mode="bits"):
        self.prefix = prefix
        self.trail = []            # decisions taken (bool)
        self.pending = []          # alternative prefixes found on this path
        self.demoted = demoted
        self.stats = stats
        self.deadline = deadline
        self.mode = mode
        self.guards = []           # list of (lit, site)
        self.glit = T
        self.known = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", qtimeout_ms)
        self.qtimeout = qtimeout_ms
        self.pc = []
        self.inputs = {}
        self.nfresh = 0
        self.opaque = {}
        self.reach = set()
        self.notes = []
        self.hints = []            # callables giving extra z3 constraints used to find models

    # -- symbolic inputs
    eager = False              # resolve every discrete input at once, by forking
    def bool(self, name):
        b = SymBool(var(name))
        return bool(b) if self.eager else b
    def int(self, name, lo, hi):
        n = max(abs(lo), abs(hi)).bit_length() + 1
        if lo >= 0:
            bits = [var(f"{name}.{i}") for i in range(max(1, hi.bit_length()))] + [F]
        else:
            bits = [var(f"{name}.{i}") for i in range(n)]
        x = SymInt(bits)
        self.assume(mk_and(x >= lo, x <= hi))
        return x.resolve() if self.eager else x
    def choose(self, name, options):
        "a symbolic choice among options, resolved by forking"
        options = list(options)
        lo, hi, i = 0, len(options), 0
        while hi - lo > 1:                      # binary search: one solver query per bit
            mid = (lo + hi) // 2
            if self.branch(tolit(SymBool(var(f"{name}?{lo}:{hi}")))): lo = mid
            else: hi = mid
        return options[lo]
    def pick(self, name, options):
        options = list(options)
        if len(options) == 1: return Pick([(T, options[0])])
        k = max(1, (len(options) - 1).bit_length())
        bits = [var(f"{name}?{i}") for i in range(k)]
        alts = []
        for j, o in enumerate(options):
            alts.append((andn([b if (j >> i) & 1 else b ^ 1 for i, b in enumerate(bits)]), o))
        self.assume(SymBool(orn([l for l, _ in alts])))
        return Pick(alts).resolve() if self.eager else Pick(alts)

    # -- path condition
    def _add(self, lit):
        if lit == T: return
        self.pc.append(lit)
        self.solver.add(to_z3(lit))
        self._learn(lit)
    def _learn(self, lit):
        st = [lit]
        while st:
            l = st.pop()
            if l in self.known: continue
            self.known[l] = True; self.known[l ^ 1] = False
            nd = _nodes[l >> 1]
            if nd is not None and nd[0] == "a" and l & 1 == 0:
                st.append(nd[1]); st.append(nd[2])
    def assume(self, c):
        lit = tolit(c)
        if lit == T: return
        if lit == F: raise PathEnd()
        self._add(lit)
    def _check(self, *lits):
        if self.deadline and time.time() > self.deadline:
            raise Timeout()
        t = time.time()
        self.solver.push()
        try:
            for l in lits: self.solver.add(l if not isinstance(l, int) else to_z3(l))
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.sat: self.stats.sat += 1
        elif r == z3.unsat: self.stats.unsat += 1
        else: self.stats.unknown += 1
        return r, m

    def value(self, lit):
        "constant value of a literal if syntactically known on this path, else None"
        if lit == T: return True
        if lit == F: return False
        k = self.known.get(lit)
        return k

    def branch(self, lit, site=None):
        v = self.value(lit)
        if v is not None: return v
        if self.guards:
            g = self.glit
            if and2(g, lit) == F: return False
            if and2(g, lit ^ 1) == F: return True
            r1, _ = self._check(g, lit)
            if r1 == z3.unsat: return False
            r2, _ = self._check(g, lit ^ 1)
            if r2 == z3.unsat: return True
            raise NeedFork(self.guards[-1][1], "branch under guard")
        k = len(self.trail)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.trail.append(d)
            self._add(lit if d else lit ^ 1)
            return d
        self.stats.branches += 1
        r1, _ = self._check(lit)
        if r1 == z3.unsat:
            self.trail.append(False); self._add(lit ^ 1); return False
        r2, _ = self._check(lit ^ 1)
        if r2 == z3.unsat:
            self.trail.append(True); self._add(lit); return True
        self.pending.append(self.trail + [False])
        self.trail.append(True); self._add(lit)
        return True

    def entailed(self, lit):
        "True/False if decided under pc and guards, None otherwise"
        v = self.value(lit)
        if v is not None: return v
        g = self.glit
        if and2(g, lit) == F: return False
        if and2(g, lit ^ 1) == F: return True
        if self._check(g, lit ^ 1)[0] == z3.unsat: return True
        if self._check(g, lit)[0] == z3.unsat: return False
        return None

    # -- guards (state merging)
    nomerge = False
    def push(self, lit, site, frame=None):
        new = []
        st = [lit]
        while st:                      # facts that hold under this guard
            l = st.pop()
            if l in self.known: continue
            self.known[l] = True; self.known[l ^ 1] = False; new.append(l)
            nd = _nodes[l >> 1]
            if nd is not None and nd[0] == "a" and l & 1 == 0:
                st.append(nd[1]); st.append(nd[2])
        self.guards.append((lit, site, self.glit, frame, new))
        self.glit = and2(self.glit, lit)
    def pop(self):
        lit, site, old, frame, new = self.guards.pop()
        for l in new: self.known.pop(l, None); self.known.pop(l ^ 1, None)
        self.glit = old

    # -- properties
    def check(self, cond, msg, **info):
        """assert cond for every value on this path"""
        self.stats.checks += 1
        lit = tolit(cond)
        self.reach.add(msg)
        if lit == T: return
        r = m = None
        for h in self.hints:                # cheap: rational sample points proposed to z3
            for extra in h(self):
                r, m = self._check(self.glit, lit ^ 1, *extra)
                if r == z3.sat: break
            if r == z3.sat: break
        if r != z3.sat:
            r, m = self._check(self.glit, lit ^ 1)
        if r == z3.unsat:
            if self.glit == T: self._learn(lit)
            return
        if r == z3.unknown:
            raise Inconclusive(f"solver returned unknown for: {msg}")
        raise Violation(msg, self.concretise(m), {k: self.conc(m, v) for k, v in info.items()})

    def fail(self, msg, **info):
        "an unconditional failure of this path"
        self.check(False, msg, **info)

    def inp(self, name, value):
        self.inputs[name] = value
        return value

    def model(self):
        for h in self.hints:
            for extra in h(self):
                r, m = self._check(self.glit, *extra)
                if r == z3.sat: return m
        r, m = self._check(self.glit)
        return m if r == z3.sat else None

    def concretise(self, m):
        return {k: self.conc(m, v) for k, v in self.inputs.items()}

    def conc(self, m, v):
        return conc(m, v)

def ev(m, lit):
    if lit == T: return True
    if lit == F: return False
    return z3.is_true(m.eval(to_z3(lit), model_completion=True))

def conc(m, v):
    if hasattr(v, "__sx_conc__"): return v.__sx_conc__(m)
    if isinstance(v, dict): return {_key(conc(m, k)): conc(m, x) for k, x in v.items()}
    if isinstance(v, (list, tuple)): return [conc(m, x) for x in v]
    if isinstance(v, (set, frozenset)): return sorted(conc(m, x) for x in v)
    if isinstance(v, _np.ndarray):
        return [conc(m, x) for x in v] if v.ndim else conc(m, v.item())
    if isinstance(v, (_np.integer,)): return int(v)
    if isinstance(v, (_np.floating,)): return float(v)
    if isinstance(v, (_np.bool_,)): return bool(v)
    if isinstance(v, complex): return {"re": v.real, "im": v.imag}
    if v is None or isinstance(v, (int, float, str, bool)): return v
    return repr(v)

def _key(k):
    return k if isinstance(k, (str, int, float, bool)) or k is None else str(k)

# ------------------------------------------------------------------ values
class Sym:
    __array_ufunc__ = None
    __slots__ = ()

def is_sym(x):
    return isinstance(x, Sym)

def tolit(c):
    if isinstance(c, SymBool): return c.l
    if isinstance(c, (bool, _np.bool_)): return T if c else F
    if isinstance(c, SymInt): return (c != 0).l if isinstance(c != 0, SymBool) else (T if c != 0 else F)
    if isinstance(c, Pick): return c.truth()
    if hasattr(c, "__sx_truth__"): return c.__sx_truth__()
    return T if c else F

def mkbool(l):
    if l == T: return True
    if l == F: return False
    if CTX is not None:
        v = CTX.known.get(l)
        if v is not None: return v
    return SymBool(l)

def mk_and(*cs): return mkbool(andn([tolit(c) for c in cs]))
def mk_or(*cs): return mkbool(orn([tolit(c) for c in cs]))
def mk_not(c): return mkbool(tolit(c) ^ 1)
def mk_iff(a, b): return mkbool(xor2(tolit(a), tolit(b)) ^ 1)
def mk_implies(a, b): return mkbool(or2(tolit(a) ^ 1, tolit(b)))
def mk_xor(*cs):
    r = F
    for c in cs: r = xor2(r, tolit(c))
    return mkbool(r)

def _arr(self, other, op, swap):
    from . import arr
    return arr.scalar_op(self, other, op, swap)

INTS = (int, _np.integer)

class SymBool(Sym):
    __slots__ = ("l",)
    def __init__(self, l): self.l = l
    def __bool__(self): return ctx().branch(self.l)
    def __index__(self): return int(bool(self))
    def __int__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __hash__(self): return hash(bool(self))
    def __repr__(self): return f"SymBool({self.l})"
    def __str__(self): return "?"
    def __sx_conc__(self, m): return ev(m, self.l)
    def asint(self): return SymInt([self.l, F])
    def _b(self, o):
        if isinstance(o, (bool, _np.bool_)): return T if o else F
        if isinstance(o, SymBool): return o.l
        if isinstance(o, INTS) and o in (0, 1): return int(o)
        return None
    def __and__(self, o):
        b = self._b(o)
        return mkbool(and2(self.l, b)) if b is not None else self.asint() & o
    __rand__ = __and__
    def __or__(self, o):
        b = self._b(o)
        return mkbool(or2(self.l, b)) if b is not None else self.asint() | o
    __ror__ = __or__
    def __xor__(self, o):
        b = self._b(o)
        return mkbool(xor2(self.l, b)) if b is not None else self.asint() ^ o
    __rxor__ = __xor__
    def __invert__(self): return ~self.asint()
    def __eq__(self, o):
        if isinstance(o, _np.ndarray): return _arr(self, o, operator.eq, False)
        b = self._b(o)
        if b is not None: return mkbool(xor2(self.l, b) ^ 1)
        if isinstance(o, (INTS, SymInt, float)): return self.asint() == o
        return NotImplemented
    def __ne__(self, o):
        r = self.__eq__(o)
        if isinstance(o, _np.ndarray): return _arr(self, o, operator.ne, False)
        return r if r is NotImplemented else mk_not(r)

class SymInt(Sym):
    """signed integer as little-endian two's complement literals (exact, width grows)"""
    __slots__ = ("b",)
    def __init__(self, bits):
        # trim redundant sign bits
        while len(bits) > 1 and bits[-1] == bits[-2]:
            bits = bits[:-1]
        self.b = bits
    @staticmethod
    def of(x):
        if isinstance(x, SymInt): return x
        if isinstance(x, SymBool): return SymInt([x.l, F])
        if isinstance(x, (bool, _np.bool_)): return SymInt([int(x), F])
        if isinstance(x, INTS):
            x = int(x); n = x.bit_length() + 1
            return SymInt([(x >> i) & 1 for i in range(n)])
        if isinstance(x, (float, _np.floating)) and float(x).is_integer():
            return SymInt.of(int(x))
        if isinstance(x, Pick):
            return x.to_symint()
        return None
    def const(self):
        v = 0
        for i, l in enumerate(self.b):
            if l == T:
                v |= 1 << i
            elif l != F:
                return None
        if self.b[-1] == T: v -= 1 << len(self.b)
        return v
    def ext(self, n):
        return self.b + [self.b[-1]] * (n - len(self.b))
    def __sx_conc__(self, m):
        v = sum((1 << i) for i, l in enumerate(self.b) if ev(m, l))
        if ev(m, self.b[-1]): v -= 1 << len(self.b)
        return v
    def __repr__(self): return f"SymInt({self.b})"
    def __str__(self): return "?"
    def __hash__(self): return hash(self.__index__())
    def resolve(self):
        v = 0
        c = ctx()
        n = len(self.b)
        # most significant first
        for i in range(n - 1, -1, -1):
            if c.branch(self.b[i]):
                v |= 1 << i
        if v >> (n - 1) & 1: v -= 1 << n
        return v
    def __index__(self): return self.resolve()
    def __int__(self): return self.resolve()
    def __float__(self): return float(self.resolve())
    def __bool__(self):
        return ctx().branch(orn(self.b))
    def _bin(self, o):
        return SymInt.of(o)

def _mkint(x):
    c = x.const()
    return x if c is None else c

def _add(x, y, cin=F):
    n = max(len(x.b), len(y.b)) + 1
    a, b = x.ext(n), y.ext(n)
    c = cin; out = []
    for i in range(n):
        s = xor2(a[i], b[i])
        out.append(xor2(s, c))
        c = or2(and2(a[i], b[i]), and2(s, c))
    return SymInt(out)
def _neg(x):
    return _add(SymInt([l ^ 1 for l in x.b]), SymInt.of(0), T)
def _sub(x, y):
    n = max(len(x.b), len(y.b)) + 1
    return _add(SymInt(x.ext(n)), SymInt([l ^ 1 for l in y.ext(n)]), T) if True else None
def _sub(x, y):
    n = max(len(x.b), len(y.b)) + 1
    a, b = x.ext(n), [l ^ 1 for l in y.ext(n)]
    c = T; out = []
    for i in range(n):
        s = xor2(a[i], b[i])
        out.append(xor2(s, c))
        c = or2(and2(a[i], b[i]), and2(s, c))
    return SymInt(out)
def _mul(x, y):
    # sign-extended shift and add; exact
    n = len(x.b) + len(y.b)
    a, b = x.ext(n), y.ext(n)
    acc = [F] * n
    for i in range(n):
        if b[i] == F: continue
        c = F
        for j in range(n - i):
            p = and2(a[j], b[i])
            s = xor2(acc[i + j], p)
            nc = or2(and2(acc[i + j], p), and2(s, c))
            acc[i + j] = xor2(s, c)
            c = nc
    return SymInt(acc)
def _lt(x, y):
    d = _sub(x, y)
    return d.b[-1]
def _eq(x, y):
    n = max(len(x.b), len(y.b))
    return andn([xor2(p, q) ^ 1 for p, q in zip(x.ext(n), y.ext(n))])

def _bitop(f):
    def g(x, y):
        n = max(len(x.b), len(y.b))
        return SymInt([f(p, q) for p, q in zip(x.ext(n), y.ext(n))])
    return g
def _mod(x, y):
    c = y.const()
    if c is not None and c > 0 and c & (c - 1) == 0:
        k = c.bit_length() - 1
        return SymInt(x.ext(max(k, len(x.b)))[:k] + [F])
    return _divmod(x, y)[1]
def _fdiv(x, y):
    c = y.const()
    if c is not None and c > 0 and c & (c - 1) == 0:
        k = c.bit_length() - 1
        return SymInt(x.b[k:] if k < len(x.b) else [x.b[-1]])
    return _divmod(x, y)[0]
def _values(x, limit=64):
    "explicit union of the values of a small SymInt"
    n = len(x.b)
    if n > 7: raise NeedFork_here("wide integer division")
    out = []
    for v in range(-(1 << (n - 1)), 1 << (n - 1)):
        u = v & ((1 << n) - 1)
        l = andn([b if (u >> i) & 1 else b ^ 1 for i, b in enumerate(x.b)])
        if l != F: out.append((l, v))
    return out
def _divmod(x, y):
    xs, ys = _values(x), _values(y)
    q, r = SymInt.of(0), SymInt.of(0)
    for ly, b in ys:
        if b == 0:
            if ctx().branch(ly): raise ZeroDivisionError("symbolic division by zero")
            continue
        for lx, a in xs:
            l = and2(lx, ly)
            if l == F: continue
            q = ite_int(l, SymInt.of(a // b), q); r = ite_int(l, SymInt.of(a % b), r)
    return q, r
def ite_int(c, x, y):
    n = max(len(x.b), len(y.b))
    return SymInt([ite(c, p, q) for p, q in zip(x.ext(n), y.ext(n))])

def NeedFork_here(why):
    c = ctx()
    if c.guards: return NeedFork(c.guards[-1][1], why)
    return Unsupported(why)

def _install_int():
    def arith(name, fn, pyop):
        def f(self, o):
            if isinstance(o, _np.ndarray): return _arr(self, o, pyop, False)
            if isinstance(o, (float, _np.floating)) and not float(o).is_integer():
                return pyop(self.resolve(), o)
            y = SymInt.of(o)
            if y is None: return NotImplemented
            return _mkint(fn(SymInt.of(self), y))
        def r(self, o):
            if isinstance(o, _np.ndarray): return _arr(self, o, pyop, True)
            if isinstance(o, (float, _np.floating)) and not float(o).is_integer():
                return pyop(o, self.resolve())
            y = SymInt.of(o)
            if y is None: return NotImplemented
            return _mkint(fn(y, SymInt.of(self)))
        return f, r
    for nm, fn, op in [("add", _add, operator.add), ("sub", _sub, operator.sub), ("mul", _mul, operator.mul),
                       ("mod", _mod, operator.mod), ("floordiv", _fdiv, operator.floordiv)]:
        f, r = arith(nm, fn, op)
        for cls in (SymInt, SymBool):
            setattr(cls, f"__{nm}__", f); setattr(cls, f"__r{nm}__", r)
    for nm, fn, op in [("and", _bitop(and2), operator.and_), ("or", _bitop(or2), operator.or_), ("xor", _bitop(xor2), operator.xor)]:
        f, r = arith(nm, fn, op)
        setattr(SymInt, f"__{nm}__", f); setattr(SymInt, f"__r{nm}__", r)
    def td(self, o):
        if isinstance(o, _np.ndarray): return _arr(self, o, operator.truediv, False)
        if isinstance(o, INTS) and int(o) == 1: return SymInt.of(self)
        y = SymInt.of(o)
        if y is not None:
            if y.const() is None and all(v in (0, 1) for _, v in _values(y)):
                if ctx().branch(_eq(y, SymInt.of(0))): raise ZeroDivisionError("division by zero")
                return SymInt.of(self)
        return operator.truediv(SymInt.of(self).resolve(), o.resolve() if isinstance(o, SymInt) else (int(o) if isinstance(o, SymBool) else o))
    def rtd(self, o):
        d = SymInt.of(self)
        if all(v in (0, 1) for _, v in _values(d)):
            if ctx().branch(_eq(d, SymInt.of(0))): raise ZeroDivisionError("division by zero")
            return o
        return operator.truediv(o, d.resolve())
    def pw(self, o):
        y = SymInt.of(o); x = SymInt.of(self)
        if y is None: return NotImplemented
        c = y.const()
        if c is not None and 0 <= c <= 8:
            r = SymInt.of(1)
            for _ in range(c): r = _mul(r, x)
            return _mkint(r)
        out = None
        for l, v in _values(y):
            p = pw(x, v) if v >= 0 else None
            if p is None:
                if ctx().branch(l): return float(x.resolve()) ** v
                continue
            p = SymInt.of(p)
            out = p if out is None else ite_int(l, p, out)
        return _mkint(out)
    def rpw(self, o):
        x = SymInt.of(o)
        return pw(x, self) if x is not None else NotImplemented
    for cls in (SymInt, SymBool):
        cls.__truediv__ = td; cls.__rtruediv__ = rtd; cls.__pow__ = pw; cls.__rpow__ = rpw
        cls.__neg__ = lambda self: _mkint(_neg(SymInt.of(self)))
        cls.__pos__ = lambda self: SymInt.of(self)
        cls.__abs__ = lambda self: _mkint(ite_int(SymInt.of(self).b[-1], _neg(SymInt.of(self)), SymInt.of(self)))
    SymInt.__invert__ = lambda self: _mkint(SymInt([l ^ 1 for l in self.b]))
    def cmp(fn, pyop):
        def f(self, o):
            if isinstance(o, _np.ndarray): return _arr(self, o, pyop, False)
            if isinstance(o, (float, _np.floating)) and not float(o).is_integer():
                import math
                # integer vs non-integer float
                if pyop in (operator.lt, operator.le): return self <= math.floor(o)
                if pyop in (operator.gt, operator.ge): return self >= math.ceil(o)
                return pyop is operator.ne
            y = SymInt.of(o)
            if y is None: return NotImplemented
            return mkbool(fn(SymInt.of(self), y))
        return f
    for nm, fn, op in [("lt", _lt, operator.lt), ("gt", lambda a, b: _lt(b, a), operator.gt),
                       ("le", lambda a, b: _lt(b, a) ^ 1, operator.le), ("ge", lambda a, b: _lt(a, b) ^ 1, operator.ge)]:
        for cls in (SymInt, SymBool): setattr(cls, f"__{nm}__", cmp(fn, op))
    SymInt.__eq__ = cmp(_eq, operator.eq)
    SymInt.__ne__ = cmp(lambda a, b: _eq(a, b) ^ 1, operator.ne)
_install_int()

_PRIM = (str, int, float, complex, bool, tuple, _np.generic, frozenset, type(None))
class Pick(Sym):
    """finite union of concrete (hashable) values under mutually exclusive literals"""
    __slots__ = ("alts",)
    def __init__(self, alts):
        self.alts = [(l, v) for l, v in alts if l != F]
    @staticmethod
    def mk(alts):
        d = []
        for l, v in alts:
            if l == F: continue
            for i, (m, w) in enumerate(d):
                if w is v or (type(w) is type(v) and isinstance(w, _PRIM) and w == v):
                    d[i] = (or2(m, l), w); break
            else:
                d.append((l, v))
        if len(d) == 1: return d[0][1]
        if not d: return Pick([])
        if all(isinstance(v, (bool, SymBool)) for _, v in d):
            return mkbool(orn([and2(l, tolit(v)) for l, v in d]))
        if all(isinstance(v, (bool, SymBool, SymInt) + INTS) for _, v in d) and any(is_sym(v) for _, v in d):
            out = SymInt.of(d[-1][1])
            for l, v in d[:-1]: out = ite_int(l, SymInt.of(v), out)
            return _mkint(out)
        return Pick(d)
    def to_symint(self):
        if not all(isinstance(v, INTS) for _, v in self.alts): return None
        out = SymInt.of(self.alts[-1][1])
        for l, v in self.alts[:-1]: out = ite_int(l, SymInt.of(v), out)
        return out
    def map(self, f):
        return Pick.mk([(l, f(v)) for l, v in self.alts])
    def resolve(self):
        c = ctx()
        for l, v in self.alts[:-1]:
            if c.branch(l): return v
        l, v = self.alts[-1]
        if c.value(l) is not True and not c.branch(l):
            raise PathEnd()
        return v
    def truth(self):
        return orn([and2(l, tolit(v)) for l, v in self.alts])
    def eqlit(self, o):
        return orn([l for l, v in self.alts if _same(v, o)])
    def __bool__(self): return ctx().branch(self.truth())
    def __hash__(self): return hash(self.resolve())
    def __index__(self): return operator.index(self.resolve())
    def __int__(self): return int(self.resolve())
    def __repr__(self): return f"Pick({self.alts})"
    def __str__(self): return "?"
    def __sx_conc__(self, m):
        for l, v in self.alts:
            if ev(m, l): return conc(m, v)
        return conc(m, self.alts[0][1]) if self.alts else None
    def __eq__(self, o):
        if isinstance(o, _np.ndarray): return _arr(self, o, operator.eq, False)
        if isinstance(o, Pick):
            return mkbool(orn([and2(l, m) for l, v in self.alts for m, w in o.alts if _same(v, w)]))
        if is_sym(o): return mkbool(orn([and2(l, tolit(v == o)) for l, v in self.alts]))
        return mkbool(self.eqlit(o))
    def __ne__(self, o):
        if isinstance(o, _np.ndarray): return _arr(self, o, operator.ne, False)
        return mk_not(self == o)
    def __getattr__(self, name):
        if name.startswith("__"): raise AttributeError(name)
        return getattr(self.resolve(), name)
    def __call__(self, *a, **k): return self.resolve()(*a, **k)
    def __iter__(self): return iter(self.resolve())
    def __len__(self): return len(self.resolve())
    def __getitem__(self, k): return self.resolve()[k]

def _same(v, w):
    r = v == w
    return bool(r) if not isinstance(r, _np.ndarray) else bool(r.all())

def _install_pick():
    def mk(op):
        def f(self, o):
            if isinstance(o, _np.ndarray): return _arr(self, o, op, False)
            if isinstance(o, Pick):
                return Pick.mk([(and2(l, m), op(v, w)) for l, v in self.alts for m, w in o.alts if and2(l, m) != F])
            return self.map(lambda v: op(v, o))
        def r(self, o):
            if isinstance(o, _np.ndarray): return _arr(self, o, op, True)
            return self.map(lambda v: op(o, v))
        return f, r
    for nm, op in [("add", operator.add), ("sub", operator.sub), ("mul", operator.mul), ("mod", operator.mod),
                   ("floordiv", operator.floordiv), ("truediv", operator.truediv), ("pow", operator.pow),
                   ("and", operator.and_), ("or", operator.or_), ("xor", operator.xor)]:
        f, r = mk(op)
        setattr(Pick, f"__{nm}__", f); setattr(Pick, f"__r{nm}__", r)
    for nm, op in [("lt", operator.lt), ("le", operator.le), ("gt", operator.gt), ("ge", operator.ge)]:
        setattr(Pick, f"__{nm}__", mk(op)[0])
    Pick.__neg__ = lambda self: self.map(operator.neg)
    padd, pradd = Pick.__add__, Pick.__radd__
    def sadd(self, o, rev=False):
        if isinstance(o, (str, Pick)) or type(o).__name__ == "SymStr":
            from .coll import SymStr, _ofpick
            if self.alts and all(isinstance(v, str) for _, v in self.alts):
                a = _ofpick(self)
                if isinstance(o, Pick): o = _ofpick(o)
                ca = a.ch if isinstance(a, SymStr) else (a,) if len(self.alts[0][1]) == 1 and is_sym(a) else tuple(a)
                co = o.ch if isinstance(o, SymStr) else (o,) if is_sym(o) else tuple(o)
                return SymStr.mk(co + ca if rev else ca + co)
        return pradd(self, o) if rev else padd(self, o)
    Pick.__add__ = sadd
    Pick.__radd__ = lambda self, o: sadd(self, o, True)
_install_pick()

# ------------------------------------------------------------------ merging
UNBOUND = type("Unbound", (), {"__repr__": lambda s: "<unbound>"})()

def _intlike(x): return isinstance(x, (bool, SymBool, SymInt, _np.bool_) + INTS)

def merge(c, a, b):
    "value equal to a where literal c holds and to b elsewhere"
    if c == T: return a
    if c == F: return b
    if a is b: return a
    if a is UNBOUND: return b
    if b is UNBOUND: return a
    boolt = (bool, _np.bool_, SymBool)
    if isinstance(a, boolt) and isinstance(b, boolt):
        return mkbool(ite(c, tolit(a), tolit(b)))
    if _intlike(a) and _intlike(b):
        if not is_sym(a) and not is_sym(b) and a == b: return a
        return _mkint(ite_int(c, SymInt.of(a), SymInt.of(b)))
    m = getattr(a, "__sx_merge__", None)
    if m is not None and not isinstance(a, Pick):
        r = m(c, b)
        if r is not NotImplemented: return r
    m = getattr(b, "__sx_merge__", None)
    if m is not None and not isinstance(b, Pick):
        r = m(c ^ 1, a)
        if r is not NotImplemented: return r
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(a) is type(b) is tuple:
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, _np.ndarray) and isinstance(b, _np.ndarray):
        from . import arr
        return arr.merge_arrays(c, a, b)
    if isinstance(a, str) and isinstance(b, str) and len(a) == len(b):
        if a == b: return a
        if len(a) > 1:
            from .coll import merge_str
            return merge_str(c, a, b)
    def alts(x):
        if isinstance(x, Pick): return x.alts
        if is_sym(x) and getattr(x, "__sx_kind__", None): return None
        return [(T, x)]
    A, B = alts(a), alts(b)
    if A is not None and B is not None:
        return Pick.mk([(and2(c, l), v) for l, v in A] + [(and2(c ^ 1, l), v) for l, v in B])
    raise NeedFork_here(f"cannot merge {type(a).__name__} with {type(b).__name__}")

def sx_eq(a, b):
    "structural equality as a literal-valued SymBool/bool (used by the checks)"
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        a, b = _np.asarray(a, dtype=object), _np.asarray(b, dtype=object)
        if a.shape != b.shape: return False
        return mk_and(*[sx_eq(x, y) for x, y in zip(a.ravel(), b.ravel())])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b): return False
        return mk_and(*[sx_eq(x, y) for x, y in zip(a, b)])
    r = a == b
    return False if r is NotImplemented else r
