"""PennyLane stand-in: executes a qnode on a symbolic state vector.

Every `measure` introduces a sign sigma = (-1)^outcome (sigma^2 = 1), so one run
covers all outcome sequences at once."""
import numpy as np
from . import core, poly, arr
from .core import Unsupported

REC = None    # current run
class Run:
    def __init__(self, n):
        self.n = n
        self.active = []          # wires, most significant first
        self.state = [1]
        self.outcomes = []        # (wire, sigma)
        self.classical = {}       # measured wires -> sigma
        self.ops = []
        self.noise = []
    def need(self, w):
        if not (isinstance(w, (int, np.integer)) and 0 <= w < self.n): raise ValueError(f"wire {w} not on device")
        if w in self.active: return
        if w in self.classical:
            s = self.classical.pop(w)
            f = [half(1 + s), half(1 - s)]
        else: f = [1, 0]
        self.active.append(w)
        self.state = [arr._mul(a, b) for a in self.state for b in f]
    def tensor(self):
        k = len(self.active)
        t = np.empty(2 ** k, dtype=object)
        for i, a in enumerate(self.state): t[i] = a
        return t.reshape([2] * k) if k else t
    def apply(self, U, wires):
        for w in wires: self.need(w)
        k = len(wires)
        t = self.tensor()
        ax = [self.active.index(w) for w in wires]
        t = np.moveaxis(t, ax, range(k)).reshape(2 ** k, -1)
        r = arr.matmul(U, t)
        r = np.moveaxis(r.reshape([2] * len(self.active)), range(k), ax)
        self.state = list(r.ravel())
    def set_wires(self, order):
        t = self.tensor(); t = np.transpose(t, [self.active.index(w) for w in order]); self.active = list(order); self.state = list(t.ravel())

def half(x): return x * poly.P(({0: (1, 0, 0, 0)}, 2)) if isinstance(x, poly.P) else x / 2

class Op:
    def __init__(self, name, U, wires):
        self.name, self.U, self.wires = name, U, wires
        if REC is not None and not _HOLD[0]: self.queue()
    def queue(self, cond=None):
        REC.ops.append((self.name, tuple(self.wires), cond is not None))
        U = self.U
        if cond is not None:
            # (1+s)/2 I + (1-s)/2 U ; s is the sign polynomial of the condition
            n = len(U); a, b = half(1 + cond), half(1 - cond)
            U = np.array([[arr._add(a if i == j else 0, arr._mul(b, U[i][j])) for j in range(n)] for i in range(n)], dtype=object)
        REC.apply(U, self.wires)
_HOLD = [False]

def wl(w):
    if isinstance(w, (list, tuple, np.ndarray)): return [int(x) for x in w]
    return [int(w)]
R2 = 2 ** -0.5
def g1(name, U):
    def f(wires=None, **k): return Op(name, U, wl(wires))
    f.__name__ = name
    return f
def rot(name, mat):
    def f(phi, wires=None, **k): return Op(name, mat(phi), wl(wires))
    f.__name__ = name
    return f
def _c(x): return arr.mk(arr.wrap0(x)) if False else (x.cos() if isinstance(x, poly.P) else np.cos(x))
def _s(x): return x.sin() if isinstance(x, poly.P) else np.sin(x)
def _e(x): return poly.lift(x * 1j).exp() if isinstance(x, poly.P) else np.exp(1j * x)

class Meas:
    "measurement value with its sign polynomial sigma = (-1)^m"
    def __init__(self, s): self.s = s
    def _xor(self, o):
        return Meas(arr._mul(self.s, o.s if isinstance(o, Meas) else (1 - 2 * int(o))))
    __xor__ = __rxor__ = _xor
    def __add__(self, o): return Lin([(1, self)] , 0) + o
    __radd__ = __add__
    def __mod__(self, k): return self if k == 2 else NotImplemented
    def __invert__(self): return Meas(-self.s)
    def __eq__(self, o):
        if isinstance(o, Meas): return Meas(-arr._mul(self.s, o.s))
        return self if int(o) == 1 else Meas(-self.s)
    def __ne__(self, o): return ~(self == o)
    def __and__(self, o):
        # sign of the conjunction: 1 - 2 m1 m2
        m1, m2 = half(1 - self.s), half(1 - (o.s if isinstance(o, Meas) else 1 - 2 * int(o)))
        return Meas(1 - 2 * (m1 * m2))
    def __or__(self, o): return ~(~self & ~o)
    def __mul__(self, o): return self & o
    __hash__ = None
class Lin:
    def __init__(self, ts, c): self.ts, self.c = ts, c
    def __add__(self, o):
        if isinstance(o, Meas): return Lin(self.ts + [(1, o)], self.c)
        if isinstance(o, Lin): return Lin(self.ts + o.ts, self.c + o.c)
        return Lin(self.ts, self.c + o)
    __radd__ = __add__
    def __mod__(self, k):
        if k != 2: raise Unsupported("measurement arithmetic")
        s = 1 if self.c % 2 == 0 else -1
        for a, m in self.ts:
            if a % 2: s = arr._mul(s, m.s)
        return Meas(s)

class DM:
    def __init__(self, wires): self.wires = wl(wires)

class Noise:
    def __init__(self, name, args, kw, wires):
        if REC is not None: REC.noise.append((name, args, dict(kw), wl(wires)[0], len(REC.ops)))

SYM_OUTCOMES = True
class _QML:
    PauliX = staticmethod(g1("PauliX", [[0, 1], [1, 0]])); X = PauliX
    PauliY = staticmethod(g1("PauliY", [[0, -1j], [1j, 0]])); Y = PauliY
    PauliZ = staticmethod(g1("PauliZ", [[1, 0], [0, -1]])); Z = PauliZ
    Hadamard = staticmethod(g1("Hadamard", [[R2, R2], [R2, -R2]])); H = Hadamard
    S = staticmethod(g1("S", [[1, 0], [0, 1j]]))
    Identity = staticmethod(g1("Identity", [[1, 0], [0, 1]]))
    CZ = staticmethod(g1("CZ", [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, -1]]))
    CNOT = staticmethod(g1("CNOT", [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]]))
    SWAP = staticmethod(g1("SWAP", [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]]))
    RZ = staticmethod(rot("RZ", lambda p: [[_e(-p / 2), 0], [0, _e(p / 2)]]))
    RX = staticmethod(rot("RX", lambda p: [[_c(p / 2), -1j * _s(p / 2)], [-1j * _s(p / 2), _c(p / 2)]]))
    RY = staticmethod(rot("RY", lambda p: [[_c(p / 2), -_s(p / 2)], [_s(p / 2), _c(p / 2)]]))
    PhaseShift = staticmethod(rot("PhaseShift", lambda p: [[1, 0], [0, _e(p)]]))
    @staticmethod
    def QubitStateVector(state, wires=None, **k):
        ws = wl(wires)
        v = list(arr.raw(state).ravel())
        if len(v) != 2 ** len(ws): raise ValueError("State vector must have shape (2**wires,)")
        if REC.active: raise Unsupported("state preparation after gates")
        REC.active = ws; REC.state = v
        REC.ops.append(("StatePrep", tuple(ws), False))
    StatePrep = QubitStateVector
    @staticmethod
    def measure(w, **k):
        if k: raise Unsupported("qml.measure options")
        w = wl(w)[0]
        REC.need(w)
        s = poly.sign(f"m{w}") if f"m{w}" not in poly.BYNAME else poly.sign(f"m{w}_{len(REC.outcomes)}")
        t = REC.tensor(); ax = REC.active.index(w)
        t = np.moveaxis(t, ax, 0).reshape(2, -1)
        a, b = half(1 + s), half(1 - s)
        REC.state = [arr._add(arr._mul(a, x), arr._mul(b, y)) for x, y in zip(t[0], t[1])]
        REC.active.pop(ax)
        REC.classical[w] = s
        REC.outcomes.append((w, s))
        REC.ops.append(("measure", (w,), False))
        return Meas(s)
    @staticmethod
    def cond(m, op, false_fn=None, **k):
        def f(*a, **kw):
            _HOLD[0] = True
            try: o = op(*a, **kw); o2 = false_fn(*a, **kw) if false_fn else None
            finally: _HOLD[0] = False
            m2 = m
            if isinstance(m2, Lin): raise Unsupported("non-boolean condition")
            if isinstance(m2, (bool, int)):
                if m2: o.queue()
                elif o2: o2.queue()
                return
            o.queue(m2.s)
            if o2: o2.queue(-m2.s)
        return f
    @staticmethod
    def density_matrix(wires): return DM(wires)
    @staticmethod
    def device(name, wires=None, **k): return ("dev", name, wires if isinstance(wires, int) else len(wires))
    @staticmethod
    def qnode(dev, **k):
        def deco(f):
            def g(*a, **kw):
                global REC
                if core.CTX is None: raise Unsupported("qnode outside a symbolic run")
                old = REC; REC = Run(dev[2])
                try:
                    r = f(*a, **kw)
                    for w in range(dev[2]):
                        if w not in REC.active and w not in REC.classical: REC.need(w)
                    run = REC
                finally: REC = old
                if not isinstance(r, DM): raise Unsupported("qnode result")
                core.CTX.qml = run
                t = run.tensor()
                ws = r.wires
                for w in ws:
                    if w in run.classical:
                        REC = run; run.need(w); REC = old
                t = run.tensor()
                rest = [i for i, w in enumerate(run.active) if w not in ws]
                t = np.transpose(t, [run.active.index(w) for w in ws] + rest).reshape(2 ** len(ws), -1)
                rho = arr.matmul(t, arr.elementwise(arr._conj, t.T))
                run.unnormalised = rho
                return arr.mk(rho)
            g.device = dev; g.func = f
            return g
        return deco
    def __getattr__(self, n):
        if n in ("DepolarizingChannel", "AmplitudeDamping", "PhaseDamping", "PhaseFlip", "GeneralizedAmplitudeDamping", "BitFlip"):
            return lambda *a, wires=None, **k: Noise(n, a, k, wires)
        raise Unsupported(f"pennylane.{n}")
QML = _QML()
