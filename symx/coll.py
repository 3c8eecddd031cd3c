"""Symbolic strings of fixed length (each character a union of constants)."""
from . import core
from .core import Sym, Pick, T, F, mkbool, mk_and, mk_not, merge, is_sym

class SymStr(Sym):
    __slots__ = ("ch",)
    def __init__(self, ch): self.ch = tuple(ch)
    @staticmethod
    def mk(ch):
        ch = tuple(ch)
        return "".join(ch) if all(isinstance(x, str) for x in ch) else SymStr(ch)
    @staticmethod
    def join(sep, parts):
        out = []
        for i, p in enumerate(parts):
            if i: out += list(sep)
            if isinstance(p, Pick): p = _ofpick(p)
            out += list(p.ch if isinstance(p, SymStr) else p)
        return SymStr.mk(out)
    def __sx_conc__(self, m): return "".join(str(core.conc(m, x)) for x in self.ch)
    def __sx_isinstance__(self, k): return k is str
    def __len__(self): return len(self.ch)
    def __sx_len__(self): return len(self.ch)
    def __sx_truth__(self): return T if self.ch else F
    def __bool__(self): return bool(self.ch)
    def __iter__(self): return iter(self.ch)
    def __getitem__(self, k):
        if isinstance(k, slice): return SymStr.mk(self.ch[k])
        return self.ch[k]
    def __add__(self, o):
        if isinstance(o, Pick): o = _ofpick(o)
        return SymStr.mk(self.ch + tuple(o.ch if isinstance(o, SymStr) else o))
    def __radd__(self, o): return SymStr.mk(tuple(o) + self.ch)
    def __eq__(self, o):
        if isinstance(o, Pick): o = _ofpick(o)
        if not isinstance(o, (str, SymStr)): return False
        if len(o) != len(self.ch): return False
        return mk_and(*[x == y for x, y in zip(self.ch, o.ch if isinstance(o, SymStr) else o)])
    def __ne__(self, o): return mk_not(self == o)
    def __hash__(self): return hash(self.resolve())
    def resolve(self): return "".join(x if isinstance(x, str) else x.resolve() for x in self.ch)
    def __str__(self): return self.resolve()
    def __repr__(self): return "SymStr"
    def _is(self, x, s):
        r = x == s if isinstance(x, str) else (x == s)
        return bool(r)
    def replace(self, a, b, n=-1):
        if len(a) != 1: return self.resolve().replace(a, b)
        out = []
        for x in self.ch:
            if self._is(x, a): out += list(b)
            else: out.append(x)
        return SymStr.mk(out)
    def split(self, sep=None, n=-1):
        if sep is None or len(sep) != 1: return self.resolve().split(sep)
        out, cur = [], []
        for x in self.ch:
            if self._is(x, sep): out.append(SymStr.mk(cur)); cur = []
            else: cur.append(x)
        out.append(SymStr.mk(cur))
        return out
    def strip(self, *a): return self.resolve().strip(*a)
    def count(self, s):
        r = 0
        for x in self.ch: r = r + (x == s)
        return r
    def __contains__(self, s): return bool(core.mk_or(*[x == s for x in self.ch])) if len(s) == 1 else s in self.resolve()
    def __sx_contains__(self, s):
        return core.mk_or(*[x == s for x in self.ch]) if isinstance(s, str) and len(s) == 1 else s in self.resolve()
    def __sx_merge__(self, c, o):
        if isinstance(o, Pick): o = _ofpick(o)
        if isinstance(o, (str, SymStr)) and len(o) == len(self.ch):
            return SymStr.mk([merge(c, x, y) for x, y in zip(self.ch, o.ch if isinstance(o, SymStr) else o)])
        return NotImplemented
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return getattr(self.resolve(), n)
def _ofpick(p):
    if all(isinstance(v, str) for _, v in p.alts) and len({len(v) for _, v in p.alts}) == 1:
        n = len(p.alts[0][1])
        return SymStr.mk([Pick.mk([(l, v[i]) for l, v in p.alts]) for i in range(n)])
    return p.resolve()
def merge_str(c, a, b):
    "two native strings of equal length"
    return SymStr.mk([x if x == y else Pick.mk([(c, x), (c ^ 1, y)]) for x, y in zip(a, b)])
