"""networkx stand-in: plain networkx except where an argument is a graph with symbolic
edges (each edge present under a literal).  Whatever has no symbolic treatment
materialises the graph, i.e. forks on its undecided edges."""
import itertools
import networkx as nx
import numpy as np
from . import core
from .core import T, F, SymBool, SymInt, mkbool

class AdjMat:
    "what adjacency_matrix returns: only converted to a dense array by its users"
    def __init__(self, a): self.a = a
    def todense(self): return self.a.copy()
    def toarray(self): return self.a.copy()
    @property
    def A(self): return self.a.copy()
    @property
    def shape(self): return self.a.shape
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return getattr(self.a, n)

def sym_class(base):
    "subclass of a graph class with symbolic edges"
    c = _classes.get(base)
    if c is not None: return c
    class SymGraph(base):
        _lits = None
        # every networkx method works on _adj: reading it makes the graph concrete
        @property
        def _adj(self):
            d = self.__dict__
            if d.get("_lits"): materialise(self)
            return d["_adj"]
        @_adj.setter
        def _adj(self, v):
            self.__dict__["_adj"] = v
            self.__dict__.pop("adj", None)
        def _row(self, v):
            "lits of edges at v"
            return self.__dict__.get("_lits") or {}
        def has_edge(self, u, v):
            L = self.__dict__.get("_lits")
            if L:
                l = L.get(frozenset((u, v)))
                if l is not None: return mkbool(l)
                return (u in self.__dict__["_adj"]) and v in self.__dict__["_adj"][u]
            return base.has_edge(self, u, v)
        def neighbors(self, v):
            L = self.__dict__.get("_lits")
            if L:
                for e in [e for e in L if v in e]: decide(self, e)
                a = self.__dict__["_adj"]
                if v not in a: raise nx.NetworkXError(f"The node {v} is not in the graph.")
                return iter(list(order_row(self, v)))
            return base.neighbors(self, v)
        def nodes_only(self): return list(self.__dict__["_node"])
        def __iter__(self): return iter(self.__dict__["_node"])
        def __contains__(self, n):
            try: return n in self.__dict__["_node"]
            except TypeError: return False
        def number_of_nodes(self): return len(self.__dict__["_node"])
        def copy(self, as_view=False):
            L = self.__dict__.get("_lits")
            if L and not as_view:
                g = self.__class__()
                g.graph.update(self.graph)
                g.add_nodes_from((n, dict(d)) for n, d in self.__dict__["_node"].items())
                g.__dict__["_lits"] = dict(L); g.__dict__["_eord"] = list(self.__dict__["_eord"])
                for u, a in self.__dict__["_adj"].items():
                    for v, d in a.items(): g.__dict__["_adj"][u][v] = dict(d)
                return g
            return base.copy(self, as_view)
        def add_nodes_from(self, nodes, **kw):
            nodes = list(nodes); L = self.__dict__.pop("_lits", None)
            try: base.add_nodes_from(self, nodes, **kw)
            finally:
                if L: self.__dict__["_lits"] = L
        def __sx_nx__(self, name, a, k):
            L = self.__dict__.get("_lits")
            if L:
                if name in ("adjacency_matrix", "to_numpy_array", "to_numpy_matrix") and a[0] is self and len(a) <= 2:
                    nl = list(a[1] if len(a) > 1 else (k.get("nodelist") if k.get("nodelist") is not None else self))
                    from . import arr
                    M = np.empty((len(nl), len(nl)), dtype=object); M[...] = 0
                    adj = self.__dict__["_adj"]
                    for i, u in enumerate(nl):
                        for j, v in enumerate(nl):
                            l = L.get(frozenset((u, v)))
                            if l is not None and u != v: M[i, j] = SymInt([l, F])
                            elif v in adj.get(u, {}): M[i, j] = 1
                    A = arr.mk(M, "f" if name == "to_numpy_array" and k.get("dtype") is None else "i")
                    return A if name != "adjacency_matrix" else AdjMat(A)
                if name == "neighbors": return self.neighbors(a[1])
                if name in ("connected_components", "number_connected_components", "is_connected") and not k: 
                    cs = components(self)
                    return iter(cs) if name == "connected_components" else len(cs) if name.startswith("number") else len(cs) == 1
                if name == "relabel_nodes" and not k:
                    mp = a[1]; mp = mp if isinstance(mp, dict) else {n: mp(n) for n in self}
                    g = self.__class__()
                    g.add_nodes_from((mp.get(n, n), dict(d)) for n, d in self.__dict__["_node"].items())
                    g.__dict__["_lits"] = {frozenset(mp.get(x, x) for x in e): l for e, l in L.items()}
                    g.__dict__["_eord"] = [tuple(mp.get(x, x) for x in e) for e in self.__dict__["_eord"]]
                    for u, r in self.__dict__["_adj"].items():
                        for v, d in r.items(): g.__dict__["_adj"][mp.get(u, u)][mp.get(v, v)] = dict(d)
                    return g
                materialise(self)
            return getattr(nx, name)(*a, **k)
        def __sx_conc__(self, m):
            L = self.__dict__.get("_lits") or {}
            out = []
            for e in self.__dict__.get("_eord", []):
                l = self.__dict__.get("_all", {}).get(frozenset(e))
                if l is not None and core.ev(m, l): out.append([core.conc(m, x) for x in e])
            return {"nodes": list(self.__dict__["_node"]), "edges": out}
    SymGraph.__name__ = base.__name__; SymGraph.__qualname__ = base.__qualname__
    _classes[base] = SymGraph
    return SymGraph
_classes = {}

def order_row(g, v):
    "neighbours of v in the order in which their edges were inserted"
    a = g.__dict__["_adj"][v]
    pos = {}
    for k, e in enumerate(g.__dict__.get("_eord", [])):
        if v in e: pos.setdefault(e[0] if e[1] == v else e[1], k)
    return sorted(a, key=lambda w: pos.get(w, 10 ** 6))
def decide(g, e):
    L = g.__dict__["_lits"]
    l = L[e]
    d = core.ctx().branch(l)
    del L[e]
    if d:
        u, v = tuple(e)
        dd = {}
        g.__dict__["_adj"][u][v] = dd; g.__dict__["_adj"][v][u] = dd
def materialise(g):
    L = g.__dict__["_lits"]
    for e in list(g.__dict__["_eord"]):
        f = frozenset(e)
        if f in L: decide(g, f)
    for f in list(L): decide(g, f)
    # rows in insertion order
    a = g.__dict__["_adj"]
    for v in list(a):
        row = {w: a[v][w] for w in order_row(g, v)}
        a[v].clear(); a[v].update(row)
    g.__dict__["_lits"] = None

def sym_graph(c, base, name, nodes, pairs=None):
    "a graph on `nodes` (in this insertion order) whose pairs are edges under fresh literals"
    cls = sym_class(base)
    g = cls()
    nodes = list(nodes)
    g.add_nodes_from(nodes)
    pairs = list(pairs if pairs is not None else itertools.combinations(nodes, 2))
    L = {}
    for u, v in pairs:
        b = c.bool(f"{name}({u},{v})")
        L[frozenset((u, v))] = core.tolit(b)
    g.__dict__["_eord"] = pairs; g.__dict__["_all"] = dict(L)
    g.__dict__["_lits"] = L
    if c.eager or not L: materialise(g)
    c.inp(name, Snap(g))
    return g
def components(g):
    "connected components; forks on the reachability of node pairs, not on single edges"
    N = list(g.__dict__["_node"]); adj = g.__dict__["_adj"]; L = g.__dict__["_lits"] or {}
    R = {}
    for u in N:
        for v in N: R[u, v] = core.T if u == v or v in adj.get(u, {}) else L.get(frozenset((u, v)), F)
    for w in N:
        for u in N:
            for v in N:
                if u != w and v != w: R[u, v] = core.orn([R[u, v], core.andn([R[u, w], R[w, v]])])
    seen = set(); out = []; c = core.ctx()
    for u in N:
        if u in seen: continue
        comp = {v for v in N if v == u or v not in seen and c.branch(R[u, v])}
        seen |= comp; out.append(comp)
    return out
def from_array(A, a, k):
    "graph of a symbolic adjacency matrix"
    from . import arr
    M = arr.raw(A); n = len(M)
    if len(a) > 1 or k: raise core.Unsupported("from_numpy_array with options")
    g = sym_class(nx.Graph)(); g.add_nodes_from(range(n))
    L = {}; pairs = []
    for i in range(n):
        for j in range(i, n):
            x = M[i, j] != 0; l = core.tolit(x) if core.is_sym(x) or hasattr(type(x), "__sx_truth__") else (core.T if x else F)
            if l == F: continue
            if l == core.T: g.add_edge(i, j)
            elif i == j: raise core.Unsupported("symbolic loop")
            else: L[frozenset((i, j))] = l; pairs.append((i, j))
    g.__dict__["_eord"] = pairs; g.__dict__["_all"] = dict(L); g.__dict__["_lits"] = L or None
    return g
class Snap:
    "input record of a symbolic graph (independent of later mutations)"
    def __init__(self, g): self.nodes = list(g.__dict__["_node"]); self.e = g.__dict__["_eord"]; self.all = dict(g.__dict__["_all"])
    def __sx_conc__(self, m):
        return {"nodes": [core.conc(m, x) for x in self.nodes], "edges": [list(e) for e in self.e if core.ev(m, self.all[frozenset(e)])]}
    def lit(self, u, v): return self.all.get(frozenset((u, v)), F)

class NX:
    def __getattr__(self, n):
        v = getattr(nx, n)
        if isinstance(v, type) or not callable(v): return v
        def f(*a, **k):
            if n in ("from_numpy_array", "from_numpy_matrix") and a and type(a[0]).__name__ == "SymArray": return from_array(a[0], a[1:], k)
            for x in a:
                m = getattr(type(x), "__sx_nx__", None)
                if m is not None: return m(x, n, a, k)
            return v(*a, **k)
        self.__dict__[n] = f
        return f
    def __dir__(self): return dir(nx)
NXX = NX()
