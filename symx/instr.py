"""State merging: rewrites the repository's functions so that an `if` on a symbolic
condition executes both branches under guards and merges the results, instead of
splitting the path.  The rewriting is structural (early exits become flags) and
meaning-preserving for concrete conditions; wherever merging is impossible the site
raises NeedFork and the exploration restarts with that site forking."""
import ast, copy, sys, types, weakref
import numpy as np
import networkx as nx
from . import core
from .core import (T, F, UNBOUND, NeedFork, Sym, SymBool, Pick, and2, tolit, mkbool, merge, is_sym)

# ================================================================ AST part
MUT = {"append", "add", "remove", "pop", "extend", "update", "insert", "discard", "clear", "sort", "reverse", "popleft",
       "appendleft", "popitem", "setdefault", "difference_update", "intersection_update", "symmetric_difference_update",
       "add_edge", "add_edges_from", "add_node", "add_nodes_from", "remove_edge", "remove_edges_from", "remove_node", "remove_nodes_from", "fill"}
CASTS = {"int", "float", "complex", "bool"}
_uid = [0]
def uid():
    _uid[0] += 1
    return _uid[0]
def N(i, ctx=None): return ast.Name(i, ctx or ast.Load())
def K(v): return ast.Constant(v)
def call(f, *a): return ast.Call(N(f), list(a), [])
def lam(e): return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)

def walk_scope(n):
    "nodes of a statement that belong to the same function scope"
    st = [n]
    while st:
        x = st.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if isinstance(c, SCOPES): 
                yield c
                continue
            st.append(c)
def stored(stmts):
    out = []
    def add(n):
        if n not in out: out.append(n)
    for s in stmts:
        for x in ([s] if isinstance(s, SCOPES) else walk_scope(s)):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)): add(x.name)
            elif isinstance(x, ast.ExceptHandler) and x.name: add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names: add((a.asname or a.name).split(".")[0])
    return out
def has(stmts, kinds, loops=True):
    "contains a statement of these kinds in the same scope (break/continue only if they leave `stmts`)"
    def rec(s, inloop):
        if isinstance(s, SCOPES): return False
        if isinstance(s, kinds):
            if isinstance(s, (ast.Break, ast.Continue)) and inloop: return False
            return True
        il = inloop or isinstance(s, (ast.For, ast.While, ast.AsyncFor))
        return any(rec(c, il) for c in ast.iter_child_nodes(s))
    return any(rec(s, False) for s in stmts)
EXITS = (ast.Return, ast.Break, ast.Continue)
BAD = (ast.Yield, ast.YieldFrom, ast.Await, ast.Delete, ast.Global, ast.Nonlocal)

def terminates(block):
    if not block: return False
    s = block[-1]
    if isinstance(s, EXITS + (ast.Raise,)): return True
    if isinstance(s, ast.If): return terminates(s.body) and terminates(s.orelse)
    return False

def normalise(block):
    "push the code after an exiting if into its other branch"
    out = []
    for i, s in enumerate(block):
        if isinstance(s, ast.If):
            s.body = normalise(s.body); s.orelse = normalise(s.orelse)
            rest = block[i + 1:]
            if rest and has([s], EXITS):
                tb, te = terminates(s.body), terminates(s.orelse)
                if tb and te: out.append(s); return out
                if tb: s.orelse = normalise(s.orelse + rest); out.append(s); return out
                if te: s.body = normalise(s.body + rest); out.append(s); return out
        elif isinstance(s, (ast.For, ast.While)):
            s.body = normalise(s.body); s.orelse = normalise(s.orelse)
        elif isinstance(s, ast.With): s.body = normalise(s.body)
        elif isinstance(s, ast.Try):
            s.body = normalise(s.body); s.orelse = normalise(s.orelse); s.finalbody = normalise(s.finalbody)
            for h in s.handlers: h.body = normalise(h.body)
        out.append(s)
        if isinstance(s, EXITS + (ast.Raise,)): break
    return out

class Func:
    "rewriting of one function body"
    def __init__(self, fname, modname):
        self.fname, self.mod = fname, modname
        self.inits = []

    def site(self, n): return ast.Tuple([K(self.mod), K(getattr(n, "lineno", 0)), K(getattr(n, "col_offset", 0))], ast.Load())

    # tail-position exits -> flags.  returns True when all exits of `block` were removed
    def tail(self, block, on_return, on_break, on_continue):
        """can every exit in the block be replaced at tail position?"""
        for i, s in enumerate(block):
            last = i == len(block) - 1
            if isinstance(s, ast.Return):
                if not last or not on_return: return False
            elif isinstance(s, ast.Break):
                if not last or not on_break: return False
            elif isinstance(s, ast.Continue):
                if not last or not on_continue: return False
            elif isinstance(s, ast.If):
                if has([s], EXITS):
                    if not last: return False
                    if not (self.tail(s.body, on_return, on_break, on_continue) and self.tail(s.orelse, on_return, on_break, on_continue)): return False
            elif isinstance(s, SCOPES): pass
            elif isinstance(s, (ast.For, ast.While)):
                if has([s], (ast.Return,)): return False      # removed earlier when possible
            elif has([s], EXITS): return False
        return True
    def subst(self, block, ret, brk):
        out = []
        for s in block:
            if isinstance(s, ast.Return):
                v = s.value or K(None)
                out.append(ast.copy_location(ast.Assign([N(ret[1], ast.Store())], v), s))
                if ret[0]: out.append(ast.copy_location(ast.Assign([N(ret[0], ast.Store())], K(True)), s))
            elif isinstance(s, ast.Break):
                out.append(ast.copy_location(ast.Assign([N(brk, ast.Store())], K(True)), s))
            elif isinstance(s, ast.Continue):
                out.append(ast.copy_location(ast.Pass(), s))
            elif isinstance(s, ast.If):
                s.body = self.subst(s.body, ret, brk) or [ast.Pass()]; s.orelse = self.subst(s.orelse, ret, brk)
                out.append(s)
            else: out.append(s)
        return out

    def loops(self, block):
        """for-loops whose exits are at tail position: flags.  A return inside becomes
        (done, value) and the rest of the block runs only if not done."""
        out = []
        for i, s in enumerate(block):
            if isinstance(s, ast.If):
                s.body = self.loops(s.body); s.orelse = self.loops(s.orelse)
            elif isinstance(s, ast.While):
                s.body = self.loops(s.body)
            elif isinstance(s, (ast.With,)): s.body = self.loops(s.body)
            elif isinstance(s, ast.Try):
                s.body = self.loops(s.body)
                for h in s.handlers: h.body = self.loops(h.body)
            elif isinstance(s, ast.For):
                s.body = normalise(self.loops(s.body))
                ifs_exit = [x for x in s.body if isinstance(x, ast.If) and has([x], EXITS)]
                if ifs_exit and self.tail(s.body, True, True, True):
                    r = has(s.body, (ast.Return,)); b = has(s.body, (ast.Break,))
                    u = uid()
                    done, val, brk = f"_sx_d{u}", f"_sx_v{u}", f"_sx_k{u}"
                    s.body = self.subst(s.body, (done, val), brk)
                    if r or b:
                        flags = [N(x) for x, on in ((done, r), (brk, b)) if on]
                        t = call("__sx_nor__", *[copy.deepcopy(f) for f in flags])
                        # the loop variable keeps its value once a flag is set
                        it = f"_sx_x{u}"
                        asg = ast.copy_location(ast.Assign([s.target], N(it)), s); s.target = N(it, ast.Store())
                        g = ast.If(t, [asg] + s.body, []); ast.copy_location(g, s)
                        stop = ast.If(call("__sx_native__", *[copy.deepcopy(f) for f in flags]), [ast.Break()], [])
                        stop._plain = True; ast.copy_location(stop, s)
                        s.body = [g, stop]
                        for x, on in ((done, r), (brk, b)):
                            if on: out.append(ast.copy_location(ast.Assign([N(x, ast.Store())], K(False)), s))
                        if r: out.append(ast.copy_location(ast.Assign([N(val, ast.Store())], K(None)), s))
                        orelse = s.orelse; s.orelse = []
                        out.append(s)
                        if orelse:
                            g = ast.If(call("__sx_nor__", *[copy.deepcopy(f) for f in flags]), orelse, []); ast.copy_location(g, s); out.append(g)
                        if r:
                            rest = block[i + 1:]
                            ret = ast.copy_location(ast.Return(N(val)), s)
                            g = ast.If(N(done), [ret], rest); ast.copy_location(g, s)
                            out.append(g)
                            if rest:
                                g.orelse = self.loops(g.orelse)
                            return out
                        continue
            out.append(s)
        return out

    def body(self, stmts, isgen):
        stmts = normalise(stmts)
        if not isgen:
            stmts = self.loops(stmts)
            stmts = normalise(stmts)
            # function-level tail returns
            if stmts and isinstance(stmts[-1], ast.If) and has([stmts[-1]], (ast.Return,)) and self.tail([stmts[-1]], True, False, False):
                s = stmts[-1]
                u = uid(); val = f"_sx_r{u}"
                new = self.subst([s], (None, val), None)
                stmts = stmts[:-1] + [ast.copy_location(ast.Assign([N(val, ast.Store())], K(None)), s)] + new + [ast.copy_location(ast.Return(N(val)), s)]
        return [y for x in stmts for y in self.stmt(x)]

    def block(self, stmts): return [y for x in stmts for y in self.stmt(x)] or [ast.Pass()]

    def stmt(self, s):
        if isinstance(s, ast.If):
            if getattr(s, "_plain", False): return [s]
            test = Expr(self).visit(s.test)
            exits = has(s.body + s.orelse, EXITS + BAD)
            body = self.block(s.body); orelse = self.block(s.orelse) if s.orelse else []
            if exits:
                n = ast.If(test, body, orelse); return [ast.copy_location(n, s)]
            vs = stored(s.body + s.orelse)
            for v in vs:
                if v not in self.inits: self.inits.append(v)
            u = uid(); c = f"_sx_c{u}"
            tup = lambda ctx: ast.Tuple([N(v, ctx()) for v in vs], ctx())
            L = []
            L.append(ast.Assign([N(c, ast.Store())], call("__sx_if__", test, self.site(s), tup(ast.Load))))
            inner = []
            if vs: inner.append(ast.Assign([tup(ast.Store)], ast.Attribute(N(c), "start", ast.Load())))
            inner.append(ast.If(ast.Attribute(N(c), "side", ast.Load()), body, orelse))
            if vs: inner.append(ast.Assign([ast.Attribute(N(c), "vals", ast.Store())], tup(ast.Load)))
            L.append(ast.While(ast.Call(ast.Attribute(N(c), "next", ast.Load()), [], []), [ast.With([ast.withitem(N(c), None)], inner)], []))
            if vs: L.append(ast.Assign([tup(ast.Store)], ast.Attribute(N(c), "result", ast.Load())))
            for x in L: ast.copy_location(x, s)
            return L
        if isinstance(s, (ast.For,)):
            s.iter = Expr(self).visit(s.iter); s.body = self.block(s.body); s.orelse = self.block(s.orelse) if s.orelse else []
            return [s]
        if isinstance(s, ast.While):
            s.test = Expr(self).visit(s.test); s.body = self.block(s.body); s.orelse = self.block(s.orelse) if s.orelse else []
            return [s]
        if isinstance(s, ast.With):
            for it in s.items: it.context_expr = Expr(self).visit(it.context_expr)
            s.body = self.block(s.body); return [s]
        if isinstance(s, ast.Try):
            s.body = self.block(s.body); s.orelse = self.block(s.orelse) if s.orelse else []; s.finalbody = self.block(s.finalbody) if s.finalbody else []
            for h in s.handlers:
                if h.type is None: h.type = ast.copy_location(N("Exception"), h)
                elif isinstance(h.type, ast.Name) and h.type.id == "BaseException": h.type.id = "Exception"
                h.body = self.block(h.body)
            return [s]
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return [Top(self.mod).visit(s)]
        if isinstance(s, ast.Assign):
            s.value = Expr(self).visit(s.value)
            if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Subscript, ast.Attribute)):
                return [ast.copy_location(ast.Expr(self.store(s.targets[0], s.value)), s)]
            if any(isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store) for t in s.targets for x in ast.walk(t)):
                out = []; tmp = f"_sx_t{uid()}"
                out.append(ast.Assign([N(tmp, ast.Store())], s.value))
                for t in s.targets: out += self.unpack(t, N(tmp))
                for x in out: ast.copy_location(x, s)
                return out
            return [s]
        if isinstance(s, ast.AugAssign):
            v = Expr(self).visit(s.value)
            if isinstance(s.target, ast.Name):
                n = ast.Assign([s.target], call("__sx_iop__", N(s.target.id), v, K(type(s.op).__name__)))
                return [ast.copy_location(n, s)]
            u = uid()
            out = []
            o = f"_sx_t{u}"
            if isinstance(s.target, ast.Attribute):
                out.append(ast.Assign([N(o, ast.Store())], Expr(self).visit(s.target.value)))
                cur = ast.Attribute(N(o), s.target.attr, ast.Load())
                st = call("__sx_setattr__", N(o), K(s.target.attr), call("__sx_iop__", cur, v, K(type(s.op).__name__)))
            else:
                i = f"_sx_i{u}"
                out.append(ast.Assign([N(o, ast.Store())], Expr(self).visit(s.target.value)))
                out.append(ast.Assign([N(i, ast.Store())], self.index(s.target.slice)))
                cur = ast.Subscript(N(o), N(i), ast.Load())
                st = call("__sx_setitem__", N(o), N(i), call("__sx_iop__", cur, v, K(type(s.op).__name__)))
            out.append(ast.Expr(st))
            for x in out: ast.copy_location(x, s)
            return out
        if isinstance(s, ast.Delete):
            out = []
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    out.append(ast.copy_location(ast.Expr(call("__sx_delitem__", Expr(self).visit(t.value), self.index(t.slice))), s))
                else: out.append(ast.copy_location(ast.Delete([t]), s))
            return out
        return [Expr(self).visit(s)]
    def index(self, sl):
        if isinstance(sl, ast.Slice) or (isinstance(sl, ast.Tuple) and any(isinstance(e, ast.Slice) for e in sl.elts)):
            def cv(e):
                if isinstance(e, ast.Slice):
                    return call("slice", *[Expr(self).visit(x) if x is not None else K(None) for x in (e.lower, e.upper, e.step)])
                return Expr(self).visit(e)
            return ast.Tuple([cv(e) for e in sl.elts], ast.Load()) if isinstance(sl, ast.Tuple) else cv(sl)
        return Expr(self).visit(sl)
    def store(self, t, v):
        if isinstance(t, ast.Attribute): return call("__sx_setattr__", Expr(self).visit(t.value), K(t.attr), v)
        return call("__sx_setitem__", Expr(self).visit(t.value), self.index(t.slice), v)
    def unpack(self, t, v):
        if isinstance(t, ast.Name): return [ast.Assign([t], v)]
        if isinstance(t, (ast.Subscript, ast.Attribute)): return [ast.Expr(self.store(t, v))]
        if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in t.elts):
            names = [f"_sx_u{uid()}" for _ in t.elts]
            out = [ast.Assign([ast.Tuple([N(x, ast.Store()) for x in names], ast.Store())], v)]
            for e, x in zip(t.elts, names): out += self.unpack(e, N(x))
            return out
        return [ast.Assign([t], v)]

class Expr(ast.NodeTransformer):
    "expressions: connectives, membership, mutating calls, displays"
    def __init__(self, fn): self.fn = fn
    def _ok(self, n): return not any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(n))
    def visit_BoolOp(self, n):
        if not self._ok(n): self.generic_visit(n); return n
        st = self.fn.site(n)
        vals = [self.visit(v) for v in n.values]
        return ast.copy_location(call("__sx_and__" if isinstance(n.op, ast.And) else "__sx_or__", st, vals[0], *[lam(v) for v in vals[1:]]), n)
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not): return ast.copy_location(call("__sx_not__", n.operand), n)
        return n
    def visit_Compare(self, n):
        st = self.fn.site(n)
        self.generic_visit(n)
        def one(a, op, b):
            if isinstance(op, ast.In): return call("__sx_in__", a, b)
            if isinstance(op, ast.NotIn): return call("__sx_not__", call("__sx_in__", a, b))
            if isinstance(op, ast.Is): return call("__sx_is__", a, b)
            if isinstance(op, ast.IsNot): return call("__sx_not__", call("__sx_is__", a, b))
            return ast.Compare(a, [op], [b])
        if len(n.ops) == 1:
            return ast.copy_location(one(n.left, n.ops[0], n.comparators[0]), n)
        if all(isinstance(x, (ast.Name, ast.Constant)) for x in n.comparators[:-1]):
            parts = []; a = n.left
            for op, b in zip(n.ops, n.comparators):
                parts.append(one(a, op, b)); a = copy.deepcopy(b)
            return ast.copy_location(call("__sx_and__", st, parts[0], *[lam(p) for p in parts[1:]]), n)
        return n
    def visit_IfExp(self, n):
        if not self._ok(n): self.generic_visit(n); return n
        st = self.fn.site(n)
        self.generic_visit(n)
        return ast.copy_location(call("__sx_ifexp__", st, n.test, lam(n.body), lam(n.orelse)), n)
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Name):
            if f.id in CASTS and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
                n.func = ast.copy_location(N("__sx_" + f.id + "__"), f)
            elif f.id in ("list", "set", "dict"):
                return ast.copy_location(call("__sx_new__", n), n)
        elif isinstance(f, ast.Attribute):
            if f.attr in MUT:
                n.func = ast.copy_location(call("__sx_m__", f.value, K(f.attr)), f)
            elif f.attr == "join" and len(n.args) == 1:
                return ast.copy_location(call("__sx_join__", f.value, n.args[0]), n)
            elif f.attr == "copy": return ast.copy_location(call("__sx_new__", n), n)
        return n
    def _new(self, n):
        self.generic_visit(n)
        if isinstance(getattr(n, "ctx", None), (ast.Store, ast.Del)): return n
        return ast.copy_location(call("__sx_new__", n), n)
    visit_List = visit_Dict = visit_Set = visit_ListComp = visit_DictComp = visit_SetComp = _new
    def visit_Lambda(self, n):
        n.body = Expr(self.fn).visit(n.body)
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        return n
    def visit_FunctionDef(self, n): return Top(self.fn.mod).visit(n)

class Top(ast.NodeTransformer):
    def __init__(self, mod): self.mod = mod
    def visit_FunctionDef(self, n):
        isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for s in n.body for x in ([] if isinstance(s, SCOPES) else walk_scope(s)))
        fn = Func(n.name, self.mod)
        # nested functions using nonlocal/global on merged names: leave those to forking
        params = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs} | ({n.args.vararg.arg} if n.args.vararg else set()) | ({n.args.kwarg.arg} if n.args.kwarg else set())
        glob = {x for s in ast.walk(n) if isinstance(s, (ast.Global, ast.Nonlocal)) for x in s.names}
        doc = []
        b = n.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str): doc, b = [b[0]], b[1:]
        if glob:
            n.body = doc + [Expr(fn).visit(s) if not isinstance(s, SCOPES) else Top(self.mod).visit(s) for s in b]
            return n
        new = fn.body(b, isgen)
        ini = [v for v in fn.inits if v not in params]
        pre = [ast.copy_location(ast.Assign([N(v, ast.Store())], N("__sx_unbound__")), n) for v in ini]
        n.body = doc + pre + (new or [ast.Pass()])
        n.args.defaults = [Expr(fn).visit(d) for d in n.args.defaults]
        return n
    def visit_ClassDef(self, n):
        n.body = [self.visit(s) for s in n.body]
        return n

def transform(tree, name):
    from .load import Rewriter
    out = []
    for s in tree.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)): out.append(Top(name).visit(s))
        else: out.append(Rewriter().visit(s))
    tree.body = out
    return tree

# ================================================================ run-time part
NATIVE = (list, dict, set, nx.Graph)
class Frame:
    __slots__ = ("site", "journal", "post", "fresh")
    def __init__(self, site): self.site = site; self.journal = {}; self.post = {}; self.fresh = {}

def _state(x):
    if isinstance(x, nx.Graph):
        return (dict(x.graph), {k: dict(v) for k, v in x._node.items()}, {k: {j: dict(d) for j, d in v.items()} for k, v in x._adj.items()})
    return x.copy() if type(x) in (list, dict, set) else copy.copy(x)
def _restore(x, s):
    if isinstance(x, list): x[:] = s
    elif isinstance(x, set): x.clear(); x.update(s)
    elif isinstance(x, dict): x.clear(); x.update(s)
    else:
        x.clear(); x.graph.update(s[0])
        for k, v in s[1].items(): x.add_node(k, **v)
        for k, v in s[2].items():
            for j, d in v.items(): x.add_edge(k, j, **d)
def _merge_state(lit, a, b, site):
    if isinstance(a, list):
        if len(a) != len(b): raise NeedFork(site, "lists of different length")
        return [merge(lit, p, q) for p, q in zip(a, b)]
    if isinstance(a, dict):
        if list(a) != list(b): raise NeedFork(site, "dicts with different keys")
        return {k: merge(lit, a[k], b[k]) for k in a}
    if isinstance(a, set):
        if a != b: raise NeedFork(site, "different sets")
        return a
    if a != b: raise NeedFork(site, "different graphs")
    return a

def touch(x):
    "x (a native container) is about to be mutated"
    c = core.CTX
    if c is None or not c.guards: return
    if not isinstance(x, NATIVE): return
    k = id(x)
    for lit, site, old, fr, *_ in reversed(c.guards):
        if fr is None: raise NeedFork(site, "mutation under a guard without frame")
        if k in fr.fresh: return
        if k not in fr.journal: fr.journal[k] = (x, _state(x))

class If:
    __slots__ = ("c", "lit", "site", "start", "side", "vals", "result", "phase", "frame", "tv", "native")
    def __init__(self, test, site, start):
        self.start = self.vals = start
        self.phase = 0
        c = core.CTX
        if not is_sym(test) and not hasattr(type(test), "__sx_truth__"):
            self.native = True; self.side = bool(test); return
        if c is None: self.native = True; self.side = bool(test); return
        lit = tolit(test)
        v = c.value(lit)
        if v is None:
            g = c.glit
            if and2(g, lit) == F: v = False
            elif and2(g, lit ^ 1) == F: v = True
        if v is None and (site in c.demoted or c.nomerge): v = c.branch(lit)
        if v is None:
            v = c.entailed(lit)
        if v is not None:
            self.native = True; self.side = v; return
        self.native = False
        self.c, self.lit, self.site = c, lit, site
        self.frame = Frame(site)
    def next(self):
        p = self.phase
        if self.native:
            self.phase = 1
            if p: self.result = self.vals; return False
            return True
        if p == 0: self.side = True; self.phase = 1; return True
        if p == 1:
            self.tv = self.vals; self.vals = self.start; self.side = False; self.phase = 2
            return True
        # merge
        fv = self.vals; lit = self.lit; self.c.stats.merges += 1
        fr = self.frame
        try:
            for k, (x, pre, a, b) in self._states().items():
                _restore(x, _merge_state(lit, a, b, self.site))
            self.result = tuple(merge(lit, a, b) for a, b in zip(self.tv, fv))
        except NeedFork: raise
        except core.Unsupported as e: raise NeedFork(self.site, str(e))
        return False
    def _states(self):
        out = {}
        for k, (x, pre) in self.frame.journal.items():
            pt = self.frame.post.get(k)
            a = pt if pt is not None else pre
            out[k] = (x, pre, a, _state(x))
        return out
    def __enter__(self):
        if self.native: return
        l = self.lit if self.side else self.lit ^ 1
        self.c.push(l, self.site, self.frame)
    def __exit__(self, et, ev, tb):
        if self.native: return False
        fr = self.frame
        self.c.pop()
        if et is not None:
            if issubclass(et, Exception):
                raise NeedFork(self.site, f"exception {et.__name__}: {ev}") from ev
            return False
        # freshness is inherited by the enclosing frame
        if self.c.guards:
            up = self.c.guards[-1][3]
            if up is not None: up.fresh.update(fr.fresh)
        if self.side:
            for k, (x, pre) in fr.journal.items():
                fr.post[k] = _state(x); _restore(x, pre)
        return False

def sx_new(x):
    c = core.CTX
    if c is not None and c.guards:
        fr = c.guards[-1][3]
        if fr is not None and isinstance(x, NATIVE): fr.fresh[id(x)] = x
    return x
def sx_m(obj, name):
    if isinstance(obj, Pick): obj = obj.resolve()
    if isinstance(obj, NATIVE): touch(obj)
    elif core.CTX is not None and core.CTX.guards and not isinstance(obj, Sym) and type(obj).__module__ in ("builtins", "collections") and hasattr(obj, name):
        raise core.NeedFork(core.CTX.guards[-1][1], f"mutation of {type(obj).__name__} under a guard")
    elif isinstance(obj, np.ndarray) and core.CTX is not None and core.CTX.guards: raise core.NeedFork(core.CTX.guards[-1][1], "array method under a guard")
    return getattr(obj, name)
def sx_setitem(o, i, v):
    c = core.CTX
    if isinstance(o, Pick): o = o.resolve()
    if c is not None and c.guards:
        if isinstance(o, NATIVE): touch(o)
        elif isinstance(o, np.ndarray) and not hasattr(o, "_kind"): raise NeedFork(c.guards[-1][1], "native array write under a guard")
    if isinstance(o, (list,)) and is_sym(i): i = int(i)
    o[i] = v
def sx_delitem(o, i):
    if isinstance(o, Pick): o = o.resolve()
    if isinstance(o, NATIVE): touch(o)
    elif core.CTX is not None and core.CTX.guards: raise NeedFork(core.CTX.guards[-1][1], "del under a guard")
    del o[i]
def sx_setattr(o, name, v):
    c = core.CTX
    if isinstance(o, Pick): o = o.resolve()
    if c is not None and c.guards:
        d = getattr(o, "__dict__", None)
        if d is not None and name in d and not hasattr(getattr(type(o), name, None), "__set__"):
            fr = c.guards[-1][3]
            try: v = merge(c.glit, v, d[name])
            except core.Unsupported as e: raise NeedFork(c.guards[-1][1], str(e))
    setattr(o, name, v)
import operator
_IOP = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "Div": operator.itruediv, "FloorDiv": operator.ifloordiv, "Mod": operator.imod,
        "Pow": operator.ipow, "BitAnd": operator.iand, "BitOr": operator.ior, "BitXor": operator.ixor, "LShift": operator.ilshift, "RShift": operator.irshift, "MatMult": operator.imatmul}
def sx_iop(x, v, op):
    c = core.CTX
    if isinstance(x, NATIVE): touch(x)
    elif isinstance(x, np.ndarray) and c is not None and c.guards and not hasattr(x, "_kind"): raise NeedFork(c.guards[-1][1], "in-place array update under a guard")
    return _IOP[op](x, v)
def _symb(x): return is_sym(x) or hasattr(type(x), "__sx_truth__")
def sx_and(site, a, *rest):
    for f in rest:
        if not _symb(a):
            if not a: return a
            a = f(); continue
        c = core.CTX
        l = tolit(a)
        v = c.value(l)
        if v is None and (site in c.demoted or c.nomerge): v = c.branch(l)
        if v is None:
            if and2(c.glit, l) == F: v = False
            elif and2(c.glit, l ^ 1) == F: v = True
        if v is False: return False if isinstance(a, SymBool) else a
        if v is True: a = f(); continue
        b = guarded(l, site, f)
        if b is None: return False if isinstance(a, SymBool) else a
        a = core.mk_and(a, b[0]) if isinstance(a, SymBool) and isinstance(b[0], (bool, SymBool)) else merge(l, b[0], a)
    return a
def sx_or(site, a, *rest):
    for f in rest:
        if not _symb(a):
            if a: return a
            a = f(); continue
        c = core.CTX
        l = tolit(a)
        v = c.value(l)
        if v is None and (site in c.demoted or c.nomerge): v = c.branch(l)
        if v is None:
            if and2(c.glit, l) == F: v = False
            elif and2(c.glit, l ^ 1) == F: v = True
        if v is True: return True if isinstance(a, SymBool) else a
        if v is False: a = f(); continue
        b = guarded(l ^ 1, site, f)
        if b is None: return True if isinstance(a, SymBool) else a
        a = core.mk_or(a, b[0]) if isinstance(a, SymBool) and isinstance(b[0], (bool, SymBool)) else merge(l, a, b[0])
    return a
def guarded(l, site, f):
    "evaluate f under l; None when l is infeasible here"
    c = core.CTX
    c.push(l, site, None)
    try: return (f(),)
    except Exception as e:
        bad = e
    finally: c.pop()
    # an exception under the guard: only real if the guard is feasible
    if c._check(c.glit, l)[0] == core.z3.unsat: return None
    raise NeedFork(site, f"exception {type(bad).__name__}: {bad}") from bad
def sx_not(a): return core.mk_not(a) if _symb(a) else not a
def sx_ifexp(site, t, f, g):
    if not _symb(t): return f() if t else g()
    c = core.CTX; l = tolit(t)
    v = c.value(l)
    if v is None: v = c.branch(l) if (site in c.demoted or c.nomerge) else c.entailed(l)
    if v is not None: return f() if v else g()
    a = guarded(l, site, f); b = guarded(l ^ 1, site, g)
    if a is None: return b[0]
    if b is None: return a[0]
    try: return merge(l, a[0], b[0])
    except core.Unsupported as e: raise NeedFork(site, str(e))
def sx_in(x, y):
    if core.CTX is None: return x in y
    if isinstance(y, Pick): y = y.resolve()
    m = getattr(type(y), "__sx_contains__", None)
    if m: return m(y, x)
    if isinstance(y, (list, tuple)) and (is_sym(x) or any(_mayb(e) for e in y) or _mayb(x)):
        acc = []
        for e in y:
            if e is x: return True
            r = x == e if not isinstance(x, np.ndarray) else None
            if r is None or isinstance(r, np.ndarray): return x in y
            acc.append(r)
            if r is True: return True
        return core.mk_or(*acc)
    if isinstance(x, Pick) and isinstance(y, (set, frozenset, dict, str)) or isinstance(x, Pick) and isinstance(y, nx.Graph):
        return mkbool(core.orn([l for l, v in x.alts if v in y]))
    if isinstance(y, np.ndarray) and hasattr(y, "_kind"):
        return core.mk_or(*[e == x for e in y.view(np.ndarray).ravel()])
    m = getattr(type(y), "__contains__", None)
    if m is not None and type(y).__module__.startswith("mentpy"):
        return m(y, x)
    return x in y
def _mayb(e): return is_sym(e) or (isinstance(e, (list, tuple)) and any(_mayb(i) for i in e)) or type(e).__module__.startswith("mentpy")
def sx_is(a, b):
    if a is b: return True
    if isinstance(a, Pick): return mkbool(core.orn([l for l, v in a.alts if v is b]))
    if isinstance(b, Pick): return mkbool(core.orn([l for l, v in b.alts if v is a]))
    if isinstance(a, SymBool) and isinstance(b, bool): return a if b else core.mk_not(a)
    return False
def sx_nor(*f):
    return core.mk_not(core.mk_or(*f)) if any(is_sym(x) for x in f) else not any(f)
def sx_native(*f):
    "is one of the flags certainly set (stop the loop)"
    for x in f:
        if x is True: return True
        if is_sym(x):
            c = core.CTX
            l = tolit(x); v = c.value(l)
            if v is True or and2(c.glit, l ^ 1) == F: return True
    if len(f) > 1 and any(is_sym(x) for x in f):
        l = core.orn([tolit(x) for x in f])
        if l == T: return True
    return False
def sx_join(sep, it):
    if isinstance(sep, str):
        parts = list(it)
        if any(is_sym(p) for p in parts):
            from .coll import SymStr
            return SymStr.join(sep, parts)
        return sep.join(parts)
    return sep.join(it)

INJECT = {"__sx_if__": If, "__sx_unbound__": UNBOUND, "__sx_new__": sx_new, "__sx_m__": sx_m, "__sx_setitem__": sx_setitem, "__sx_delitem__": sx_delitem,
          "__sx_setattr__": sx_setattr, "__sx_iop__": sx_iop, "__sx_and__": sx_and, "__sx_or__": sx_or, "__sx_not__": sx_not, "__sx_ifexp__": sx_ifexp,
          "__sx_in__": sx_in, "__sx_is__": sx_is, "__sx_nor__": sx_nor, "__sx_native__": sx_native, "__sx_join__": sx_join}
