"""Outcome expressions: value and dependencies."""
import itertools, operator, random
from checks import common as cm
MODE = "bits"; MERGE = True
BOUNDS = {"quick": "all expressions with up to two operators (17 operators, leaves: three outcomes and the constants 0, 1, 2, 3, True, False), plus 3000 expressions with three to five operators chosen by the seed; every assignment of the outcome bits",
          "thorough": "all expressions with up to two operators over more leaf patterns, all shapes with three operators over 8 operators, plus 30000 larger ones chosen by the seed; every assignment of the outcome bits"}
ASSUMPTIONS = ["constants are right operands", "assignments on which a subexpression divides by zero are only required to raise"]
BUDGET = {"quick": 200, "thorough": 800}
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod, "**": operator.pow,
       "==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "&": operator.and_, "|": operator.or_, "^": operator.xor}
# meaning on values
SEM = dict(OPS); SEM["&"] = lambda x, y: x and y; SEM["|"] = lambda x, y: x or y
CONST = [0, 1, 2, 3, True, False]
# expression: int k>=0 -> outcome of node k ; ["c", v] ; ["~", e] ; [op, e, f]
import functools
@functools.lru_cache(None)
def exprs(tier):
    T = tier == "thorough"
    L = [0, 1]; C = [["c", v] for v in CONST]
    out = [0, ["~", 0], ["~", ["~", 0]], ["c", 1], ["c", 0], ["c", True], ["c", False], ["~", ["c", 1]]]
    for o in OPS:
        for r in [0, 1] + C: out.append([o, 0, r]); out.append(["~", [o, 0, r]]); out.append([o, ["~", 0], r])
        out.append([o, 1, ["~", 0]]); out.append([o, ["c", 1], 0]); out.append([o, ["c", 0], 0])
    for o in OPS:
        for p in OPS:
            for l, m, r in [(0, 1, 2), (0, 1, 0)] + ([(0, 0, 1), (1, 0, 0)] if T else []):
                out.append([o, [p, l, m], r]); out.append([o, r, [p, l, m]])
            for cv in (CONST if T else [1, 3, False]):
                out.append([o, [p, 0, 1], ["c", cv]]); out.append([o, [p, 0, ["c", cv]], 1])
    if T:
        for o, p, q in itertools.product(["+", "-", "*", "==", "<", "&", "|", "^"], repeat=3):
            out.append([o, [p, 0, 1], [q, 1, 2]]); out.append([o, ["~", [p, 0, 1]], [q, 2, 0]])
    rnd = random.Random(int(__import__("os").environ.get("VERIF_SEED", "1")))
    safe = [o for o in OPS if o not in ("/", "//", "%", "**")]
    def gen(d, ops):
        if d == 0: return rnd.choice([0, 1, 2])
        k = rnd.random()
        if k < .15: return ["~", gen(d - 1, ops)]
        if k < .35: return [rnd.choice(ops), gen(d - 1, ops), ["c", rnd.choice(CONST)]]
        return [rnd.choice(ops), gen(d - 1, ops), gen(rnd.randrange(d), ops)]
    for i in range(30000 if T else 3000): out.append(gen(rnd.choice([3, 3, 4]), safe if i % 4 else list(OPS)))
    return out
def configs(tier):
    E = exprs(tier); k = 64
    ch = [E[i::k] for i in range(k)]
    return [{"name": f"part {i}", "h": "expr", "tier": tier, "part": i, "of": k} for i in range(k)] + [{"name": "circuit outcomes", "h": "circ"}]
def build(e, leaf, MO):
    if isinstance(e, int): return leaf(e)
    if e[0] == "c": return MO(e[1])
    if e[0] == "~": return ~build(e[1], leaf, MO)
    r = e[2]
    r = r[1] if isinstance(r, list) and r[0] == "c" else build(r, leaf, MO)
    return OPS[e[0]](build(e[1], leaf, MO), r)
def occurs(e):
    if isinstance(e, int): return {e}
    if e[0] == "c": return set()
    return set().union(*[occurs(x) for x in e[1:]])
def evalc(e, x):
    "reference value on concrete bits (bool, or None when undefined)"
    if isinstance(e, int): return bool(x[e])
    if e[0] == "c": return bool(e[1] % 2)
    if e[0] == "~":
        v = evalc(e[1], x); return None if v is None else not v
    a = evalc(e[1], x)
    b = e[2][1] if isinstance(e[2], list) and e[2][0] == "c" else evalc(e[2], x)
    if a is None: return None
    if b is None: return None
    try: return bool(SEM[e[0]](int(a), b if isinstance(e[2], list) and e[2][0] == "c" else int(b)) % 2)
    except ZeroDivisionError: return None
def table(e, nodes):
    return [evalc(e, dict(zip(nodes, bits))) for bits in itertools.product((0, 1), repeat=len(nodes))]
def _sel(lits, tab, val):
    "condition: the assignment of the bits is a row whose value is val"
    from symx import core
    rows = []
    for bits, v in zip(itertools.product((0, 1), repeat=len(lits)), tab):
        if v is val: rows.append(core.mk_and(*[l if b else core.mk_not(l) for l, b in zip(lits, bits)]))
    return core.mk_or(*rows) if rows else False
def run_expr(c, cfg):
    from symx import load, core
    mp = load.load()
    from mentpy.operators import MentOutcome
    E = exprs(cfg["tier"])[cfg["part"]::cfg["of"]]
    i = c.choose("expr", range(len(E))); e = E[i]
    c.inp("expr", e)
    ids = [3, 7, 11]
    def leaf(k):
        m = mp.Ment("X"); m.node_id = ids[k]; return m.outcome
    x = build(e, leaf, MentOutcome)
    bits = [c.bool(f"x{k}") for k in range(3)]
    c.inp("bits", bits)
    vals = {ids[k]: (core.SymInt([core.tolit(b), core.F]) if core.is_sym(b) else int(b)) for k, b in enumerate(bits)}
    tab = table(e, [0, 1, 2])
    c.check(set(x.cond_nodes) <= {ids[k] for k in occurs(e)}, "dependencies occur in the expression")
    for k in range(3):
        if ids[k] in x.cond_nodes: continue
        dep = any(a is not None and b is not None and a != b for a, b in ((tab[j], tab[j ^ (4 >> k)]) for j in range(8)))
        c.check(not dep, "every node whose outcome matters is a dependency")
    try: v = x(vals)
    except core.Engine: raise
    except Exception as ex:
        c.check(_sel(bits, tab, None), f"the expression is undefined on this assignment ({type(ex).__name__})"); return
    v = core.mkbool(core.tolit(v)) if isinstance(v, (bool, core.SymBool)) else (v != 0)
    c.check(core.mk_and(core.mk_or(core.mk_not(_sel(bits, tab, True)), v), core.mk_or(core.mk_not(_sel(bits, tab, False)), core.mk_not(v))), "value of the expression")
def replay_expr(inp, cfg):
    import mentpy as mp
    from mentpy.operators import MentOutcome
    e = inp["expr"]; ids = [3, 7, 11]
    def leaf(k):
        m = mp.Ment("X"); m.node_id = ids[k]; return m.outcome
    x = build(e, leaf, MentOutcome)
    if not set(x.cond_nodes) <= {ids[k] for k in occurs(e)}: return f"{e} reports dependencies {x.cond_nodes}"
    tab = table(e, [0, 1, 2])
    for k in range(3):
        if ids[k] not in x.cond_nodes and any(a is not None and b is not None and a != b for a, b in ((tab[j], tab[j ^ (4 >> k)]) for j in range(8))): return f"{e} depends on node {ids[k]} but reports {x.cond_nodes}"
    for bits in [tuple(int(b) for b in inp["bits"])] + list(itertools.product((0, 1), repeat=3)):
        want = evalc(e, dict(zip(range(3), bits)))
        try: got = x(dict(zip(ids, bits)))
        except Exception as ex:
            if want is not None: return f"{e} raised {ex!r} on {bits}"
            continue
        if want is not None and bool(got) != want: return f"{e} is {got} on {bits}"
def _circ(mp):
    g = mp.GraphState(); g.add_edges_from([(0, 1), (1, 2), (2, 3)])
    return mp.MBQCircuit(g, input_nodes=[0], output_nodes=[3], measurements={0: mp.Ment("XY"), 1: mp.Ment("X"), 2: mp.Ment(0.3, "XY"), 3: mp.Ment("Y")})
def run_circ(c, cfg):
    from symx import load, core
    mp = load.load()
    bits = [c.bool(f"x{k}") for k in range(4)]; c.inp("bits", bits)
    vals = {k: (core.SymInt([core.tolit(b), core.F]) if core.is_sym(b) else int(b)) for k, b in enumerate(bits)}
    mc = _circ(mp)
    for k in range(4):
        o = mc[k].outcome
        c.check(set(o.cond_nodes) == {k}, "outcome depends on its node")
        c.check(core.mk_iff(o(vals) != 0, bits[k]), "outcome reads its node")
        for j in range(4):
            e = (mc[k].outcome + mc[j].outcome) == 1
            c.check(set(e.cond_nodes) == {k, j}, "dependencies of a sum")
            c.check(core.mk_iff(e(vals) != 0, core.mk_xor(bits[k], bits[j])), "parity of two outcomes")
def replay_circ(inp, cfg):
    import mentpy as mp
    mc = _circ(mp); vals = {k: int(b) for k, b in enumerate(inp["bits"])}
    for k in range(4):
        o = mc[k].outcome
        if set(o.cond_nodes) != {k} or bool(o(vals)) != bool(vals[k]): return f"outcome of {k}"
        for j in range(4):
            e = (mc[k].outcome + mc[j].outcome) == 1
            if set(e.cond_nodes) != {k, j} or bool(e(vals)) != (vals[k] != vals[j]): return f"parity of {k},{j}"
