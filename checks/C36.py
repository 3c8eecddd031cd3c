"""Entanglement entropy of a region = GF(2) rank of the cut."""
import itertools
from checks import common as cm
MODE = "bits"; MERGE = True
BOUNDS = {"quick": "all graphs with up to 6 nodes (symbolic edges), regions of every size in several node orders", "thorough": "all graphs with up to 8 nodes"}
ASSUMPTIONS = ["default second region (the complement)", "galois' rank over GF(2) is modelled by an echelon-basis computation"]
BUDGET = {"quick": 150, "thorough": 800}
def configs(tier):
    out = []
    for n in range(1, (8 if tier == "thorough" else 6) + 1):
        for k in range(0, n + 1):
            regs = {tuple(range(k)), tuple(range(n - 1, n - 1 - k, -1)), tuple((2 * i) % n if n % 2 else i for i in range(k))}
            for R in sorted(regs):
                out.append({"name": f"n={n} region={list(R)}", "n": n, "R": list(R), "weight": n})
    return out
def run(c, cfg):
    from symx import core, nxx, load
    mp = load.load(); n, R = cfg["n"], cfg["R"]
    g = nxx.sym_graph(c, mp.GraphState, "g", range(n)); snap = c.inputs["g"]
    given = list(R)
    from mentpy.mbqc.states.graphstate import entanglement_entropy
    e = entanglement_entropy(g, given)
    c.check(given == R, "the region is not modified")
    A, B = (R, [v for v in range(n) if v not in R])
    if len(A) > len(B): A, B = B, A
    k = len(A)
    # kernel of the cut matrix: 2^(k - rank) combinations of rows vanish
    count = 0
    for S in itertools.product((0, 1), repeat=k):
        z = core.mk_and(*[core.mk_not(core.mk_xor(*[core.mkbool(snap.lit(A[i], w)) for i in range(k) if S[i]])) for w in B])
        count = count + (core.SymInt([core.tolit(z), core.F]) if isinstance(z, core.SymBool) else int(z))
    for r in range(k + 1):
        c.check(core.mk_implies(count == 2 ** (k - r), e == r), "entropy is the rank of the cut")
    c.check(core.mk_and(e >= 0, e <= k), "entropy is between 0 and the size of the smaller side")
def replay(inp, cfg):
    import mentpy as mp
    from mentpy.mbqc.states.graphstate import entanglement_entropy
    d = inp["g"]; g = mp.GraphState(); g.add_nodes_from(d["nodes"]); g.add_edges_from(map(tuple, d["edges"]))
    R = list(cfg["R"]); E = {frozenset(x) for x in d["edges"]}; B = [v for v in d["nodes"] if v not in R]
    want = cm.rank2([[frozenset((u, w)) in E for w in B] for u in R]) if R and B else 0
    got = entanglement_entropy(g, list(R))
    if got != want: return f"entropy {got} instead of {want} for edges {d['edges']} region {R}"
