"""Layers of trainable indices: positions in the angle list of every layer's trainable nodes."""
import itertools, warnings
from checks import common as cm
MODE = "bits"; MERGE = True
BOUNDS = {"quick": "circuits on all graphs with up to 4 nodes that have causal or generalised flow (all input/output choices at 3 nodes), several insertion orders; every node trainable, fixed or a Pauli (every combination at 3 nodes, two free nodes at 4), assigned at construction or afterwards; every ordered restriction of the trainable nodes (3 nodes)",
          "thorough": "every combination of measurement kinds on 4 nodes, all graphs with 5 nodes for one input/output choice per type with two free nodes"}
ASSUMPTIONS = ["outputs are unmeasured"]
BUDGET = {"quick": 200, "thorough": 850}
KINDS = ["XY", "fix", "X"]
def configs(tier):
    T = tier == "thorough"; out = []
    for n in (2, 3, 4) + ((5,) if T else ()):
        for I, O in (cm.io_all(n) if n < 4 else cm.io_types(n)):
            meas = [v for v in range(n) if v not in O]
            if not meas: continue
            free = meas if n < 4 or T and n < 5 else [meas[0], meas[-1]]
            for late in ((False, True) if n < 5 else (False,)):
                out.append({"name": f"n={n} I={I} O={O} late={late}", "n": n, "I": I[::-1], "O": O, "free": free, "late": late, "weight": n})
            if n < 5: out.append({"name": f"n={n} I={I} O={O} reversed insertion", "n": n, "I": I, "O": O, "free": free[-2:], "late": False, "order": list(range(n))[::-1], "weight": n})
            if n < 4: out.append({"name": f"n={n} I={I} O={O} restricted", "n": n, "I": I, "O": O, "free": [], "late": False, "subset": True, "weight": n})
    return out
def _build(mp, g, cfg, kinds):
    ms = {v: mp.Ment("XY") if k == "XY" else mp.Ment(0.3 + v, "XY") if k == "fix" else mp.Ment("X") for v, k in kinds.items()}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mc = mp.MBQCircuit(g, input_nodes=list(cfg["I"]), output_nodes=list(cfg["O"]), measurements=None if cfg["late"] else ms)
    if cfg["late"]:
        for v, m in ms.items(): mc[v] = m
    return mc
def _check(mc, cfg, kinds, subset):
    n, O = cfg["n"], cfg["O"]; meas = [v for v in range(n) if v not in O]
    if mc.gflow.func is None: return None if mc.ordered_layers() is None and mc.ordered_layers(train_indices=True) is None else "layers without flow"
    if subset is not None: mc.trainable_nodes = list(subset); T = list(subset)
    else: T = list(mc.trainable_nodes)
    if subset is None and sorted(T) != [v for v in meas if kinds.get(v, "XY") == "XY"]: return f"trainable nodes {T}"
    L = [list(l) for l in mc.ordered_layers()]; X = [list(l) for l in mc.ordered_layers(train_indices=True)]
    want = [sorted(T.index(v) for v in l if v in T) for l in L[:-1]]
    got = [sorted(l) for l in X]
    if got != want: return f"layers {L} with trainable nodes {T} give the indices {X}"
    if sorted(i for l in X for i in l) != list(range(len(T))): return f"indices {X} of {len(T)} trainable nodes"
    if [list(l) for l in mc.ordered_layers()] != L: return "the layers of nodes changed"
def _subsets(cfg):
    meas = [v for v in range(cfg["n"]) if v not in cfg["O"]]
    return [list(p) for k in range(len(meas) + 1) for p in itertools.permutations(meas, k)]
def run(c, cfg):
    from symx import nxx, load
    mp = load.load()
    kinds = {v: c.choose(f"kind{v}", KINDS) for v in cfg["free"]}
    c.inp("kinds", {str(v): k for v, k in kinds.items()})
    sub = c.choose("subset", _subsets(cfg)) if cfg.get("subset") else None; c.inp("subset", sub)
    g = nxx.sym_graph(c, mp.GraphState, "g", list(cfg.get("order") or range(cfg["n"])))
    mc = _build(mp, g, cfg, kinds)
    m = _check(mc, cfg, kinds, sub); c.check(m is None, str(m))
def replay(inp, cfg):
    import mentpy as mp
    kinds = {int(v): k for v, k in inp["kinds"].items()}
    return _check(_build(mp, cm.mk_graph(mp, inp["g"]), cfg, kinds), cfg, kinds, inp["subset"])
