"""Random datasets: pairing, splitting, noise on training targets only."""
import itertools, warnings, contextlib
import numpy as np
from checks import common as cm
MODE = "poly"
BOUNDS = {"quick": "1 and 2 qubits, 0 to 3 samples, every unitary (all matrices), every generated state, every test fraction in [0, 1] and the default, all bit-flip draws and all levels, Brownian noise with symbolic draws in the first step of every sample; splitting up to 4 items with every permutation, lists and arrays",
          "thorough": "up to 3 qubits noiseless, up to 6 samples, splitting up to 5 items, Brownian draws in each of 3 different steps"}
ASSUMPTIONS = ["the Haar generator is replaced by an arbitrary matrix (its distribution is C34)", "scipy's matrix exponential of a zero matrix is the identity; of any other matrix it is an arbitrary matrix", "draws of np.random.rand lie in [0, 1)", "exact real arithmetic for samples * fraction"]
BUDGET = {"quick": 240, "thorough": 850}
BAD = ["", "depolarizing", "Brownian", "bit-flip", "none", None]
def configs(tier):
    T = tier == "thorough"; out = []
    def add(h, **k): out.append({"name": " ".join([h] + [f"{a}={b}" for a, b in k.items()]), "h": h, "weight": (k.get("n") or 1) * 4 ** k.get("q", 1), **k})
    for q in ((1, 2, 3) if T else (1, 2)):
        for n in range((7 if q < 3 else 3) if T else 4):
            for ts in ("sym", None): add("clean", q=q, n=n, ts=ts)
    for n in range(6 if T else 5):
        for kind in ("list", "array", "mixed"):
            for r in (False, True, None): add("split", n=n, kind=kind, rand=r, ts="sym")
        add("split", n=n, kind="list", rand=True, ts=None)
    for q in (1, 2):
        for n in range((5 if q == 1 else 4) if T else (4 if q == 1 else 3)):
            add("bitflip", q=q, n=n, ts="sym"); add("bitflip", q=q, n=n, ts=None, lv="zero"); add("bitflip", q=q, n=n, ts=None, lv="one")
            add("brownian", q=q, n=n, ts="sym", lv="zero"); add("brownian", q=q, n=n, ts=None, lv=None)
            for st in ((0, 1, 5) if T else (0,)): add("brownian", q=q, n=n, ts="sym", step=st)
    for ty in ["brownian", "bitflip", "default"] + BAD: add("valid", type=ty)
    for q in (1, 2):
        for n in (1, 2, 3, None): add("states", q=q, n=n)
    return out
def _generic(inp):
    "the same sizes, draws and fraction with generic matrices (solver models are often degenerate)"
    g = np.random.RandomState(5)
    return {k: [[{"re": x, "im": y} for x, y in r] for r in g.uniform(-1, 1, (len(v), len(v), 2))] if k[0] in "US" else 0.5 if k == "l" and "r" not in inp else v for k, v in sorted(inp.items())}
class Env:
    "scripted randomness, shared by the symbolic run and the replay"
    def __init__(self, su=None, rand=None, normal=None, perm=None, expm=None, uniform=None): self.su, self.rand, self.normal, self.perm, self.expm, self.uniform = su, rand, normal, perm, expm, uniform
    def __enter__(self):
        import mentpy.utils.generate_data as gd, mentpy.operators.gates as gt
        import scipy.linalg
        self.old = []
        def put(o, n, f):
            if f is not None and hasattr(o, n): self.old.append((o, n, getattr(o, n))); setattr(o, n, f)
        put(gt, "random_su", self.su); put(gd, "random_su", self.su)
        for n in ("rand", "random", "random_sample"): put(np.random, n, self.rand)
        put(np.random, "uniform", self.uniform or (self.rand and (lambda low=0.0, high=1.0, size=None: low + (high - low) * self.rand(size=size) if (low, high) != (0.0, 1.0) else self.rand(size=size))))
        if self.normal:
            put(np.random, "standard_normal", lambda size=None: self.normal(size=size)); put(np.random, "randn", lambda *s: self.normal(size=s))
        if self.perm:
            def shuffle(x):
                y = [x[i] for i in self.perm(len(x))]
                for i, v in enumerate(y): x[i] = v
            put(np.random, "shuffle", shuffle)
        put(np.random, "normal", self.normal); put(np.random, "permutation", self.perm); put(scipy.linalg, "expm", self.expm)
        return gd
    def __exit__(self, *a):
        for o, n, v in reversed(self.old): setattr(o, n, v)
def _frac(c, cfg):
    from symx import poly, core
    if cfg.get("ts") is None: return {}
    t = poly.real("t"); c.assume(core.mk_and(t >= 0, t <= 1)); c.inp("t", t)
    return {"test_size": t}
def _mat(c, name, r, k=None):
    from symx import poly, arr
    k = k or r
    M = np.array(poly.amps(name, r * k, normalised=False), dtype=object).reshape(r, k); c.inp(name, [list(x) for x in M])
    return arr.mk(M, "c")
def _same(a, b): return len(a) == len(b) and all((x - y).is_zero() if hasattr(x - y, "is_zero") else x == y for x, y in zip(a, b))
def _flat(v):
    from symx import arr
    return [x for x in np.asarray(arr.raw(v), dtype=object).ravel()]
def _split_ok(c, n, kw, res):
    "sizes of the two parts; the requested size is the integer part of n * fraction"
    (xi, xt), (yi, yt) = res
    c.check(len(xi) == len(xt) and len(yi) == len(yt), "inputs and targets have the same number")
    c.check(len(xi) + len(yi) == n, "no sample lost or invented")
    k = len(yi)
    if kw:
        from symx import core
        t = kw["test_size"]; c.check(core.mk_and(t * n >= k, core.mk_not(t * n >= k + 1)), "the test part has the requested size")
    else: c.check(k == int(n * 0.3), "the test part has the default size")
def _match(c, got, gen):
    "indices of the generated states the returned inputs are"
    idx = []
    for v in got:
        j = next((j for j in range(len(gen)) if j not in idx and _same(_flat(v), _flat(gen[j]))), None)
        if j is None: c.fail("every returned input is a generated one, once")
        idx.append(j)
    return idx
def _su(c, gen):
    from symx import arr
    def f(q):
        m = _mat(c, f"S{len(gen)}", 2 ** int(q)); gen.append(arr.mk(np.array([arr.raw(m)[i][0] for i in range(2 ** int(q))], dtype=object), "c")); return m
    return f
def _mv(U, x): return [sum((U[i][j] * x[j] for j in range(len(x))), start=0) for i in range(len(x))]
def _mm(A, B): return [[sum((A[i][k] * B[k][j] for k in range(len(B))), start=0) for j in range(len(B))] for i in range(len(A))]
def _dag(A): return [[A[j][i].conjugate() for j in range(len(A))] for i in range(len(A))]
def run_clean(c, cfg):
    from symx import load, poly, arr
    load.load(); q, n = cfg["q"], cfg["n"]; gen = []
    U = _mat(c, "U", 2 ** q); kw = _frac(c, cfg)
    with Env(su=_su(c, gen)) as gd: res = gd.generate_random_dataset(U, n, **kw)
    _split_ok(c, n, kw, res)
    xs = list(res[0][0]) + list(res[1][0]); ts = list(res[0][1]) + list(res[1][1])
    idx = _match(c, xs, gen); c.check(len(set(idx)) == n, "every generated input occurs once")
    R = arr.raw(U)
    for j, t in zip(idx, ts): poly.check_eq(c, np.array(_flat(t), dtype=object), np.array(_mv(R, _flat(gen[j])), dtype=object), "the target is the unitary applied to its own input")
    poly.check_eq(c, np.array(_flat(U), dtype=object), np.array(list(R.ravel()), dtype=object), "the unitary is unchanged")
def _cm(v): return np.array([[cm.cx(x) for x in r] for r in v])
def _replay_env(inp, **k):
    gen = []
    def su(q):
        m = _cm(inp[f"S{len(gen)}"]); gen.append(m[:, 0].copy()); return m
    return gen, Env(su=su, **k)
def _parts(res, n, kw):
    (xi, xt), (yi, yt) = res
    if len(xi) != len(xt) or len(yi) != len(yt) or len(xi) + len(yi) != n: return f"{len(xi)}/{len(xt)} training and {len(yi)}/{len(yt)} test samples of {n}"
    t = kw.get("test_size", 0.3)
    if abs(n * t - round(n * t)) > 1e-9 and len(yi) != int(n * t): return f"{len(yi)} test samples of {n} for fraction {t}"
    if abs(n * t - round(n * t)) <= 1e-9 and abs(len(yi) - n * t) > 1 + 1e-9: return f"{len(yi)} test samples of {n} for fraction {t}"
def _kw(inp): return {"test_size": float(inp["t"])} if "t" in inp else {}
def replay_clean(inp, cfg): return _clean(inp, cfg) or _clean(_generic(inp), cfg)
def _clean(inp, cfg):
    import mentpy
    U = _cm(inp["U"]); gen, env = _replay_env(inp); kw = _kw(inp)
    with env as gd: res = gd.generate_random_dataset(U, cfg["n"], **kw)
    return _check_real(res, gen, [U] * len(gen), U, cfg["n"], kw)
def _check_real(res, gen, train, U, n, kw):
    m = _parts(res, n, kw)
    if m: return m
    used = []
    for part, (xs, ts) in enumerate(res):
        for x, t in zip(xs, ts):
            j = next((j for j in range(len(gen)) if j not in used and np.allclose(gen[j], np.ravel(x))), None)
            if j is None: return "a returned input is not one of the generated ones"
            used.append(j)
            w = (U if part else train[j]) @ gen[j]
            if np.shape(np.ravel(t)) != w.shape or not np.allclose(np.ravel(t), w, atol=1e-7): return f"the {'test' if part else 'training'} target of sample {j} is {np.ravel(t)} instead of {w}"
def run_split(c, cfg):
    from symx import load, poly, arr
    load.load(); n = cfg["n"]; kw = _frac(c, cfg); L = []
    def data(nm, kind):
        v = [poly.real(f"{nm}{i}") for i in range(n)]; c.inp(nm, v)
        return v, (list(v) if kind == "list" else arr.mk(np.array(v, dtype=object), "f"))
    xs, X = data("x", "array" if cfg["kind"] == "array" else "list"); ys, Y = data("y", "list" if cfg["kind"] == "list" else "array")
    def perm(k):
        k = len(k) if hasattr(k, "__len__") else int(k); L.append(k); p = []; rest = list(range(k))
        while rest: j = c.choose(f"p{len(p)}", rest); rest.remove(j); p.append(j)
        c.inp("perm", p); return np.array(p, dtype=int)
    if cfg["rand"] is not None: kw["randomize"] = cfg["rand"]
    with Env(perm=perm) as gd: res = gd.train_test_split(X, Y, **kw)
    _split_ok(c, n, {k: v for k, v in kw.items() if k == "test_size"}, res)
    gx = [v for p in res for v in _flat(p[0])]; gy = [v for p in res for v in _flat(p[1])]; used = []
    for a, b in zip(gx, gy):
        j = next((j for j in range(n) if j not in used and _same([a], [xs[j]])), None)
        c.check(j is not None, "every input occurs once"); used.append(j)
        c.check(_same([b], [ys[j]]), "inputs and targets stay aligned")
    if not cfg["rand"]: c.check(used == list(range(n)), "without randomisation the order is kept")
    elif L: c.check(used == c.inputs["perm"], "the drawn permutation is applied")
def replay_split(inp, cfg):
    import mentpy
    n = cfg["n"]; x = [10.0 + i for i in range(n)]; y = [100.0 + i for i in range(n)]
    X = np.array(x) if cfg["kind"] == "array" else list(x); Y = list(y) if cfg["kind"] == "list" else np.array(y)
    kw = _kw(inp); m0 = dict(kw)
    if cfg["rand"] is not None: kw["randomize"] = cfg["rand"]
    with Env(perm=lambda k: np.array(inp.get("perm") or range(n), dtype=int)) as gd: res = gd.train_test_split(X, Y, **kw)
    m = _parts(res, n, m0)
    if m: return m
    gx = [float(v) for p in res for v in p[0]]; gy = [float(v) for p in res for v in p[1]]
    if sorted(gx) != x: return f"inputs {gx} of {x}"
    if [v - 90 for v in gy] != gx: return f"inputs {gx} go with targets {gy}"
    if not cfg["rand"] and gx != x: return "the order is changed without randomisation"
    if cfg["rand"] and "perm" in inp and gx != [x[i] for i in inp["perm"]]: return "the drawn permutation is not applied"
def _level(c, cfg):
    from symx import poly, core
    lv = cfg.get("lv", "sym")
    if lv == "zero": return {"noise_level": 0.0}
    if lv == "one": return {"noise_level": 1}
    if lv is None: return {}
    l = poly.real("l"); c.assume(core.mk_and(l >= 0, l <= 1)); c.inp("l", l); return {"noise_level": l}
def _lkw(inp, cfg):
    lv = cfg.get("lv", "sym"); return {"noise_level": 0.0} if lv == "zero" else {"noise_level": 1} if lv == "one" else {} if lv is None else {"noise_level": float(inp["l"])}
def run_bitflip(c, cfg):
    from symx import load, poly, arr, core
    load.load(); q, n = cfg["q"], cfg["n"]; gen, draws = [], []
    U = _mat(c, "U", 2 ** q); kw = _frac(c, cfg); lk = _level(c, cfg); lv = lk.get("noise_level", 0.0)
    def one():
        r = poly.real(f"r{len(draws)}"); c.assume(core.mk_and(r >= 0, r < 1)); draws.append(r); c.inp("r", list(draws)); return r
    def rand(*s, size=None):
        s = s or (size if isinstance(size, tuple) else () if size is None else (size,))
        return one() if not s else arr.mk(np.array([one() for _ in range(int(np.prod(s)))], dtype=object).reshape(s), "f")
    with Env(su=_su(c, gen), rand=rand) as gd: res = gd.generate_random_dataset_noisy(U, n, noise_type="bitflip", **lk, **kw)
    _split_ok(c, n, kw, res); R = arr.raw(U); ntr = len(res[0][0])
    idx = _match(c, list(res[0][0]) + list(res[1][0]), gen); c.check(len(set(idx)) == n, "every generated input occurs once")
    for j, t in zip(idx[ntr:], res[1][1]): poly.check_eq(c, np.array(_flat(t), dtype=object), np.array(_mv(R, _flat(gen[j])), dtype=object), "test targets are noiseless")
    c.check(len(draws) in (0, ntr * q), "one draw per qubit and training sample")
    for s, (j, t) in enumerate(zip(idx[:ntr], res[0][1])):
        clean = _mv(R, _flat(gen[j])); t = _flat(t)
        b = next((b for b in itertools.product((0, 1), repeat=q) if _same(t, [clean[i ^ int("".join(map(str, b)), 2)] for i in range(2 ** q)])), None)
        if b is None: c.fail("training targets are the noiseless ones with bits flipped")
        for i in range(q):
            if draws: c.check(core.mk_iff(draws[s * q + i] < lv, bool(b[i])), "a bit flips exactly when its draw is below the level")
            if not b[i]: c.check(core.mk_not(lv >= 1), "level 1 flips every bit")
            else: c.check(core.mk_not(lv <= 0), "no noise at level 0")
def replay_bitflip(inp, cfg): return _bitflip(inp, cfg) or _bitflip(_generic(inp), cfg)
def _bitflip(inp, cfg):
    import mentpy
    q, n = cfg["q"], cfg["n"]; U = _cm(inp["U"]); r = [min(float(x), 1 - 1e-12) for x in inp.get("r", [])]; it = iter(r)
    def rand(*s, size=None):
        s = s or (size if isinstance(size, tuple) else () if size is None else (size,))
        return next(it) if not s else np.array([next(it) for _ in range(int(np.prod(s)))]).reshape(s)
    gen, env = _replay_env(inp, rand=rand); kw = _kw(inp); lk = _lkw(inp, cfg); lv = lk["noise_level"]
    try:
        with env as gd: res = gd.generate_random_dataset_noisy(U, n, noise_type="bitflip", **lk, **kw)
    except StopIteration: return "more draws than qubits and training samples"
    X = np.array([[0, 1], [1, 0]]); train = []
    m = _parts(res, n, kw)
    if m: return m
    for s in range(n):
        F = np.eye(1)
        for i in range(q): F = np.kron(F, X if r and s * q + i < len(r) and r[s * q + i] < lv or (not r and lv == 1) else np.eye(2))
        train.append(F @ U)
    return _check_real(res, gen, train, U, n, kw)
def run_brownian(c, cfg):
    from symx import load, poly, arr, core
    load.load(); q, n = cfg["q"], cfg["n"]; D = 2 ** q
    U = _mat(c, "U", D); kw = _frac(c, cfg); lk = _level(c, cfg); lv = lk.get("noise_level", 0.0); R = arr.raw(U)
    def go(sel):
        "sel(i): draw number i is symbolic; all other draws are 0"
        gen, nd, Ws = [], [0], []
        def normal(loc=0.0, scale=1.0, size=None):
            i = nd[0]; nd[0] += 1
            if not sel(i): return np.zeros(size)
            M = np.array([poly.real(f"g{i}_{k}") for k in range(int(np.prod(size)))], dtype=object).reshape(size); c.inp(f"g{i}", [list(x) for x in M]); return arr.mk(M, "f")
        def expm(A):
            B = np.asarray(arr.raw(A), dtype=object) if not isinstance(A, np.ndarray) or isinstance(A, arr.SymArray) else A
            if all(poly.lift(x).is_zero() for x in B.ravel()): return np.eye(D)
            poly.check_eq(c, np.array([B[i][j] + poly.lift(B[j][i]).conjugate() for i in range(D) for j in range(D)], dtype=object), np.array([0] * D * D, dtype=object), "the exponent is skew-Hermitian")
            W = _mat(c, f"W{len(Ws)}", D); Ws.append((nd[0], arr.raw(W))); return W
        with Env(su=_su(c, gen), normal=normal, expm=expm) as gd:
            res = gd.generate_random_dataset_noisy(U, n, **({} if n % 2 else {"noise_type": "brownian"}), **lk, **kw)
        return res, gen, nd[0], Ws
    if cfg.get("step") is None:
        res, gen, k, Ws = go(lambda i: not isinstance(lv, float) or i < 4)
        c.check(not Ws, "no noise at level 0"); per = None
    else:
        res, gen, k, Ws = go(lambda i: False); ntr = len(res[0][0])
        if ntr == 0: per = None
        else:
            per = k // ntr; c.check(k == per * ntr and per > 0, "every training sample has its own noise")
            c.inputs.pop("S0", None)
            res, gen, k, Ws = go(lambda i: i % per in (2 * cfg["step"], 2 * cfg["step"] + 1))
    _split_ok(c, n, kw, res); ntr = len(res[0][0])
    idx = _match(c, list(res[0][0]) + list(res[1][0]), gen); c.check(len(set(idx)) == n, "every generated input occurs once")
    for j, t in zip(idx[ntr:], res[1][1]): poly.check_eq(c, np.array(_flat(t), dtype=object), np.array(_mv(R, _flat(gen[j])), dtype=object), "test targets are noiseless")
    for s, (j, t) in enumerate(zip(idx[:ntr], res[0][1])):
        M = R
        for at, W in Ws:
            if per and (at - 1) // per == s: M = _mm(_mm(W, M), _dag(W))
        poly.check_eq(c, np.array(_flat(t), dtype=object), np.array(_mv(M, _flat(gen[j])), dtype=object), "training targets are conjugated by their own noise")
def replay_brownian(inp, cfg): return _brownian(inp, cfg) or _brownian(_generic(inp), cfg)
def _brownian(inp, cfg):
    import mentpy, scipy.linalg
    real = scipy.linalg.expm
    q, n = cfg["q"], cfg["n"]; U = _cm(inp["U"]); kw = _kw(inp); lk = _lkw(inp, cfg); D = 2 ** q
    def go(scr):
        nd, Ws = [0], []
        def normal(loc=0.0, scale=1.0, size=None):
            i = nd[0]; nd[0] += 1; return scr(i, size)
        def expm(A):
            W = real(np.asarray(A, dtype=complex)); Ws.append((nd[0], W)); return W
        gen, env = _replay_env({**{f"S{i}": [[1.0] * D] * D for i in range(n)}, **inp}, normal=normal, expm=expm)
        with env as gd: res = gd.generate_random_dataset_noisy(U, n, **({} if n % 2 else {"noise_type": "brownian"}), **lk, **kw)
        return res, gen, nd[0], Ws
    scr = lambda i, s: (np.array([[float(x) for x in r] for r in inp[f"g{i}"]]) + 0.1 * np.arange(D * D).reshape(D, D) if f"g{i}" in inp else np.zeros(s))
    if cfg.get("step") is None: scr = lambda i, s: np.arange(1.0, 1 + np.prod(s)).reshape(s)
    res, gen, k, Ws = go(scr); m = _parts(res, n, kw)
    if m: return m
    ntr = len(res[0][0]); per = k // ntr if ntr else 1; train = [U] * n
    for s in range(ntr):
        V = np.eye(D)
        for at, W in Ws:
            if not np.allclose(W @ W.conj().T, np.eye(D), atol=1e-6): return "the noise is not unitary"
            if per and (at - 1) // per == s: V = V @ W
        if cfg.get("step") is None and not np.allclose(V, np.eye(D)): return "noise at level 0"
        train[s] = V @ U @ V.conj().T
    return _check_real(res, gen, train, U, n, kw)
def run_valid(c, cfg):
    from symx import load, poly, arr, core
    load.load(); l = poly.real("l"); c.inp("l", l); ty = cfg["type"]
    kw = {} if ty == "default" else {"noise_type": ty}
    err = None
    with Env(su=lambda q: np.eye(2 ** q), normal=lambda *a, size=None, **k: np.zeros(size), rand=lambda *a, **k: 1.0) as gd:
        try: gd.generate_random_dataset_noisy(np.eye(2), 2, l, test_size=0, **kw)
        except ValueError as e: err = e
    ok = core.mk_and(l >= 0, l <= 1)
    if ty in BAD: c.check(err is not None, "unknown noise types are rejected")
    elif err is None: c.check(ok, "levels outside [0, 1] are rejected")
    else: c.check(core.mk_not(ok), "levels in [0, 1] are accepted")
def replay_valid(inp, cfg):
    import mentpy
    l, ty = float(inp["l"]), cfg["type"]; kw = {} if ty == "default" else {"noise_type": ty}; err = None
    with Env() as gd:
        try: gd.generate_random_dataset_noisy(np.eye(2), 2, l, test_size=0, **kw)
        except ValueError as e: err = e
    if (err is None) != (ty not in BAD and 0 <= l <= 1): return f"level {l} of {ty!r} is {'accepted' if err is None else 'rejected'}"
def run_states(c, cfg):
    from symx import load, poly, arr
    load.load(); gen = []; n = cfg["n"]
    with Env(su=_su(c, gen)) as gd: r = gd.generate_haar_random_states(cfg["q"], *([] if n is None else [n]))
    r = [r] if n in (1, None) else list(r)
    c.check(len(r) == (n or 1), "the requested number of states"); _match(c, r, gen)
def replay_states(inp, cfg):
    import mentpy
    gen, env = _replay_env(inp); n = cfg["n"]
    with env as gd: r = gd.generate_haar_random_states(cfg["q"], *([] if n is None else [n]))
    r = [r] if n in (1, None) else list(r)
    if len(r) != (n or 1): return f"{len(r)} states instead of {n}"
    for v in r:
        if sum(np.allclose(v, g) if np.shape(v) == np.shape(g) else False for g in gen) != 1: return "a state is not the first column of its own random unitary"
