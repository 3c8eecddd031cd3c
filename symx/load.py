"""Load the repository's package from its current source for symbolic execution."""
import sys, os, ast, importlib, importlib.abc, importlib.util, types, builtins, math, copy
REPO = os.environ.get("VERIF_REPO", "/repo")

class Rewriter(ast.NodeTransformer):
    """minimal, meaning-preserving preparation:
       * `except:` -> `except Exception:` (engine control flow is a BaseException)
       * calls of the casts int/float/complex/bool keep symbolic values"""
    CASTS = {"int", "float", "complex", "bool"}
    def __init__(self): self.shadowed = set()
    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None: n.type = ast.copy_location(ast.Name("Exception", ast.Load()), n)
        elif isinstance(n.type, ast.Name) and n.type.id == "BaseException": n.type.id = "Exception"
        return n
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in self.CASTS and not n.keywords and len(n.args) == 1 and not isinstance(n.args[0], ast.Starred):
            n.func = ast.copy_location(ast.Name("__sx_" + n.func.id + "__", ast.Load()), n.func)
        return n

class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, transform, inject, post):
        self.transform, self.inject, self.post = transform, inject, post
    def find_spec(self, name, path=None, target=None):
        if name != "mentpy" and not name.startswith("mentpy."): return None
        rel = name.replace(".", "/")
        for f, pkg in ((f"{REPO}/{rel}/__init__.py", True), (f"{REPO}/{rel}.py", False)):
            if os.path.exists(f):
                s = importlib.util.spec_from_file_location(name, f, loader=self, submodule_search_locations=[os.path.dirname(f)] if pkg else None)
                return s
        return None
    def create_module(self, spec): return None
    def exec_module(self, mod):
        path = mod.__spec__.origin
        with open(path) as fh: src = fh.read()
        tree = ast.parse(src, path)
        tree = self.transform(tree, mod.__name__)
        ast.fix_missing_locations(tree)
        mod.__dict__.update(self.inject)
        exec(compile(tree, path, "exec"), mod.__dict__)
        self.post(mod)

LOADED = None
def load(merge=False):
    "import mentpy with the shims in place; returns the package"
    global LOADED
    if LOADED is not None: return LOADED
    for k in list(sys.modules):
        if k == "mentpy" or k.startswith("mentpy."): del sys.modules[k]
    from . import shims, core
    import numpy, networkx, galois
    try: import pennylane
    except ImportError: pennylane = None
    from . import qmlx, nxx
    inject = dict(shims.SHADOW)
    inject.update({"__sx_" + k + "__": v for k, v in shims.CASTS.items()})
    inject["__sx_bool__"] = lambda x=False: shims._BoolMeta.__call__(None, x)
    if merge:
        from . import instr
        transform = instr.transform
        inject.update(instr.INJECT)
    else:
        def transform(tree, name): return Rewriter().visit(tree)
    gfcls = galois.GF(2)
    def post(mod):
        d = mod.__dict__
        for k, v in list(d.items()):
            if v is numpy: d[k] = shims.NPX
            elif v is math: d[k] = shims.MATHX
            elif v is galois: d[k] = shims.GaloisX()
            elif v is gfcls: d[k] = shims.GFXI
            elif v is networkx: d[k] = nxx.NXX
            elif pennylane is not None and v is pennylane: d[k] = qmlx.QML
    f = Finder(transform, inject, post)
    sys.meta_path.insert(0, f)
    LOADED = importlib.import_module("mentpy")
    return LOADED

# ---- which functions of the repository were executed
_seen = set()
def start_coverage():
    mon = sys.monitoring
    tid = 3
    try: mon.use_tool_id(tid, "verif")
    except ValueError: return
    pre = REPO + "/mentpy/"
    def cb(code, off):
        fn = code.co_filename
        if fn.startswith(pre):
            _seen.add(fn[len(pre):-3].replace("/", ".") + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, cb)
    mon.set_events(tid, mon.events.PY_START)
def covered(): return sorted(x for x in _seen if "<module>" not in x and "<lambda>" not in x and "<genexpr>" not in x)
