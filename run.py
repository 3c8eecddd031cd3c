#!/opt/venv/bin/python
"""run.py PROPERTY [quick|thorough]"""
import os, sys
os.environ.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0")
os.environ.setdefault("MPLCONFIGDIR", "/opt/mplconfig" if os.path.isdir("/opt/mplconfig") else "/tmp/mplconfig")
VPY = "/opt/venv/bin/python"
import resource
try: resource.setrlimit(resource.RLIMIT_STACK, (min(256 << 20, h) if (h := resource.getrlimit(resource.RLIMIT_STACK)[1]) != resource.RLIM_INFINITY else 256 << 20, h))
except (ValueError, OSError): pass
if os.path.realpath(sys.executable) != os.path.realpath(VPY) and os.path.exists(VPY) or sys.flags.hash_randomization and os.environ.get("SX_CHILD") != "1":
    os.environ["SX_CHILD"] = "1"
    os.execv(VPY, [VPY, "-W", "ignore"] + sys.argv)
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import warnings; warnings.simplefilter("ignore")
from symx import runner
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
sys.stdout.flush()
rc = runner.main(sys.argv[1], tier)
sys.stdout.flush()
os._exit(rc)
