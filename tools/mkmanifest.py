"""Write MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = {
 "C34": "The statement is about a probability distribution over all seeds; the code delegates the whole distribution to scipy's compiled Haar sampler, which draws from an opaque generator. There is no finite symbolic encoding of 'Haar distributed' that a solver query over the repository's code could decide.",
 "C35": "Statistical convergence of a histogram estimate (asymptotic in the number of samples, compiled scipy integration and integer binning of random fidelities): neither the limit nor the distribution is expressible as an assertion over bounded symbolic inputs.",
}
TECH = {}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]; f = os.path.join(H, "checks", i + ".py")
    if i in NA or not os.path.exists(f):
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")}); continue
    src = open(f).read()
    ns = {}
    for k in ("TECHNIQUE", "LEVEL_NOTE"):
        m = re.search(rf'^{k}\s*=\s*(.+)$', src, re.M)
        ns[k] = eval(m.group(1)) if m else None
    poly = re.search(r'^MODE\s*=\s*"poly"', src, re.M)
    tech = ns["TECHNIQUE"] or ("symbolic execution of the repository's Python source with exact symbolic complex arithmetic; z3 discharges each assertion over all values of a path" if poly else
        "symbolic execution of the repository's Python source over symbolic bits and graphs; z3 decides every branch and discharges each assertion over all values of a path")
    checks.append({"property": i, "quick_cmd": f"/opt/venv/bin/python run.py {i} quick", "thorough_cmd": f"/opt/venv/bin/python run.py {i} thorough",
                   "technique": tech, "level": "model_checking",
                   "level_note": ns["LEVEL_NOTE"] or "Bounded: decided for every value within the sizes stated in the evidence file; nothing is claimed beyond those sizes. Counterexamples are replayed on the unmodified code."})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0,'.'); from symx import core; print(core.z3.get_version_string())\"",
           "checks": checks, "not_applicable": na}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
