#!/opt/venv/bin/python
"""Source of /verif/ref/diag_tables.json: tabulated diagonal coefficients with their published spectral radius (reviewed against it)."""
import json, os, re, sys
sys.dont_write_bytecode = True
sys.path.insert(0, "/repo")
import qmat.qdelta.mincoeffs as t
src = open(t.__file__).read().split("MIN_VDHS")[0]
rhos = [float(m) for m in re.findall(r"rho = ([0-9.]+)", src)]
out, i = [], 0
for name, tab in (("MIN3", t.MIN3), ("MIN_VDHS", t.MIN_VDHS)):
    for nt, a in tab.items():
        for qt, b in a.items():
            for n, c in b.items():
                rho = None
                if name == "MIN3":
                    rho = rhos[i]; i += 1
                out.append(dict(name=name, nodeType=nt, quadType=qt, n=n, coeffs=[float(v) for v in c], rho=rho))
assert i == len(rhos)
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref", "diag_tables.json"), "w"), indent=0)
print(len(out))
