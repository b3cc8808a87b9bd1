#!/opt/venv/bin/python
"""Source of /verif/ref/rk_tables.json: reference tables (from the tree after review against order conditions and the literature)."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, "/repo")
import numpy as np
from qmat.qcoeff.butcher import RK_SCHEMES
from qmat.utils import getClasses
out = {}
for n, c in getClasses(RK_SCHEMES).items():
    g = c()
    A = g.A
    k = "ERK" if not np.triu(A).any() else ("DIRK" if not np.triu(A, 1).any() else "IRK")
    d = np.diag(A)
    out[n] = dict(c=g.c.tolist(), b=g.b.tolist(), A=A.tolist(), b2=None if g.b2 is None else g.b2.tolist(), order=g.order,
                  orderEmbedded=None if g.b2 is None else g.orderEmbedded, kind=k,
                  constdiag=bool(k == "DIRK" and np.ptp(d[d != 0]) < 1e-9),
                  aliases=sorted(a for a, x in RK_SCHEMES.items() if x is c and a != n))
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref", "rk_tables.json"), "w"), indent=0)
print(len(out))
