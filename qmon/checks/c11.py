"""C11: Runge-Kutta tables."""
import json, os
import numpy as np
from qmon import core, trees

RULE = ("One case = one Runge-Kutta scheme under one of its names; non-trivial = every coefficient compared with the reference table, and every rooted-tree "
        "condition up to the declared order evaluated in extended precision.")
REQUIRED = {"published": 200, "row-sums": 50, "tree-conditions": 300, "embedded-conditions": 50, "structure": 50}
ASSUMPTIONS = ["the reference tables in /verif/ref/rk_tables.json were reviewed against their order conditions (one table was corrected in the code first)"]
with open(os.path.join(core.VERIF, "ref", "rk_tables.json")) as f:
    REF = json.load(f)


def cases(tier, seed):
    for name, r in REF.items():
        for alias in [name] + r["aliases"]:
            yield dict(kind="scheme", name=name, alias=alias)


def conditions(mon, oracle, name, A, b, p, tol, what):
    A, b = A.astype(trees.LD), b.astype(trees.LD)
    devs, bounds, bad = [], [], []
    for q in range(1, p + 1):
        for t in trees.trees(q):
            d = float(b @ trees.phi(t, A) - 1 / trees.LD(trees.gamma(t)))
            bound = tol + 1e-14 * float(np.abs(b) @ trees.phi(t, np.abs(A)))
            devs.append(d); bounds.append(bound)
            if not abs(d) <= bound:
                bad.append(f"{q}{'' if len(bad) > 3 else str(t)}:{d:.1e}".replace(" ", ""))
    mon.oracles[oracle] += len(devs) - 1
    mon.close(oracle, devs, np.zeros(len(devs)), bounds, f"{name}: {what} conditions {', '.join(bad)}", key=f"{oracle}:{name}:{';'.join(bad)}")


def run_case(mon, case):
    from qmat.qcoeff.butcher import RK_SCHEMES
    from qmat import Q_GENERATORS, genQCoeffs
    name, alias = case["name"], case["alias"]
    r = REF[name]
    if not mon.check("registered", alias in RK_SCHEMES and alias in Q_GENERATORS, f"{alias} is not registered"):
        return
    g = mon.call("RK", RK_SCHEMES[alias])
    A, b, c = (np.asarray(mon.get(k, g, k), dtype=float) for k in ("Q", "weights", "nodes"))
    n = len(r["c"])
    mon.shape("shape", A, (n, n), f"{name} A"); mon.shape("shape", b, (n,), f"{name} b"); mon.shape("shape", c, (n,), f"{name} c")
    x, w, Q = mon.call("genQCoeffs", genQCoeffs, alias)
    for lab, got in (("A", A), ("b", b), ("c", c)):
        ref = np.array(r[lab])
        mon.close("published", got, ref, 2e-15 + 2e-15 * np.abs(ref), f"{name}.{lab}")
    for got, ref in ((g.A, A), (g.b, b), (g.c, c), (x, c), (w, b), (Q, A)):
        mon.same("consistent", got, ref, f"{name}: attribute, property and function")
    loose = 3e-10 if name.startswith("ARK343") else 0.0
    mon.close("row-sums", A.sum(axis=1), c, 4e-14 + loose, f"{name}: row sums of A against c")
    mon.check("order", int(mon.get("order", g, "order")) == r["order"], f"{name}: order {g.order} instead of {r['order']}")
    conditions(mon, "tree-conditions", name, A, b, int(g.order), loose, "order")
    if r["b2"] is None:
        mon.rejects("weightsEmbedded", NotImplementedError, lambda: g.weightsEmbedded)
    else:
        b2 = np.asarray(mon.get("weightsEmbedded", g, "weightsEmbedded"), dtype=float)
        ref = np.array(r["b2"])
        mon.close("published", b2, ref, 2e-15 + 2e-15 * np.abs(ref), f"{name}.b2")
        mon.check("order", int(mon.get("orderEmbedded", g, "orderEmbedded")) == r["orderEmbedded"], f"{name}: orderEmbedded {g.orderEmbedded}")
        conditions(mon, "embedded-conditions", name, A, b2, int(g.orderEmbedded), loose, "embedded order")
    if r["kind"] == "ERK":
        mon.check("structure", not np.triu(A).any(), f"{name}: explicit scheme with entries on or above the diagonal", A=A)
    elif r["kind"] == "DIRK":
        mon.check("structure", not np.triu(A, 1).any(), f"{name}: diagonally implicit scheme with entries above the diagonal", A=A)
        if r["constdiag"]:
            d = np.diag(A); d = d[d != 0]
            mon.close("structure", d, d[0] + 0 * d, 1e-14 + loose, f"{name}: implicit diagonal not constant")
    mon.check("count", g.nNodes == n, f"{name}: {g.nNodes} stages")
    mon.sample(dict(case=case, order=int(g.order), stages=n))
