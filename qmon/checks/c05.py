"""C05: derivative matrices against exact derivatives of the Lagrange basis."""
import warnings
import numpy as np
from qmon import core, exact, gen

RULE = ("One case = one point set observed for orders 1, 2 and ALL under several weight options; non-trivial = compared entrywise with exact "
        "rational derivatives (and zero row sums).")
ROUNDS = dict(quick=10)
NARROW = True
REQUIRED = {"getDerivativeMatrix": 500, "D1": 300, "D2": 300, "deprecated": 10}
ASSUMPTIONS = ["bounds: relative weight errors of both weights of each entry; diagonal entries: accumulated over the row"]
OPTIONS = [dict(), dict(weightComputation="STABLE"), dict(scaleWeights=True), dict(weightComputation="CHEBFUN"), dict(weightComputation="FAST"),
           dict(weightComputation="STABLE", scaleRef="ZERO")]


def cases(tier, seed):
    rng = core.rng_of("C05", tier, seed)
    i = 0
    for n in list(range(1, 22)) + [24, 27, 32]:
        for dist in gen.DISTS:
            i += 1
            yield dict(kind="matrix", n=n, dist=dist, order=str(rng.choice(gen.ORDERS)), scale=float(rng.choice(gen.SCALES)),
                       off=float(rng.choice(gen.OFFSETS)), id=i)
    for n in (40, 48, 64, 65, 80) + ((100, 128) if tier == "thorough" else ()):
        for dist in ("cheb1", "legendre", "cheb2", "equid"):
            i += 1
            yield dict(kind="big", n=n, dist=dist, order=str(rng.choice(gen.ORDERS)), scale=float(rng.choice([0.5, 1.0, 2.0])), off=float(rng.choice([0.0, 1.0])), id=i)
    for k in range(400 if tier == "quick" else 6000):
        i += 1
        yield dict(kind="matrix", n=int(rng.integers(1, 15)), dist=str(rng.choice(gen.DISTS)), order=str(rng.choice(gen.ORDERS)),
                   scale=float(10.0 ** rng.uniform(-6, 6)), off=float(rng.choice(gen.OFFSETS) * rng.uniform(0, 2)), id=i)
    yield dict(kind="inputs", id=0)


def cost(c):
    return 1 + c.get("n", 1) ** 3 / 500


def run_case(mon, case):
    from qmat.lagrange import LagrangeApproximation
    rng = core.rng_of("C05", mon.seed, case)
    if case["kind"] == "inputs":
        return inputs(mon, rng)
    n = case["n"]
    x = gen.points(case["dist"], n, case["scale"], case["off"], case["order"], rng)
    E1, E2 = exact.Lagrange(x).derivatives()
    t1, t2 = exact.tol_derivatives(x, E1, E2)
    with np.errstate(all="ignore"):
        d = np.abs(x[:, None] - x[None, :]); d[np.diag_indices(n)] = 1
        safe = np.abs(np.log(d)).sum(axis=1).max() < 600
        lw = -np.log(d).sum(axis=1)
    if lw.max() - lw.min() > 600:
        mon.notes["weights ratio out of range"] += 1
        return
    for o in (OPTIONS if case["kind"] == "matrix" else OPTIONS[:2]):
        if o.get("weightComputation") in ("FAST", "CHEBFUN") and not safe:
            continue
        ap = mon.call("LagrangeApproximation", LagrangeApproximation, x, **o)
        D1 = mon.call("getDerivativeMatrix", ap.getDerivativeMatrix)
        D1b = mon.call("getDerivativeMatrix", ap.getDerivativeMatrix, 1)
        D2 = mon.call("getDerivativeMatrix", ap.getDerivativeMatrix, order=2)
        both = mon.call("getDerivativeMatrix", ap.getDerivativeMatrix, order="ALL")
        mon.check("all-tuple", isinstance(both, (tuple, list)) and len(both) == 2, "order='ALL' does not give both matrices")
        for name, M, E, t in (("D1", D1, E1, t1), ("D1", D1b, E1, t1), ("D2", D2, E2, t2), ("D1", both[0], E1, t1), ("D2", both[1], E2, t2)):
            mon.shape("shape", M, (n, n), name)
            mon.close(name, M, E, t, f"{name}, options {o}", points=x)
            mon.close("row-sums", M.sum(axis=1), np.zeros(n), (np.abs(E) + np.abs(M)).sum(axis=1) * (n + 4) * 4 * exact.U + 1e-300, f"row sums of {name}", points=x)
        for M, E, t in ((D1, both[0], t1), (D1, D1b, t1), (D2, both[1], t2)):
            mon.close("same-orders", M, E, t, "matrices requested separately and together", points=x)
        if case["id"] % 5 == 0:
            deprecated(mon, ap, (D1, D2), (t1, t2))
    mon.sample(dict(case=case, max=float(np.abs(E2).max())))


def deprecated(mon, ap, D, t):
    for args, i in (((), 0), ((1,), 0), ((2,), 1)):
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            M = mon.call("getDerivationMatrix", ap.getDerivationMatrix, *args)
        mon.close("deprecated", M, D[i], t[i], "deprecated name")
        mon.check("deprecated", any(issubclass(r.category, DeprecationWarning) for r in rec), "no deprecation warning")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        both = mon.call("getDerivationMatrix", ap.getDerivationMatrix, order="ALL")
    for i in (0, 1):
        mon.close("deprecated", both[i], D[i], t[i], "deprecated name, order=ALL")


def inputs(mon, rng):
    from qmat.lagrange import LagrangeApproximation
    for x in ([0, 1, 3], (3, 1, 0), np.array([0, 1, 3]), range(0, 6, 2), [5], [5, 2]):
        xf = np.array(list(x), dtype=float)
        E1, E2 = exact.Lagrange(xf).derivatives()
        ap = mon.call("LagrangeApproximation", LagrangeApproximation, x)
        for dup in (True, False):
            D1, D2 = mon.call("getDerivativeMatrix", ap.getDerivativeMatrix, "ALL", dup)
            mon.close("D1", D1, E1, 1e-13, f"points {x!r}"); mon.close("D2", D2, E2, 1e-13, f"points {x!r}")
    for k in range(12):
        n = int(rng.integers(1, 9))
        x = rng.choice(np.arange(-100 * (k % 2), 120), n, replace=False).astype(float) / (1 if k % 3 else 4)
        E1, E2 = exact.Lagrange(x).derivatives()
        t1, t2 = exact.tol_derivatives(x, E1, E2)
        for xf in gen.forms(x, wide=True):
            ap = mon.call("LagrangeApproximation", LagrangeApproximation, xf)
            D1, D2 = mon.call("getDerivativeMatrix", ap.getDerivativeMatrix, "ALL")
            mon.close("D1", D1, E1, t1, f"points of type {getattr(xf, 'dtype', type(xf))}", points=x)
            mon.close("D2", D2, E2, t2, f"points of type {getattr(xf, 'dtype', type(xf))}", points=x)
    ap = LagrangeApproximation([0, 1, 2])
    for bad in (0, 3, -1, "all", "1", None, 1.5):
        mon.rejects("getDerivativeMatrix", (NotImplementedError, ValueError), ap.getDerivativeMatrix, bad)
