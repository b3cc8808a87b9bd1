"""C04: integration matrices against exact integrals of the Lagrange basis."""
import numpy as np
from qmon import core, exact, gen

RULE = ("One case = one point set and one interval list (inside, single, adjacent, reversed, empty, partly and fully outside) observed for every "
        "internal rule and several weight options; non-trivial = compared entrywise with the exact rational integrals.")
ROUNDS = dict(quick=4)
NARROW = True
REQUIRED = {"getIntegrationMatrix": 500, "entries": 500, "additive": 100, "reversed": 100}
ASSUMPTIONS = ["bounds: weight error amplified by the Lebesgue constant on the interval + rounding of the internal quadrature abscissae"]
RULES = ["FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY"]
OPTIONS = [dict(), dict(weightComputation="STABLE"), dict(scaleWeights=True), dict(weightComputation="CHEBFUN"), dict(weightComputation="FAST")]


def cases(tier, seed):
    rng = core.rng_of("C04", tier, seed)
    i = 0
    for n in list(range(1, 27)) + [30, 31, 32, 33]:
        for dist in gen.DISTS:
            if n > 26 and dist in ("uniform", "cluster", "geometric", "jitter", "integers"):
                continue
            i += 1
            yield dict(kind="matrix", n=n, dist=dist, order=str(rng.choice(gen.ORDERS)), scale=float(rng.choice(gen.SCALES)),
                       off=float(rng.choice(gen.OFFSETS)), id=i)
    for n in (48, 49, 63, 64, 65, 80, 81, 100) + ((128, 129, 160) if tier == "thorough" else ()):
        for dist in ("cheb1", "legendre", "radau", "cheb2"):
            i += 1
            yield dict(kind="big", n=n, dist=dist, order="sorted", scale=float(rng.choice([0.5, 1.0, 2.0])), off=float(rng.choice([0.0, 1.0])), id=i)
    for n in (101, 150, 199, 200, 201, 202, 255, 256, 300, 399, 400, 511, 600) + ((777, 1000, 1001) if tier == "thorough" else ()):
        i += 1
        yield dict(kind="huge", n=n, dist=["cheb1", "legendre", "cheb2", "radau"][i % 4], order=["sorted", "shuffled", "reversed"][i % 3],
                   scale=float(rng.choice([0.5, 1.0, 2.0])), off=float(rng.choice([0.0, 1.0])), id=i)
    for k in range(400 if tier == "quick" else 6000):
        i += 1
        yield dict(kind="matrix", n=int(rng.integers(1, 15)), dist=str(rng.choice(gen.DISTS)), order=str(rng.choice(gen.ORDERS)),
                   scale=float(10.0 ** rng.uniform(-6, 6)), off=float(rng.choice(gen.OFFSETS) * rng.uniform(0, 2)), id=i)
    for m in gen.BLOCKS:
        for n in (2, 4):
            i += 1
            yield dict(kind="many", n=n, m=m, dist=str(rng.choice(gen.DISTS)), order=str(rng.choice(gen.ORDERS)),
                       scale=float(rng.choice([1.0, 0.5, 2.0, 1e-9])), off=float(rng.choice([0.0, 1.0])), id=i)
    for k in range(40 if tier == "quick" else 600):          # magnitudes far from one, as long as no difference leaves the range
        i += 1
        yield dict(kind="matrix", n=int(rng.integers(1, 7)), dist=str(rng.choice(gen.DISTS)), order=str(rng.choice(gen.ORDERS)),
                   scale=float(10.0 ** (rng.uniform(40, 140) * (-1)**k)), off=float(rng.choice(gen.OFFSETS)), id=i)
    for k in range(12 if tier == "quick" else 100):          # intervals between small integers, each several times
        i += 1
        yield dict(kind="lattice", n=int(rng.integers(1, 6)), id=i)
    yield dict(kind="inputs", id=0)


def cost(c):
    return 1 + c.get("n", 1) ** 2.5 / 300


def intervals(x, rng, far):
    lo, hi = float(x.min()), float(x.max())
    w = (hi - lo) if x.size > 1 else (abs(lo) or 1.0)
    s = np.sort(x)
    a, b, c = np.sort(rng.uniform(lo, hi, 3))
    out = [(lo, hi), (a, b), (b, c), (a, c), (c, a), (a, a), (lo, s[min(1, s.size - 1)]), (s[-2] if s.size > 1 else lo, hi),
           (hi + 10 ** rng.uniform(0, 1 + far) * w, hi + 30 * w) if far else (a, c), (lo - far * w, lo), (lo - far * w, hi + far * w), (hi, hi + far * w), (a, a + 1e-6 * w), (float(rng.choice(x)), c)]
    return out


def run_case(mon, case):
    from qmat.lagrange import LagrangeApproximation
    rng = core.rng_of("C04", mon.seed, case)
    if case["kind"] == "inputs":
        return inputs(mon, rng)
    n = case["n"]
    if case["kind"] == "lattice":
        return lattice(mon, n, rng)
    x = gen.points(case["dist"], n, case["scale"], case["off"], case["order"], rng)
    if case["kind"] == "huge":
        return huge(mon, x, rng)
    if case["kind"] == "many":
        return many(mon, case, x, rng)
    iv = intervals(x, rng, 0.5 if n < 10 else 0.05)
    if case["kind"] == "big":
        iv = [iv[i] for i in (0, 1, 4, 6)]
    Q = exact.Lagrange(x).integrals(iv)
    tol = exact.tol_integrals(x, iv)
    width = np.abs(np.diff(np.array(iv), axis=1)).ravel()
    # a bound as large as the interval itself means that no digit is determined
    good = (tol.max(axis=1) <= 1e-4 * width * np.maximum(1, np.abs(Q).max(axis=1) / np.maximum(width, 1e-300))) | (width == 0)
    for k in np.flatnonzero(width == 0):
        good[k] = np.abs(exact.Lagrange(x).values([iv[k][0]])).sum() * exact.weight_delta(x) < 2e-3
    mon.notes["intervals skipped (conditioning beyond double precision)"] += int((~good).sum())
    iv = [v for v, g in zip(iv, good) if g]
    Q, tol = Q[good], tol[good]
    if not iv:
        return
    opts = OPTIONS if case["kind"] == "matrix" else OPTIONS[:2]
    with np.errstate(all="ignore"):
        d = np.abs(x[:, None] - x[None, :]); d[np.diag_indices(n)] = 1
        safe = np.abs(np.log(d)).sum(axis=1).max() < 600
    idx = {v: i for i, v in enumerate(iv)}
    for o in opts:
        if o.get("weightComputation") in ("FAST", "CHEBFUN") and not safe:
            continue
        ap = mon.call("LagrangeApproximation", LagrangeApproximation, x, **o)
        for rule in RULES + [None]:
            kw = {} if rule is None else dict(numQuad=rule)
            M = mon.call("getIntegrationMatrix", ap.getIntegrationMatrix, iv, **kw)
            mon.shape("shape", M, Q.shape, "integration matrix")
            mon.close("entries", M, Q, tol, f"integration matrix, rule {rule}, options {o}", points=x, intervals=np.array(iv))
    # metamorphic relations on the observed matrices (default rule)
    base = list(intervals(x, rng, 0.0))
    a, b, c = sorted(rng.uniform(x.min(), x.max(), 3))
    rel = [(a, b), (b, c), (a, c), (c, a), (a, a)]
    tr = exact.tol_integrals(x, rel)
    if tr.max() < 1e-4 * abs(c - a) or n == 1:
        rule = RULES[case["id"] % 3]
        ap = LagrangeApproximation(x)
        M = mon.call("getIntegrationMatrix", ap.getIntegrationMatrix, np.array(rel), numQuad=rule)
        mon.close("additive", M[0] + M[1], M[2], tr[0] + tr[1] + tr[2], "adjacent intervals", points=x, intervals=np.array(rel))
        mon.close("reversed", M[3], -M[2], 2 * tr[2], "reversed interval", points=x, intervals=np.array(rel))
        mon.close("empty", M[4], np.zeros(n), 1e-300, "empty interval", points=x)
        mon.close("row-sums", M.sum(axis=1), [b - a, c - b, c - a, a - c, 0.0], tr.sum(axis=1) + 4 * exact.U * (abs(a) + abs(c)), "integral of one", points=x)
    mon.sample(dict(case=case, intervals=len(iv)))


def many(mon, case, x, rng):
    """Many intervals at once: every row against the exact integrals."""
    from qmat.lagrange import LagrangeApproximation
    pool = intervals(x, rng, 0.5)
    Q0, tol0 = exact.Lagrange(x).integrals(pool), exact.tol_integrals(x, pool)
    idx = rng.integers(len(pool), size=case["m"])
    idx[-1] = 10                                           # a long interval in the last row
    iv = np.array(pool)[idx]
    ap = mon.call("LagrangeApproximation", LagrangeApproximation, x)
    forms = [iv, [tuple(v) for v in iv.tolist()], iv.tolist(), tuple(map(tuple, iv.tolist()))]
    for k, rule in enumerate(RULES + RULES):
        M = mon.call("getIntegrationMatrix", ap.getIntegrationMatrix, forms[(k + k // 3 + case["m"]) % 4], numQuad=rule)
        mon.shape("shape", M, (len(iv), x.size), f"integration matrix of {len(iv)} intervals")
        mon.close("entries", M, Q0[idx], tol0[idx], f"integration matrix of {len(iv)} intervals, rule {rule}", points=x)


def lattice(mon, n, rng):
    """Small integer points and bounds: intervals that differ only a little, by sign or by order."""
    from qmat.lagrange import LagrangeApproximation
    x = rng.choice(np.arange(-4, 5), n, replace=False).astype(float)
    ap = mon.call("LagrangeApproximation", LagrangeApproximation, x)
    every = [(a, b) for a in range(-3, 4) for b in range(-3, 4)]
    lists = [every, [(-1, 0), (-2, 0)], [(0, -1), (0, -2)], [(-1, -2), (-2, -1)], [(-1, 2)] * 3, [(1, 2), (2, 1)], [(0, 1), (1, 0), (0, 1)], [(2, 3), (-2, -3)]]
    lists += [[every[int(k)] for k in rng.choice(len(every), int(rng.integers(1, 6)))] for _ in range(6)]
    for iv in lists:
        Q, tol = exact.Lagrange(x).integrals(iv), exact.tol_integrals(x, iv)
        for form in (iv, np.array(iv, dtype=float), -(-np.array(iv, dtype=float))):
            M = mon.call("getIntegrationMatrix", ap.getIntegrationMatrix, form)
            mon.close("entries", M, Q, tol, f"intervals {iv}", points=x)


def huge(mon, x, rng):
    """Hundreds of well-conditioned points: exactness on the Chebyshev polynomials of every degree below n, on intervals inside the points."""
    from qmat.lagrange import LagrangeApproximation
    n = x.size
    lo, hi = float(x.min()), float(x.max())
    c, r = (lo + hi) / 2, (hi - lo) / 2
    a, b = np.sort(rng.uniform(lo, hi, 2))
    iv = np.array([(lo, hi), (a, b), (b, a), (lo, lo + 1e-2 * r), (a, a)])
    LD = np.longdouble
    z = np.clip((iv.astype(LD) - c) / r, -1, 1)
    th = np.arccos(z)
    k = np.arange(n, dtype=LD)
    with np.errstate(all="ignore"):
        prim = 0.5 * (np.cos((k + 1) * th[..., None]) / (k + 1) - np.where(k == 1, 0, np.cos((k - 1) * th[..., None]) / np.where(k == 1, 1, k - 1)))
    prim[..., 0] = z
    ref = (prim[:, 1] - prim[:, 0]) * r
    V = np.cos(k * np.arccos(np.clip((x.astype(LD) - c) / r, -1, 1))[:, None])
    ap = mon.call("LagrangeApproximation", LagrangeApproximation, x)
    leb = 3 + np.log(n)
    tol = 60 * n * exact.U * leb**2 * (np.abs(iv[:, 1] - iv[:, 0])[:, None] + 1e-3 * r) * (1 + abs(c) / r)
    for rule in RULES + [None]:
        M = mon.call("getIntegrationMatrix", ap.getIntegrationMatrix, iv, **({} if rule is None else dict(numQuad=rule)))
        mon.shape("shape", M, (len(iv), n), "integration matrix")
        mon.close("exactness-huge", (M @ V).astype(float), ref.astype(float), tol, f"Chebyshev polynomials on {n} points, rule {rule}")
    mon.sample(dict(huge=n))


def inputs(mon, rng):
    from qmat.lagrange import LagrangeApproximation
    x = [0, 1, 3]
    ap = mon.call("LagrangeApproximation", LagrangeApproximation, x)
    Q = exact.Lagrange(np.array(x, float)).integrals([(0, 2), (1, 3)])
    for iv in ([(0, 2), (1, 3)], [[0, 2], [1, 3]], ((0, 2), (1, 3)), np.array([[0, 2], [1, 3]]), np.array([[0., 2.], [1., 3.]])):
        for dup in (True, False):
            for rule in RULES:
                M = mon.call("getIntegrationMatrix", ap.getIntegrationMatrix, iv, rule, dup)
                mon.close("entries", M, Q, 1e-13, f"intervals given as {type(iv).__name__}")
    # integer points and bounds of every type (differences of unsigned or narrow integers must not wrap around)
    for k in range(12):
        n = int(rng.integers(1, 9))
        lo = [0, -100, 0, 0][k % 4]
        x = rng.choice(np.arange(lo, 127), n, replace=False).astype(float) if k % 3 else np.sort(rng.choice(200, n, replace=False)).astype(float)
        s = np.sort(x)
        iv = np.array([(s[0], s[-1]), (s[-1], s[0]), (s[0], s[0]), (s[n // 2], s[-1])])
        Q, tol = exact.Lagrange(x).integrals(iv), exact.tol_integrals(x, iv)
        for j, xf in enumerate(gen.forms(x)):
            ap = mon.call("LagrangeApproximation", LagrangeApproximation, xf)
            for f in gen.forms(iv, wide=True):
                M = mon.call("getIntegrationMatrix", ap.getIntegrationMatrix, f, RULES[(j + k) % 3])
                mon.close("entries", M, Q, tol, f"points of type {getattr(xf, 'dtype', type(xf))}, intervals of type {getattr(f, 'dtype', type(f))}", points=x, intervals=iv)
    for bad in ("fejer", "GAUSS", "", None, "LEGENDRE"):
        mon.rejects("getIntegrationMatrix", (NotImplementedError, ValueError), ap.getIntegrationMatrix, [(0, 1)], numQuad=bad)
    for bad in ([0, 1], [(0, 1, 2)], [[[0, 1]]]):
        mon.rejects("getIntegrationMatrix", (AssertionError, ValueError), ap.getIntegrationMatrix, bad)
