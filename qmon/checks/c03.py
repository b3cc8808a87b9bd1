"""C03: interpolation matrices against the exact Lagrange basis."""
import itertools
import numpy as np
from qmon import core, exact, gen

RULE = ("One case = one point set (distribution x size x scale x offset x ordering) observed at inside / coincident / adjacent-float / "
        "outside times under all weight options; non-trivial = a matrix was returned and compared entrywise with the exact rational basis.")
ROUNDS = dict(quick=8)
NARROW = True
REQUIRED = {"getInterpolationMatrix": 500, "entries": 500, "unit-rows": 200}
ASSUMPTIONS = ["bounds: relative weight error u(6n+30+6*sum|log d|), times the Lebesgue function at the evaluated time capped at 5e3 (far from the points: entrywise relative accuracy)",
               "FAST is only driven where its products neither over- nor underflow (documented restriction)"]

OPTIONS = [dict(), dict(weightComputation="FAST"), dict(weightComputation="STABLE"),
           dict(weightComputation="STABLE", scaleRef="ZERO"), dict(weightComputation="CHEBFUN"),
           dict(scaleWeights=True), dict(weightComputation="STABLE", scaleWeights=True), dict(weightComputation="FAST", scaleWeights=True)]


def cases(tier, seed):
    rng = core.rng_of("C03", tier, seed)
    sizes = [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 20, 25]
    i = 0
    for n in sizes:
        for dist in gen.DISTS:
            for order in gen.ORDERS:
                i += 1
                yield dict(kind="matrix", n=n, dist=dist, order=order, scale=float(rng.choice(gen.SCALES)),
                           off=float(rng.choice(gen.OFFSETS)), id=i)
    for scale in gen.SCALES:
        for off in gen.OFFSETS:
            for n in (3, 8):
                i += 1
                yield dict(kind="matrix", n=n, dist="cheb1", order="sorted", scale=scale, off=off, id=i)
    big = [33, 48, 64, 65, 80, 100, 128, 150, 200] + ([256, 300, 400] if tier == "thorough" else [])
    for n in big:
        for dist in ("cheb1", "cheb2", "legendre", "radau", "equid"):
            i += 1
            yield dict(kind="big", n=n, dist=dist, order=str(rng.choice(gen.ORDERS)), scale=float(rng.choice([1.0, 0.5, 2.0, 10.0])),
                       off=float(rng.choice([0.0, 1.0])), id=i)
    # magnitudes where products of differences leave the floating point range
    for n, dist, scale, off in [(100, "equid", 5e3, 1.0), (60, "cheb1", 1e8, 0.0), (40, "equid", 1e-9, 1.0), (30, "cheb1", 1e-12, 0.0),
                                (520, "cheb1", 0.5, 1.0), (530, "cheb2", 0.5, 1.0), (200, "cheb1", 0.01, 0.0), (110, "legendre", 1e-3, 0.0),
                                (12, "equid", 1e30, 0.0), (12, "uniform", 1e-30, 0.0), (5, "cheb1", 1e70, 0.0), (5, "cheb1", 1e-70, 0.0),
                                (3, "cheb1", 1e150, 0.0), (3, "cheb1", 1e-150, 0.0), (2, "cheb1", 1e200, 0.0), (2, "cheb1", 1e-200, 0.0),
                                (108, "cheb1", 1e-3, 0.0), (104, "cheb1", 1e-3, 0.0), (171, "integers", 1.0, 0.0)]:
        i += 1
        yield dict(kind="extreme", n=n, dist=dist, order="sorted", scale=scale, off=off, id=i)
    if tier == "thorough":
        for n in (600, 800, 1000):
            i += 1
            yield dict(kind="extreme", n=n, dist="cheb1", order="sorted", scale=0.5, off=1.0, id=i)
    for k in range(250 if tier == "quick" else 4000):
        i += 1
        yield dict(kind="matrix", n=int(rng.integers(1, 18)), dist=str(rng.choice(gen.DISTS)), order=str(rng.choice(gen.ORDERS)),
                   scale=float(10.0 ** rng.uniform(-6, 6)), off=float(rng.choice(gen.OFFSETS) * rng.uniform(0, 2)), id=i)
    # many evaluation times: sizes around likely block boundaries
    for m in gen.BLOCKS:
        for n in (1, 2, 3, 5):
            i += 1
            yield dict(kind="many", n=n, m=m + int(rng.integers(0, 2)) * (m > 4000), dist=str(rng.choice(gen.DISTS)), order=str(rng.choice(gen.ORDERS)),
                       scale=float(rng.choice([1.0, 0.5, 2.0])), off=float(rng.choice([0.0, 1.0])), id=i)
    yield dict(kind="inputs", id=0)


def cost(c):
    return 1 + c.get("n", 1) ** 2.2 / 300


def many(mon, case, rng):
    """Many evaluation times: every row against the exact basis, and against the rows of a small problem."""
    from qmat.lagrange import LagrangeApproximation
    n, m = case["n"], case["m"]
    x = gen.points(case["dist"], n, case["scale"], case["off"], case["order"], rng)
    pool = np.concatenate([gen.times(x, rng, m=20, far=0.5), x])
    P0 = exact.Lagrange(x).values(pool)
    tol0 = exact.tol_values(x, P0)
    idx = rng.integers(pool.size, size=m)
    idx[-1], idx[0] = rng.integers(pool.size - n), pool.size - 1
    ap = mon.call("LagrangeApproximation", LagrangeApproximation, x)
    M = mon.call("getInterpolationMatrix", ap.getInterpolationMatrix, pool[idx])
    mon.shape("shape", M, (m, n), f"interpolation matrix for {m} times")
    mon.close("entries", M, P0[idx], tol0[idx], f"interpolation matrix for {m} times", points=x)
    mon.close("row-sums", M.sum(axis=1), np.ones(m), (np.abs(P0).sum(axis=1) * (n + 4))[idx] * 4 * exact.U, "row sums", points=x)
    hit = np.flatnonzero((pool[:, None] == x[None, :]).any(axis=1))
    for j in hit:
        rows = M[idx == j]
        mon.same("unit-rows", rows + 0.0, np.tile((x == pool[j]) * 1.0, (len(rows), 1)), "rows at a coinciding time", points=x, time=pool[j])


def run_case(mon, case):
    from qmat.lagrange import LagrangeApproximation
    rng = core.rng_of("C03", mon.seed, case)
    if case["kind"] == "inputs":
        return inputs(mon, rng)
    if case["kind"] == "many":
        return many(mon, case, rng)
    n = case["n"]
    x = gen.points(case["dist"], n, case["scale"], case["off"], case["order"], rng)
    if case["kind"] == "matrix":
        w = np.ptp(x) if n > 1 else abs(x[0]) or 1.0
        far = w * 10.0 ** rng.uniform(-3, min(6, 200 / n), 6)           # remote times, as far as the values stay in range
        t = np.concatenate([gen.times(x, rng, m=6, far=1.0 if n < 12 else 0.1), x.max() + far[:3], x.min() - far[3:]])
    else:
        t = np.concatenate([rng.uniform(x.min(), x.max(), 3), rng.permutation(x)[:2], [x.min(), x.max()]])
        if n > 1 and np.ptp(x) < 1e100:
            far = np.ptp(x) * 10.0 ** rng.uniform(-3, min(6, 200 / n), 4)
            t = np.concatenate([t, x.max() + far[:2], x.min() - far[2:]])
    P = exact.Lagrange(x).values(t)
    keep = np.abs(P).max(axis=1) < 1e250                   # further away the values leave the floating point range
    t, P = t[keep], P[keep]
    tol = exact.tol_values(x, P)
    mon.notes["evaluation times beyond the reach of the barycentric sum"] += int((np.abs(P).sum(axis=1) * exact.weight_delta(x) > 1e-3).sum())
    with np.errstate(all="ignore"):
        d = np.abs(x[:, None] - x[None, :]); d[np.diag_indices(n)] = 1
        s = np.abs(np.log(d)).sum(axis=1)
        lw = -np.log(d).sum(axis=1)
        fast_ok = n <= 120 and s.max() < 600 and np.abs(np.cumsum(np.log(d), axis=1)).max() < 600 \
            and s.max() + abs(np.log(max(d.max(), 1 / d.min()))) < 680
        zero_ok = lw.max() - lw.min() < 600
        cheb_ok = n < 400 and zero_ok
    opts = OPTIONS if case["kind"] == "matrix" else [dict(), dict(weightComputation="STABLE"), dict(scaleWeights=True)]
    for o in opts:
        if o.get("weightComputation") == "FAST" and not fast_ok:
            continue
        if o.get("scaleRef") == "ZERO" and not zero_ok:
            continue
        if o.get("weightComputation") == "CHEBFUN" and not cheb_ok:
            continue
        ap = mon.call("LagrangeApproximation", LagrangeApproximation, x, **o)
        M = mon.call("getInterpolationMatrix", ap.getInterpolationMatrix, t)
        mon.shape("shape", M, P.shape, "interpolation matrix")
        mon.check("finite", np.isfinite(M).all(), f"non-finite entries (options {o})", points=x, times=t)
        mon.close("entries", M, P, tol, f"interpolation matrix with options {o}", points=x, times=t)
        mon.close("row-sums", M.sum(axis=1), np.ones(t.size), (np.abs(P).sum(axis=1) * (n + 4)) * 4 * exact.U + np.where(np.abs(P).sum(axis=1) > 100, tol.sum(axis=1), 0), "row sums", points=x, times=t)
        for i in np.flatnonzero((t[:, None] == x[None, :]).any(axis=1)):
            mon.same("unit-rows", np.asarray(M[i]) + 0.0, (x == t[i]) * 1.0, "row at a coinciding time", points=x, time=t[i])
        if o.get("scaleWeights"):
            mon.close("scaled-weights", np.abs(ap.weights).max(), 1.0, 4 * exact.U, "largest scaled weight")
        w = np.asarray(ap.weights, dtype=float)
        mon.shape("shape", w, (n,), "weights")
        we = exact.exact_weights(x)
        j = int(np.argmax(np.abs(we)))
        ok = np.abs(we) > 1e-290
        mon.close("weights", (w / w[j])[ok], (we / we[j])[ok], 4 * exact.weight_delta(x) * np.abs(we / we[j])[ok], f"barycentric weights ({o})", points=x)
        mon.same("points-kept", np.asarray(ap.points), x, "points attribute")
        mon.check("count", ap.nPoints == n and ap.n == n and ap.nUniquePoints == n and ap.hasDuplicates is False or
                  (ap.nPoints == n and ap.n == n and ap.nUniquePoints == n and not ap.hasDuplicates), "point counts", points=x)
    mon.sample(dict(case=case, max_cond=float(np.abs(P).sum(axis=1).max())))


def inputs(mon, rng):
    """Kinds of inputs: lists, tuples, integers, one time, no time; unknown options."""
    from qmat.lagrange import LagrangeApproximation
    for x in ([0, 1, 3], (0, 1, 3), np.array([0, 1, 3]), np.array([0, 1, 3], dtype=np.float32), [[0], [1], [3]], range(0, 6, 2), [2], [7, -1]):
        xf = np.array(list(x) if isinstance(x, range) else x, dtype=float).ravel()
        ap = mon.call("LagrangeApproximation", LagrangeApproximation, x)
        for t in ([2], (2, 5), [0.5, 1, 3], np.array([1, 2]), [3], []):
            M = mon.call("getInterpolationMatrix", ap.getInterpolationMatrix, t)
            P = exact.Lagrange(xf).values(np.array(t, dtype=float)).reshape(len(t), xf.size)
            mon.close("entries", M, P, 1e-13, f"points {x!r}, times {t!r}")
        for dup in (True, False):
            M2 = mon.call("getInterpolationMatrix", ap.getInterpolationMatrix, [0.25, 1], duplicates=dup)
            mon.close("entries", M2, exact.Lagrange(xf).values([0.25, 1]), 1e-13, f"duplicates={dup} without duplicates")
    for k in range(12):
        n = int(rng.integers(1, 9))
        x = rng.choice(np.arange(-100 * (k % 2), 120), n, replace=False).astype(float) / (1 if k % 3 else 4)
        t = np.concatenate([rng.integers(x.min(), x.max() + 1, 3), x[:2], [x.max() + 1]])
        P = exact.Lagrange(x).values(t)
        tol = exact.tol_values(x, P)
        for xf in gen.forms(x, wide=True):
            ap = mon.call("LagrangeApproximation", LagrangeApproximation, xf)
            for tf in gen.forms(t, wide=True):
                M = mon.call("getInterpolationMatrix", ap.getInterpolationMatrix, tf)
                mon.close("entries", M, P, tol, f"points of type {getattr(xf, 'dtype', type(xf))}, times of type {getattr(tf, 'dtype', type(tf))}", points=x, times=t)
    for bad in ("fast", "EXACT", "", None, 3):
        mon.rejects("LagrangeApproximation", (NotImplementedError, ValueError), LagrangeApproximation, [0, 1, 2], weightComputation=bad)
    for bad in ("MIN", "", None):
        mon.rejects("LagrangeApproximation", (NotImplementedError, ValueError), LagrangeApproximation, [0, 1, 2],
                    weightComputation="STABLE", scaleRef=bad)
    ap = LagrangeApproximation([0, 1, 2])
    for bad in (0.5, [[0.5, 1]]):
        mon.rejects("getInterpolationMatrix", (AssertionError, ValueError, TypeError), ap.getInterpolationMatrix, bad)
