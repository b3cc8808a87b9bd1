"""C06: duplicated points and call-style evaluation."""
import numpy as np
from qmon import core, exact, gen

RULE = ("One case = one multiset of points (distribution, multiplicities, arrangement) and strategy, observed for every matrix kind with and "
        "without duplicate handling, and evaluated as a function on scalars and arrays; non-trivial = entries compared with the exact distinct-point problem.")
ROUNDS = dict(quick=10)
NARROW = True
REQUIRED = {"columns": 500, "zero-columns": 500, "call": 200, "distinct-matrix": 300}
ASSUMPTIONS = ["tolerances as in C03-C05; zero columns and value shapes are compared exactly"]


def cases(tier, seed):
    rng = core.rng_of("C06", tier, seed)
    i = 0
    arr = ["sorted", "reversed", "shuffled", "ends", "middle", "all-same", "first-last"]
    for n in range(1, 10):
        for a in arr:
            for strat in ("USE_LEFT", "USE_RIGHT", None):
                for rep in range(3):
                    i += 1
                    yield dict(kind="dup", n=n, arr=a, strat=strat, dist=str(rng.choice(gen.DISTS)), scale=float(rng.choice([1.0, 1e-3, 1e3, 1e-9, 0.3])),
                               off=float(rng.choice([0.0, 1.0, -3.0])), id=i)
    for k in range(400 if tier == "quick" else 5000):
        i += 1
        yield dict(kind="dup", n=int(rng.integers(1, 13)), arr=str(rng.choice(arr)), strat=[None, "USE_LEFT", "USE_RIGHT"][int(rng.integers(3))],
                   dist=str(rng.choice(gen.DISTS)), scale=float(10.0**rng.uniform(-4, 4)), off=float(rng.uniform(-3, 3)), id=i)
    for k in range(60 if tier == "quick" else 400):
        i += 1
        yield dict(kind="call", n=int(rng.integers(1, 12)), dup=bool(k % 2), id=i)
    yield dict(kind="inputs", id=0)


def arrange(u, how, rng):
    """A multiset over the distinct values u."""
    n = u.size
    mult = rng.integers(1, 5, n)
    if how == "all-same":
        mult[:] = 1
        mult[rng.integers(n)] = 6
    if how == "ends":
        mult[:] = 1; mult[0] = 3; mult[-1] = 2
    if how == "middle":
        mult[:] = 1; mult[n // 2] = 4
    if mult.max() == 1 and how != "first-last":
        mult[rng.integers(n)] = 2
    p = np.repeat(u, mult)
    if how == "reversed":
        p = p[::-1].copy()
    elif how in ("shuffled",):
        p = rng.permutation(p)
    elif how == "first-last":
        p = np.concatenate([[u[-1]], u, [u[0]]])
    elif how == "middle" and rng.random() < 0.5:
        p = np.concatenate([p, u[:1]])
    return p


def chosen(p, v, strat):
    """Index carrying the column of each distinct value."""
    out = []
    for t in v:
        idx = np.flatnonzero(p == t)
        out.append(int(idx[-1] if strat == "USE_RIGHT" else idx[0]))
    return out


def run_case(mon, case):
    from qmat.lagrange import LagrangeApproximation
    rng = core.rng_of("C06", mon.seed, case)
    if case["kind"] == "inputs":
        return inputs(mon, rng)
    if case["kind"] == "call":
        return callstyle(mon, case, rng)
    u = np.sort(gen.points(case["dist"], case["n"], case["scale"], case["off"], "sorted", rng))
    p = arrange(u, case["arr"], rng)
    strat = case["strat"]
    kw = {} if strat is None else dict(duplicates=strat)
    ap = mon.call("LagrangeApproximation", LagrangeApproximation, p, **kw)
    mon.check("counts", ap.nPoints == p.size and ap.nUniquePoints == u.size and bool(ap.hasDuplicates) == (p.size > u.size)
              and ap.n == p.size, "point counts", points=p)
    v = np.asarray(ap.uniquePoints, dtype=float)
    mon.check("unique", np.array_equal(np.sort(v), u), "uniquePoints are not the distinct values", points=p, unique=v)
    mon.same("points-kept", np.asarray(ap.points), p, "points attribute")
    cols = chosen(p, v, strat)
    others = np.setdiff1d(np.arange(p.size), cols)
    t = gen.times(v, rng, m=4, far=0.3)
    lo, hi = v.min(), v.max()
    if hi == lo:
        hi = lo + 1.0
    iv = [(lo, hi), (hi, lo), tuple(sorted(rng.uniform(lo, hi, 2)))]
    lag = exact.Lagrange(v)
    P = lag.values(t); Q = lag.integrals(iv); E1, E2 = lag.derivatives()
    t1, t2 = exact.tol_derivatives(v, E1, E2)
    ok = np.abs(P).sum(axis=1) * exact.weight_delta(v) < 2e-3
    t, P = t[ok], P[ok]
    jobs = [("interpolation", P, exact.tol_values(v, P), lambda **k: ap.getInterpolationMatrix(t, **k))]
    for rule in ("FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY"):
        jobs.append((f"integration {rule}", Q, exact.tol_integrals(v, iv), lambda rule=rule, **k: ap.getIntegrationMatrix(iv, rule, **k)))
    jobs += [("first derivative", E1, t1, lambda **k: ap.getDerivativeMatrix(1, **k)),
             ("second derivative", E2, t2, lambda **k: ap.getDerivativeMatrix(2, **k)),
             ("first of all derivatives", E1, t1, lambda **k: ap.getDerivativeMatrix("ALL", **k)[0]),
             ("second of all derivatives", E2, t2, lambda **k: ap.getDerivativeMatrix("ALL", **k)[1])]
    for name, E, tol, fn in jobs:
        M = mon.call(name, fn)
        M0 = mon.call(name, fn, duplicates=False)
        M1 = mon.call(name, fn, duplicates=True)
        mon.shape("shape", M, (E.shape[0], p.size), name)
        mon.shape("shape", M0, E.shape, name + " without duplicates")
        mon.same("default", M, M1, name + ": duplicates=True is not the default", points=p)
        mon.close("columns", M[:, cols], E, tol, f"{name}: columns of the kept occurrences ({strat})", points=p)
        mon.same("zero-columns", np.abs(M[:, others]), np.zeros((E.shape[0], others.size)), f"{name}: columns of other occurrences ({strat})", points=p)
        mon.close("distinct-matrix", M0, E, tol, f"{name}: duplicates=False", points=p)
        mon.same("consistent", M[:, cols], M0, f"{name}: with and without duplicate handling", points=p)
    mon.sample(dict(case=case, points=core.short(p)))


def callstyle(mon, case, rng):
    from qmat.lagrange import LagrangeApproximation
    n = case["n"]
    u = gen.points("cheb1", n, 1.0, 0.5, "shuffled", rng)
    p = arrange(u, "shuffled", rng) if case["dup"] else u
    strat = ["USE_LEFT", "USE_RIGHT"][case["id"] % 2]
    f = rng.normal(size=p.size)
    g = rng.normal(size=p.size)
    shapes = [(), (1,), (3,), (2, 3), (2, 1, 4), (0,), (int(rng.choice(gen.BLOCKS[:33])),), (int(rng.choice([17, 32, 33])), int(rng.choice([16, 31, 32])))]
    special = [0 * g, np.ones(p.size), -np.ones(p.size), (np.arange(p.size) == rng.integers(p.size)) * 1.0, f.copy(), 1e-300 * g, 1e200 * g, np.full(p.size, 0.5), 0j * g]
    g = [g, g, special[int(rng.integers(len(special)))]][case["id"] % 3]
    v = np.unique(p)
    lag = exact.Lagrange(v)
    stored = mon.call("LagrangeApproximation", LagrangeApproximation, p, duplicates=strat, fValues=f)
    plain = mon.call("LagrangeApproximation", LagrangeApproximation, p, duplicates=strat)
    cols = chosen(p, v, strat)
    for sh in shapes:
        t = np.array(rng.uniform(-0.5, 1.5, sh))
        if t.size:
            t.flat[0] = rng.choice(p)
        P = lag.values(t.ravel()).reshape(t.size, v.size)
        tF = np.asfortranarray(t) if t.ndim else t
        tT = np.ascontiguousarray(t.T).T if t.ndim else t
        tN = t[::-1].copy()[::-1] if t.ndim else t
        for vals, obj, args, kw in ((f, stored, (t,), {}), (g, stored, (t, g), {}), (g, stored, (t,), dict(fValues=g)), (g, plain, (t, g), {}),
                         (f, stored, (t, None), {}), (1j * g + f, plain, (t, 1j * g + f), {}), (g, plain, (t.tolist(), g.tolist()), {}),
                         (f, stored, (tF,), {}), (g, plain, (tT, g), {}), (f, stored, (tN,), {}), (g, plain, (np.swapaxes(np.swapaxes(t, 0, -1).copy(), 0, -1) if t.ndim else t, g), {})):
            out = mon.call("call", obj, *args, **kw)
            out = np.asarray(out)
            mon.check("call-shape", out.shape == t.shape, f"evaluation at shape {t.shape} has shape {out.shape}", points=p)
            ref = (P @ vals[cols]).reshape(sh)
            mon.close("call-values", out, ref, 1e-13 * (1 + np.abs(vals).sum() * (np.abs(P).sum() + 1)), "evaluation as a function", points=p, times=t)
        if t.size:
            M = plain.getInterpolationMatrix(t.ravel())
            mon.close("call-product", np.asarray(plain(t, g)).ravel(), M @ g, 1e-15 * (np.abs(M) @ np.abs(g)) * (p.size + 2), "matrix-vector product", points=p)
    for t in (1, 0.5, np.float64(0.25), [0.1, 0.2], (0, 1)):
        out = np.asarray(mon.call("call", plain, t, g))
        ref = lag.values(np.array(t, dtype=float).ravel()) @ g[cols]
        mon.check("call-shape", out.shape == np.shape(t), f"evaluation at {t!r} has shape {out.shape}")
        mon.close("call-values", out.ravel(), ref, 1e-12 * (1 + np.abs(g).sum()), f"evaluation at {t!r}", points=p)
    # integer values, and times very close to the points
    fi = rng.integers(-5, 6, p.size)
    near = np.concatenate([v, np.nextafter(v, 9), v + 10.0 ** rng.uniform(-16, -3, v.size) * rng.choice([-1, 1], v.size)])
    P = lag.values(near)
    wd, LD = exact.weight_delta(v), np.abs(P).sum(axis=1)
    for out in (mon.call("call", plain, near, fi), mon.call("call", LagrangeApproximation(p, duplicates=strat, fValues=fi), near), mon.call("call", plain, near, fi.tolist())):
        mon.close("call-values", np.asarray(out), P @ fi[cols], exact.tol_values(v, P) @ np.abs(fi[cols]) + 1e-15 * LD * np.abs(fi).max(), "integer values at times close to the points", points=p)
    # special call-time values are used as given, whether values are stored or not
    t, P = np.array([0.3, float(p[0]), 0.7]), lag.values([0.3, float(p[0]), 0.7])
    fs = special[int(rng.integers(len(special)))]
    for obj in (stored, plain, LagrangeApproximation(p, duplicates=strat, fValues=fs)):
        for h in special:
            for out in (mon.call("call", obj, t, h), mon.call("call", obj, t, fValues=h.tolist()), mon.call("call", obj, t, h.tolist())):
                mon.close("call-values", np.asarray(out), P @ h[cols], 1e-13 * (np.abs(P).sum() + 1) * np.abs(h).sum(), "special values given at the call", points=p)
    mon.close("call-values", np.asarray(mon.call("call", obj, t)), P @ fs[cols], 1e-13 * (np.abs(P).sum() + 1) * np.abs(fs).sum(), "special stored values", points=p)
    # stored values are untouched by evaluation with other values
    out = np.asarray(mon.call("call", stored, 0.3))
    mon.close("call-values", out, (lag.values([0.3]) @ f[cols])[0], 1e-12 * (1 + np.abs(f).sum()), "stored values", points=p)
    mon.rejects("call", (AssertionError, ValueError, TypeError), plain, 0.5)
    mon.rejects("LagrangeApproximation", ValueError, LagrangeApproximation, p, fValues=np.zeros(p.size + 1))
    mon.rejects("LagrangeApproximation", ValueError, LagrangeApproximation, p, fValues=np.zeros((p.size, 2)))
    if p.size > 1:
        mon.rejects("LagrangeApproximation", ValueError, LagrangeApproximation, p, fValues=f[:-1])
        mon.rejects("call", ValueError, plain, 0.5, f[:-1])


def inputs(mon, rng):
    from qmat.lagrange import LagrangeApproximation
    for p in ([0, 0, 1], (1, 0, 0), np.array([2, 2]), [0.0, -0.0, 1.0], [3, 3, 3, 3]):
        v = np.unique(np.array(p, float))
        for strat in ("USE_LEFT", "USE_RIGHT"):
            ap = mon.call("LagrangeApproximation", LagrangeApproximation, p, duplicates=strat)
            cols = chosen(np.array(p, float), v, strat)
            M = mon.call("interpolation", ap.getInterpolationMatrix, [0.5, 1])
            E = np.zeros((2, len(p))); E[:, cols] = exact.Lagrange(v).values([0.5, 1])
            mon.close("columns", M, E, 1e-14, f"points {p!r} {strat}")
    for k in range(12):
        p = rng.integers(-3 * (k % 2), 4, int(rng.integers(2, 9))) * int(rng.choice([1, 20, 30]))
        v = np.unique(p).astype(float)
        f = rng.integers(-100 * (k % 3 == 1), 120, p.size)
        strat = ["USE_LEFT", "USE_RIGHT"][k % 2]
        cols = chosen(p.astype(float), v, strat)
        t = np.array([v[0], v[-1] + 1, v[0] + 2])
        ref, tol = exact.Lagrange(v).values(t), exact.tol_values(v, exact.Lagrange(v).values(t))
        for i, pf in enumerate(gen.forms(p)):
            for j, ff in enumerate(gen.forms(f)):
                for out in (mon.call("call", LagrangeApproximation(pf, duplicates=strat, fValues=ff), gen.forms(t)[(i + j) % 5]), mon.call("call", LagrangeApproximation(pf, duplicates=strat), t, ff)):
                    mon.close("call-values", np.asarray(out), ref @ f[cols], tol @ np.abs(f[cols]) + 1e-14 * np.abs(ref) @ np.abs(f[cols]),
                              f"points of type {getattr(pf, 'dtype', type(pf))}, values of type {getattr(ff, 'dtype', type(ff))}", points=p)
    for bad in ("LEFT", "use_left", None, "", 1):
        mon.rejects("LagrangeApproximation", (NotImplementedError, ValueError), LagrangeApproximation, [0, 1, 1], duplicates=bad)
