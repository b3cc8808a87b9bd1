"""C26: numerical utilities (convergence order regression, LDU factorization, extrapolation matrix)."""
from fractions import Fraction
import numpy as np
from qmon import core, exact, gen

RULE = ("One case = one utility with a batch of random inputs; non-trivial = regression compared with an extended precision least squares fit, factors with their structure and the product with the "
        "input (entrywise backward error bound), extrapolation entries with exact rational least squares.")
ROUNDS = dict(quick=6)
REQUIRED = {"slope": 800, "rmse": 800, "structure": 500, "product": 500, "extrapolation": 500, "reproduces": 300, "rejects": 10, "arguments": 1500}
ASSUMPTIONS = ["error and step arrays have at least two different step counts, and positive errors", "matrices with non-zero leading minors",
               "Vandermonde matrices with condition number below 1e10"]
U = 2.0**-53
LD = np.longdouble


def cases(tier, seed):
    n = 120 if tier == "quick" else 2500
    for i in range(n):
        for kind in ("order", "ldu", "extra"):
            yield dict(kind=kind, i=i, reps=12)


def run_order(mon, rng):
    from qmat.utils.num import numericalOrder
    n = int(rng.integers(2, 40)) if rng.random() < 0.9 else int(rng.integers(40, 500))
    kind = int(rng.integers(5))
    if kind == 0:
        N = 2**np.arange(1, min(n, 40) + 1)
    elif kind == 1:
        N = np.unique(rng.integers(1, 10**6, n))
    elif kind == 2:
        N = 10.0**rng.uniform(0, 6, n)
    elif kind == 3:
        N = rng.integers(1, 50, n)
    else:
        N = np.arange(1000000, 1000000 + n)
    n = len(N)
    if n < 2 or len(np.unique(N)) < 2:
        return
    p = rng.uniform(-2, 16)
    err = np.exp(rng.normal() * 3 - p * np.log(N / N.min()) + [0, 1e-3, 0.5, 3][int(rng.integers(4))] * rng.normal(size=n))
    if not (err > 1e-290).all():
        return
    sh = rng.permutation(n)
    N, err = N[sh], err[sh]
    a, b = N.tolist() if rng.random() < 0.4 else N.copy(), err.tolist() if rng.random() < 0.3 else err.copy()
    if rng.random() < 0.3:                    # other types of the same numbers of steps
        f = gen.forms(N)
        a = f[int(rng.integers(len(f)))]
    beta, rmse = mon.call("numericalOrder", numericalOrder, a, b)
    mon.check("arguments", core.identical(np.array(a), N) and core.identical(np.array(b), err), "numericalOrder modified its arguments")
    x, y = -np.log10(N.astype(LD)), np.log10(err.astype(LD))
    xm, ym = x - x.mean(), y - y.mean()
    sx = (xm**2).sum()
    rb = (xm * ym).sum() / sx
    rr = np.sqrt(((ym - rb * xm)**2).mean())
    dx = 4 * U * (1 + float(np.abs(x).max())); dy = 4 * U * (1 + float(np.abs(y).max()))
    sx = float(np.sqrt(sx))
    d = np.sqrt(n) * (dy + abs(float(rb)) * dx) * 4 + (n + 8) * U * (float(np.sqrt((ym**2).sum())) + abs(float(rb)) * sx)
    bs = 2 * d / sx + 2 * dx * n * float(rr) / sx**2       # rounded abscissae also act on the residual
    if bs > 0.02:
        return
    mon.close("slope", np.asarray(beta), float(rb), bs, f"slope of {n} points")
    mon.close("rmse", np.asarray(rmse), float(rr), 4 * d / np.sqrt(n) + 2 * bs * float(np.abs(xm).max()) + 1e-300, f"root mean square residual of {n} points")


def run_ldu(mon, rng):
    from qmat.utils.num import lduFactorization
    n = int(rng.integers(1, 12)) if rng.random() < 0.8 else int(rng.integers(12, 40))
    kind = int(rng.integers(5))
    if kind == 0:
        A = rng.normal(size=(n, n))
    elif kind == 1:
        A = rng.integers(-5, 6, (n, n))
    elif kind == 2:
        A = np.tril(rng.normal(size=(n, n))) + 3 * np.eye(n)
    elif kind == 3:
        A = rng.normal(size=(n, n)) * 10.0**rng.uniform(-6, 6, (n, 1)) * 10.0**rng.uniform(-6, 6, (1, n))
    else:
        B = rng.normal(size=(n, n)); A = B @ B.T + 1e-3 * np.eye(n)
    if rng.random() < 0.3:
        A = A * 10.0**rng.uniform(-100, 100)
        kind = -1
    s = np.abs(A).max()
    Ld, Ud = np.eye(n), A.astype(LD).copy()
    for i in range(n):   # leading minors away from zero
        if abs(Ud[i, i]) < 1e-8 * max(float(np.abs(A[i]).max()) * 1e-6, 1e-13 * s) or abs(Ud[i, i]) == 0:
            mon.notes["(nearly) singular leading minors skipped"] += 1
            return
        f = Ud[i + 1:, i] / Ud[i, i]
        Ud[i + 1:] -= f[:, None] * Ud[i]
    if kind == 1 and n < 9:   # exact minors
        F = [[Fraction(int(v)) for v in r] for r in A]
        for i in range(n):
            if F[i][i] == 0:
                return
            for j in range(i + 1, n):
                q = F[j][i] / F[i][i]
                F[j] = [a - q * b for a, b in zip(F[j], F[i])]
    arg = A.copy() if rng.random() < 0.7 else np.asfortranarray(A)
    out = mon.call("lduFactorization", lduFactorization, arg)
    mon.same("arguments", arg, A, "lduFactorization modified its argument")
    if not mon.check("structure", isinstance(out, tuple) and len(out) == 3, "three factors expected"):
        return
    L, D, Up = out
    for M in out:
        mon.shape("structure", M, (n, n), "factor")
    mon.check("structure", np.array_equal(L, np.tril(L)) and np.array_equal(Up, np.triu(Up)) and np.array_equal(D, np.diag(np.diag(D)))
              and np.array_equal(np.diag(L), np.ones(n)) and np.array_equal(np.diag(Up), np.ones(n)), "factors are not unit lower, diagonal, unit upper", A=A)
    b = np.abs(L) @ np.abs(D) @ np.abs(Up)
    ref = (L.astype(LD) @ D.astype(LD) @ Up.astype(LD)).astype(float)
    mon.close("product", ref, A.astype(float), 6 * (n + 4) * U * b + 1e-300, f"product of the factors (n={n}, kind {kind})")
    if rng.random() < 0.1:
        mon.rejects("lduFactorization", (AssertionError, ValueError), lduFactorization, rng.normal(size=(n, n + 1)))


def exact_lsq(x, t, p):
    """Exact rational matrix of the least squares polynomial of degree p."""
    X = [[v**k for k in range(p + 1)] for v in x]
    T = [[v**k for k in range(p + 1)] for v in t]
    m = p + 1
    G = [[sum(r[i] * r[j] for r in X) for j in range(m)] + [r[i] for r in X] for i in range(m)]
    for i in range(m):
        piv = next(j for j in range(i, m) if G[j][i] != 0)
        G[i], G[piv] = G[piv], G[i]
        d = G[i][i]
        G[i] = [v / d for v in G[i]]
        for j in range(m):
            if j != i and G[j][i] != 0:
                q = G[j][i]
                G[j] = [a - q * b for a, b in zip(G[j], G[i])]
    S = [g[m:] for g in G]
    return [[sum(T[i][k] * S[k][j] for k in range(m)) for j in range(len(x))] for i in range(len(t))]


def run_extra(mon, rng):
    from qmat.utils.num import getExtrapolationMatrix
    n = int(rng.integers(1, 11))
    kind = int(rng.integers(5))
    if kind == 0:
        x = rng.integers(-6, 12, n)
    elif kind == 4:                     # many well-conditioned nodes
        n = int(rng.integers(2, 24))
        x = rng.permutation(np.cos(np.pi * (np.arange(n) + 0.5) / n)) * float(rng.choice([1.0, 1.1, 0.9])) if rng.random() < 0.5 else np.cos(np.pi * np.arange(n)[::-1] / (n - 1))
    elif kind == 1:
        x = gen.points(str(rng.choice(gen.DISTS)), n, 1.0, 0.0, str(rng.choice(gen.ORDERS)), rng)
    elif kind == 2:
        x = np.linspace(0, 1, n, endpoint=False) if n > 1 else np.array([0.0])
    else:
        x = (rng.uniform(-1, 1, n) + rng.normal()) * 10.0**rng.integers(-2, 3)
    nd = len(np.unique(x))
    p = [None, int(rng.integers(0, nd)), nd - 1, 0][int(rng.integers(4))] if kind < 4 else [None, None, nd - 1, int(rng.integers(0, min(nd, 8)))][int(rng.integers(4))]
    if p is None and nd < n:
        p = int(rng.integers(0, nd))
    q = n - 1 if p is None else p
    m = int(rng.integers(1, 6))
    lo, hi = float(x.min()), float(x.max())
    out = 1.5 if kind < 4 or n < 9 else 0.02
    t = rng.uniform(lo - out * (hi - lo) - 0.1 * (out > 1), hi + out * (hi - lo) + 0.1 * (out > 1), m)
    if rng.random() < 0.3:
        t = np.round(t).astype(int)
    if rng.random() < 0.15:             # far away
        t = t * 10.0**int(rng.integers(1, 7))
        if rng.random() < 0.6:
            t = np.round(t).astype(int)
    if rng.random() < 0.3:
        t = np.concatenate([t, x[:2]])
    m = len(t)
    X = np.vander(x.astype(float), q + 1, increasing=True)
    T = np.vander(t.astype(float), q + 1, increasing=True)
    kappa = np.linalg.cond(X)
    if not kappa < 1e10:
        mon.notes["ill-conditioned Vandermonde matrices skipped"] += 1
        return
    a, b = x.tolist() if rng.random() < 0.4 else x.copy(), t.tolist() if rng.random() < 0.4 else t.copy()
    if rng.random() < 0.3:
        f, g = gen.forms(x), gen.forms(t)
        a, b = f[int(rng.integers(len(f)))], g[int(rng.integers(len(g)))]
    P = mon.call("getExtrapolationMatrix", getExtrapolationMatrix, a, b, *([] if p is None and rng.random() < 0.7 else [p]))
    mon.check("arguments", core.identical(np.array(a), x) and core.identical(np.array(b), t), "getExtrapolationMatrix modified its arguments")
    mon.shape("shape", P, (m, n), "extrapolation matrix")
    fx, ft = [Fraction(float(v)) for v in x], [Fraction(float(v)) for v in t]
    if q == n - 1 and nd == n:          # interpolation
        ref = exact.Lagrange(x.astype(float)).values(t.astype(float))
    else:
        ref = np.array([[float(v) for v in r] for r in exact_lsq(fx, ft, q)])
    Xp = np.linalg.pinv(X)
    row = (np.abs(T) @ np.abs(Xp)).max(axis=1)
    tol = 200 * (n + 2) * U * kappa * row[:, None] + 1e-300
    mon.close("extrapolation", P, ref, tol, f"nodes {x} times {t} degree {q}")
    if rng.random() < 0.6:
        c = rng.normal(size=q + 1)
        val = X @ c
        mon.close("reproduces", P @ val, T @ c, tol[:, 0] * np.abs(val).sum() + 4 * (n + 2) * U * (row * (np.abs(X) @ np.abs(c)).sum() + np.abs(T) @ np.abs(c)), f"polynomial of degree {q} on {n} nodes")


def run_case(mon, case):
    rng = core.rng_of("C26", mon.seed, case)
    f = dict(order=run_order, ldu=run_ldu, extra=run_extra)[case["kind"]]
    for _ in range(case["reps"]):
        f(mon, rng)
    mon.sample(str(case))
