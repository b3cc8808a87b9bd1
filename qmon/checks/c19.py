"""C19: MIN-SR nilpotency."""
import numpy as np
from qmon import core

RULE = ("One case = one collocation configuration with the three MIN-SR approximations; non-trivial = traces of all powers of the sweep matrices compared with zero "
        "(nilpotency), product of the first FLEX sweep matrices compared with zero, diagonal examined.")
ROUNDS = dict(quick=3)
REQUIRED = {"non-stiff": 300, "stiff": 200, "flex-product": 200, "monotone": 200, "after": 800}
ASSUMPTIONS = ["nilpotency is judged by the traces of the powers, relative to those of the sum of the absolute values of its two parts, in extended precision",
               "MIN-SR-S: up to 14 nodes, equidistant 12 (beyond, convergence of the nonlinear solver depends on the last digits of Q)"]
LD = np.longdouble
U = 2.0**-53
NT = ["EQUID", "LEGENDRE", "CHEBY-1", "CHEBY-2", "CHEBY-3", "CHEBY-4"]
QT = ["GAUSS", "RADAU-LEFT", "RADAU-RIGHT", "LOBATTO"]


def cases(tier, seed):
    rng = core.rng_of("C19", tier, seed)
    for n in range(1, 21 if tier == "quick" else 33):
        for nt in NT:
            for qt in QT:
                if n == 1 and qt in ("LOBATTO", "RADAU-LEFT"):
                    continue
                yield dict(kind="coll", cfg=(n, nt, qt), w=float(10.0**rng.uniform(-4, 4)), flip=int(rng.integers(2)))


def cost(c):
    return c["cfg"][0] ** 2


def traces(A0, B0):
    """Worst |tr K^j| relative to tr (|A|+|B|)^j, j = 1..n, for K = A - B."""
    n = len(A0)
    K = A0.astype(LD) - B0.astype(LD)
    S = np.abs(A0).astype(LD) + np.abs(B0).astype(LD)
    P, A = np.eye(n, dtype=LD), np.eye(n, dtype=LD)
    worst = 0.0
    for _ in range(n):
        P, A = P @ K, A @ S
        t = np.trace(A)
        if t > 0:
            worst = max(worst, float(abs(np.trace(P)) / t))
    return worst


def run_case(mon, case):
    from qmat import QDELTA_GENERATORS, genQDeltaCoeffs, Q_GENERATORS
    cfg = tuple(case["cfg"])
    n, nt, qt = cfg
    name = str(cfg)
    coll = Q_GENERATORS["Collocation"](*cfg)
    Q, x = np.array(coll.Q), np.array(coll.nodes)
    s = 1 if qt in ("LOBATTO", "RADAU-LEFT") else 0
    ways = [dict(qGen=coll), dict(nNodes=n, nodeType=nt, quadType=qt)]
    kw = ways[case["flip"]]

    # non-stiff, on the unit interval and on [0, w]
    D = mon.call("MIN-SR-NS", genQDeltaCoeffs, "MIN-SR-NS", **(dict(qGen=coll) if case["flip"] else dict(nodes=coll.nodes)))
    mon.shape("shape", D, (n, n), name)
    leb = np.abs(Q).sum(axis=1).max()
    tol = 200 * U * n * (1 + n * leb) + (0 if nt != "EQUID" else U * 3.0**n)
    mon.check("diagonal", not (D - np.diag(np.diag(D))).any(), f"MIN-SR-NS {name}: not diagonal")
    if tol < 1e-4:
        t = traces(Q, D)
        mon.check("non-stiff", t <= tol, f"MIN-SR-NS {name}: non-stiff sweep matrix is not nilpotent (trace {t:.2e}, bound {tol:.1e})")
        cw = Q_GENERATORS["Collocation"](*cfg, 0, case["w"])
        Dw = mon.call("MIN-SR-NS", genQDeltaCoeffs, "MIN_SR_NS", qGen=cw)
        t = traces(np.array(cw.Q), Dw)
        mon.check("non-stiff", t <= tol, f"MIN-SR-NS {name} on [0, {case['w']}]: non-stiff sweep matrix is not nilpotent (trace {t:.2e}, bound {tol:.1e})")

    if n <= (12 if nt == "EQUID" else 14):
        gen = mon.call("MIN-SR-S", QDELTA_GENERATORS["MIN-SR-S"], **kw)
        D = mon.call("MIN-SR-S", gen.getQDelta)
        mon.shape("shape", D, (n, n), name)
        d = np.diag(D)
        mon.check("diagonal", not (D - np.diag(d)).any() and np.isfinite(d).all(), f"MIN-SR-S {name}: not a finite diagonal")
        mon.check("monotone", (s == 0 or d[0] == 0) and (d[s:] > 0).all() and (np.diff(d) > 0).all(), f"MIN-SR-S {name}: diagonal not positive increasing: {d}")
        t = traces(np.eye(n - s), (Q[s:, s:].T / d[s:]).T) if n > s else 0.0
        tol = 1e-12 * 2.0**n
        mon.check("stiff", t <= tol, f"MIN-SR-S {name}: stiff sweep matrix is not nilpotent (trace {t:.2e}, bound {tol:.1e})")
        if n <= 8:
            # public helper, for smaller node counts of the same family
            for m in range(1 + s, n + 1):
                c, y = mon.call("computeCoeffs", gen.computeCoeffs, m)
                sub = Q_GENERATORS["Collocation"](m, nt, qt)
                mon.close("coeffs-nodes", y, np.array(sub.nodes), 8 * U, f"computeCoeffs({m}) of {name}: nodes")
                mon.shape("shape", c, (m,), name)
            if n > 1:
                a, b = 0.3 + n / 7, 0.8 + n / 11
                ab = mon.call("fit", gen.fit, a * x**b, x)
                mon.close("power-law", np.asarray(ab), np.array([a, b]), 5e-3, f"fit of an exact power law ({name})") if n - s > 1 else None
        mon.same("zero-dTau", gen.dTau, np.zeros(n), f"{name}: dTau")

    if n <= 14:
        gen = mon.call("MIN-SR-FLEX", QDELTA_GENERATORS["MIN-SR-FLEX"], **kw)
        P = np.eye(n - s, dtype=LD)
        B = np.eye(n - s)
        Qs = Q[s:, s:].astype(LD)
        mats = mon.call("MIN-SR-FLEX", gen.genCoeffs, k=list(range(1, n + 1)))
        mon.shape("shape", mats, (n, n, n), name)
        err = np.zeros((n - s, n - s))
        for k in range(n):
            d = np.diag(mats[k])[s:].astype(LD)
            R = np.abs(Q[s:, s:]) / np.abs(d.astype(float))[:, None]
            K = np.eye(n - s) - Qs / d[:, None]
            # running bound: every entry of Q carries an absolute error of eps * Lebesgue-like size of its row
            dK = 8 * U * (n + 4) * (R.sum(axis=1)[:, None] * np.ones((1, n - s)) + np.eye(n - s))
            err = np.abs(K).astype(float) @ err + dK @ np.abs(P).astype(float)
            P = K @ P
        mon.close("flex-product", P.astype(float), np.zeros((n - s, n - s)), 4 * err + 1e-300, f"MIN-SR-FLEX {name}: product of the stiff sweep matrices") if n > s else None
        mon.check("flex-informative", n > 10 or n == s or err.max() < 1e-3, f"MIN-SR-FLEX {name}: bound too large to decide ({err.max():.1e})") if n > s and n <= 6 else None
        # afterwards: MIN-SR-S
        later = [n + 1, n + 2, n + 3 + int(core.rng_of("C19-later", mon.seed, case).integers(200))]
        for how in range(2):
            if how == 0:
                After = mon.call("MIN-SR-FLEX", QDELTA_GENERATORS["MIN-SR-FLEX"], **kw).genCoeffs(k=later)
            else:
                After = mon.call("MIN-SR-FLEX", genQDeltaCoeffs, "MIN_SR_FLEX", nSweeps=n + 2, **kw)[-2:]
            for k, A in zip(later, After):
                mon.check("after", not (A - np.diag(np.diag(A))).any(), f"MIN-SR-FLEX {name}: not diagonal for k={k}")
                if n <= (12 if nt == "EQUID" else 14):
                    mon.close("after", np.diag(A), np.diag(D), 1e-8, f"MIN-SR-FLEX {name}: coefficients for k={k} are not those of MIN-SR-S")
                    a = np.diag(A)
                    t = traces(np.eye(n - s), (Q[s:, s:].T / a[s:]).T) if n > s and (a[s:] != 0).all() else 0.0
                    mon.check("after", (s == n or (a[s:] != 0).all()) and t <= 1e-12 * 2.0**n, f"MIN-SR-FLEX {name}: stiff sweep matrix for k={k} is not nilpotent (trace {t:.2e})")
    mon.sample(dict(case=case))
