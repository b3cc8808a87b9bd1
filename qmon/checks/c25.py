"""C25: predicted SDC order against the Taylor coefficients of the observed SDC step."""
import math
import numpy as np
from qmon import core
from qmon.checks.c23 import NT, QT

RULE = ("One case = one collocation configuration and approximation; non-trivial = for every sweep count and step update, the Taylor coefficients in lambda dt of the observed SDC step (contour "
        "samples of the real solver) compared with those of the exponential, and the resulting order with the predicted one.")
REQUIRED = {"never-overstated": 3000, "attained": 2000, "contour": 3000}
ASSUMPTIONS = ["last-node update is considered only when the last node is the end of the step", "a Taylor coefficient deviating by less than the (evaluated) contour error counts as attained"]
U = 2.0**-53
TYPES = ["BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE"]
OTHER = ["LU", "LU2", "GS", "PIC", "MIN-SR-NS", "MIN-SR-S", "MIN-SR-FLEX", "DNODES", "Jumper", "QPar", "VDHS", "LDU"]


def cases(tier, seed):
    top = 7 if tier == "quick" else 11
    for n in range(1, top):
        for nt in NT:
            for qt in QT:
                if n == 1 and qt in ("LOBATTO", "RADAU-LEFT"):
                    continue
                for qd in TYPES + (OTHER if n < 5 or tier != "quick" else []):
                    yield dict(cfg=(n, nt, qt), qd=qd, sweeps=2 * n + 2 if n < 7 else n + 2)


def taylor(f, r, N):
    """Taylor coefficients of f from N samples on |z| = r, and the error bound of each."""
    th = 2j * np.pi * np.arange(N) / N
    v = np.array([f(r * np.exp(t)) for t in th[:N // 2 + 1]])
    v = np.concatenate([v, v[1:N // 2][::-1].conj()])   # real coefficients
    c = np.fft.fft(v) / N
    j = np.arange(N)
    return (c / r**j), np.abs(v).max()


def run_case(mon, case):
    from qmat.utils.sdc import getOrderSDC, solveDahlquistSDC
    from qmat import Q_GENERATORS, QDELTA_GENERATORS
    n, nt, qt = case["cfg"]
    qd = case["qd"]
    coll = Q_GENERATORS["Collocation"](n, nt, qt)
    try:
        g = QDELTA_GENERATORS[qd](qGen=coll)
        QDs = [np.array(g.getQDelta(k + 1)) for k in range(case["sweeps"])]
    except NotImplementedError:
        mon.notes["approximation not available for the configuration"] += 1
        return
    if not all(np.isfinite(q).all() for q in QDs):
        return
    for upd in ("QUADRATURE", "LASTNODE"):
        if upd == "LASTNODE" and qt not in ("LOBATTO", "RADAU-RIGHT"):
            continue
        w = coll.weights if upd == "QUADRATURE" else None
        for k in range(0, case["sweeps"] + 1):
            what = f"{case['cfg']} {qd} {upd} nSweeps={k}"
            pred = mon.call("getOrderSDC", getOrderSDC, coll, k, qd, upd)
            if not mon.check("shape", isinstance(pred, (int, np.integer)) and pred >= 0, f"{what}: predicted {pred!r}"):
                continue
            rho = max([1e-2] + [np.abs(np.linalg.eigvals(q)).max() for q in QDs[:k]])
            r = min(1.0, 0.4 / max(rho, 0.3))
            N = 64
            D = np.array(QDs[:k]) if k else QDs[0]
            c, mx = taylor(lambda z: mon.call("solveDahlquistSDC", solveDahlquistSDC, z, 1.0, 1.0, 1, k, coll.Q, D, weights=w)[1], r, N)
            # aliasing: series coefficients decay like rho^j
            j = np.arange(min(N, pred + 6))
            tol = 200 * (n + 2) * (k + 1) * U * mx / r**j
            mon.oracles["contour"] += 1
            err = np.array([abs(c[i] - 1 / math.factorial(i)) for i in j])
            bad = np.flatnonzero(err[:pred + 1] > np.maximum(tol[:pred + 1], 1e-11))
            over = len(bad) > 0
            mon.check("never-overstated", not over, f"{what}: predicted order {pred}, but Taylor coefficient {bad[0] if over else ''} is off by {err[bad[0]] if over else 0:.2e}",
                      key=f"overstated:{n},{nt},{qt},{qd},{upd},{k}:{pred}>{bad[0] - 1 if over else ''}", predicted=pred)
            if qd in TYPES and n in (2, 3, 4) and pred + 1 < len(err) and not over:
                # exactly attained, i.e. not a higher order either
                if tol[pred + 1] < 1e-10:
                    mon.check("attained", err[pred + 1] > max(tol[pred + 1], 1e-12), f"{what}: predicted order {pred}, but Taylor coefficient {pred + 1} agrees too ({err[pred + 1]:.1e})")
            elif qd in TYPES:
                # at least the basic order: one per sweep (two for the first trapezoidal one), capped by the collocation order
                base = (0 if k == 0 else (2 if qd in ("TRAP", "TRAPAR") and not (n == 1) else 1) + k - 1) + (upd == "QUADRATURE")
                mon.check("attained", pred >= min(coll.order, base), f"{what}: predicted order {pred} below {min(coll.order, base)}")
    mon.sample(str(case))
