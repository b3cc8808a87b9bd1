"""C23: Dahlquist solver and its error helper."""
import numpy as np
from qmon import core

RULE = ("One case = one generator with random (lambda, u0, tEnd, nSteps, weights) problems; non-trivial = every one of the nSteps+1 values compared with u0 R(z)^i, R(z) evaluated from the "
        "coefficients in extended precision with a running error bound.")
ROUNDS = dict(quick=8)
REQUIRED = {"values": 3000, "embedded": 300, "error": 2000, "supplied": 1000, "rejects": 20}
ASSUMPTIONS = ["problems whose stage matrix has a condition number above 1e10 are skipped", "coefficients themselves are decided by C09 and C11"]
U = 2.0**-53
LD, CLD = np.longdouble, np.clongdouble
NT = ["EQUID", "LEGENDRE", "CHEBY-1", "CHEBY-2", "CHEBY-3", "CHEBY-4"]
QT = ["GAUSS", "RADAU-LEFT", "RADAU-RIGHT", "LOBATTO"]


def cases(tier, seed):
    from qmat.qcoeff.butcher import RK_SCHEMES
    rng = core.rng_of("C23", tier, seed)
    reps = 16 if tier == "quick" else 120
    for name in sorted(RK_SCHEMES):
        for pad in (None, "LEFT", "RIGHT", "BOTH"):
            yield dict(kind="rk", name=name, pad=pad, reps=reps)
    for n in range(1, 9 if tier == "quick" else 15):
        for nt in NT:
            for qt in QT:
                if n == 1 and qt in ("LOBATTO", "RADAU-LEFT"):
                    continue
                iv = None if rng.random() < 0.7 else (float(rng.normal()), 0.0)
                yield dict(kind="coll", cfg=(n, nt, qt), iv=iv and (iv[0], iv[0] + float(10.0**rng.uniform(-1, 1))), reps=reps)
    for i in range(40 if tier == "quick" else 600):
        yield dict(kind="user", i=i, reps=reps)
    # collocation on tiny, huge and remote intervals
    for i in range(24 if tier == "quick" else 300):
        n, L = int(rng.integers(1, 7)), float(10.0 ** rng.uniform(-14, 14))
        a = float(rng.choice([0.0, 1.0, -3.0]) * L)
        yield dict(kind="coll", cfg=(n, NT[i % 6], QT[(i // 6) % 4 if n > 1 else [0, 2][i % 2]]), iv=(a, a + L), reps=reps)


def solve(M, b):
    """Gaussian elimination with row pivoting in extended precision."""
    M, b = M.astype(CLD).copy(), b.astype(CLD).copy()
    n = len(b)
    for i in range(n):
        p = i + int(np.argmax(np.abs(M[i:, i])))
        if p != i:
            M[[i, p]] = M[[p, i]]; b[[i, p]] = b[[p, i]]
        f = M[i + 1:, i] / M[i, i]
        M[i + 1:] -= f[:, None] * M[i]
        b[i + 1:] -= f * b[i]
    for i in range(n - 1, -1, -1):
        b[i] = (b[i] - M[i, i + 1:] @ b[i + 1:]) / M[i, i]
    return b


def generator(case, rng):
    from qmat.qcoeff import Q_GENERATORS, QGenerator
    if case["kind"] == "rk":
        return Q_GENERATORS[case["name"]](padding=case["pad"])
    if case["kind"] == "coll":
        return Q_GENERATORS["Collocation"](*case["cfg"], *(case["iv"] or ()))
    n = int(rng.integers(1, 6))
    A, b, b2 = rng.normal(size=(n, n)) * 0.5, rng.normal(size=n), rng.normal(size=n)
    # structures a solver could special-case: triangular, nearly triangular, diagonal, zero rows, tiny or huge entries
    how = ["full", "lower", "strict", "diagonal", "nearly-strict", "nearly-diagonal", "zero-row", "upper", "zero", "nearly-lower"][case["i"] % 10]
    small = 10.0 ** rng.uniform(-13, -7)
    if how in ("lower", "nearly-lower"):
        A = np.tril(A) + (small * np.triu(A, 1) if how != "lower" else 0)
    elif how in ("strict", "nearly-strict"):
        A = np.tril(A, -1) + (small * np.triu(A) if how != "strict" else 0)
    elif how in ("diagonal", "nearly-diagonal"):
        A = np.diag(np.diag(A)) + (small * A if how != "diagonal" else 0)
    elif how == "zero-row":
        A[rng.integers(n)] = 0
    elif how == "upper":
        A = np.triu(A)
    elif how == "zero":
        A = A * 0
    sc = [1.0, 1.0, 10.0 ** rng.uniform(-12, 0), 10.0 ** rng.uniform(0, 9)][int(rng.integers(4))]
    A, b, b2 = A * sc, b * sc, b2 * sc
    if rng.random() < 0.3:
        b = A[-1].copy()                       # stiffly accurate

    class Mine(QGenerator):
        nodes = property(lambda s: A.sum(axis=1))
        Q = property(lambda s: A)
        weights = property(lambda s: b)
        weightsEmbedded = property(lambda s: b2)
        order = property(lambda s: 1)
    return Mine()


def supplied(rng, ns, u, ex):
    """A solution given by the caller: arbitrary, or one that looks special."""
    k = int(rng.integers(10))
    v = rng.normal(size=ns + 1)
    if k < 5:
        return [v, v + 1j * rng.normal(size=ns + 1), 1j * v, np.round(3 * v).astype(int), v.astype(complex)][k]
    return [np.zeros(ns + 1), np.zeros(ns + 1, dtype=complex), np.full(ns + 1, -1.5), np.asarray(u).copy(), np.asarray(ex).astype(complex)][k - 5]


def run_case(mon, case):
    rng = core.rng_of("C23", mon.seed, case)
    g = mon.call("generator", generator, case, rng)
    name = str({k: v for k, v in case.items() if k != "reps"})
    Q, b = np.array(g.Q, dtype=float), np.array(g.weights, dtype=float)
    n = len(Q)
    try:
        b2 = np.array(g.weightsEmbedded, dtype=float)
    except NotImplementedError:
        b2 = None
        mon.rejects("solveDahlquist", NotImplementedError, g.solveDahlquist, 1j, 1.0, 1.0, 2, useEmbeddedWeights=True)
        mon.rejects("errorDahlquist", NotImplementedError, g.errorDahlquist, 1j, 1.0, 1.0, 2, useEmbeddedWeights=True)
    for rep in range(case["reps"]):
        kind = int(rng.integers(6))
        T = [1.0, 2, float(10.0**rng.uniform(-3, 2)), 0.1, float(10.0**rng.uniform(-60, 60))][int(rng.integers(5 if rep % 2 else 4))]
        if rep % 5 == 3:
            T = -T                                     # backward in time
        ns = int([1, 2, 3, 7, rng.integers(4, 40), 100, [255, 256, 257, 513, 1000, 1025][int(rng.integers(6))] if rep % 8 == 5 else 10][int(rng.integers(7))])
        z = [1j * rng.normal(), rng.normal(), rng.normal() + 1j * rng.normal(), -10.0**rng.uniform(0, 3), 0.0, -5 + 20j * rng.normal()][kind]
        if rep % 4 == 3:
            z = z / (np.abs(Q).max() or 1.0)            # lambda dt Q of order one whatever the scale of the coefficients
        lam = z * ns / T if rep % 2 else z
        if kind == 1 and rng.random() < 0.3:
            lam = int(rng.integers(-3, 4))
        u0 = [1, 1.0, -2.5, complex(rng.normal(), rng.normal()), 0.0, 1e-8, 3e5 + 1j, 1e-150j, 1e120][int(rng.integers(9))]
        emb = b2 is not None and rng.random() < 0.4
        w = b2 if emb else b
        kw = dict(useEmbeddedWeights=True) if emb else (dict(useEmbeddedWeights=False) if rng.random() < 0.3 else {})
        zz = CLD(lam) * (LD(T) / LD(ns))
        M = np.eye(n) - complex(zz) * Q
        # entries of 1 - z Q are known to u (1 + |z Q|): condition with respect to them
        with np.errstate(all="ignore"):
            kappa = np.linalg.cond(M, np.inf)
            if kappa < 1e10:
                kappa = np.linalg.norm(np.linalg.inv(M), np.inf) * np.linalg.norm(np.eye(n) + abs(complex(zz)) * np.abs(Q), np.inf)
        if not kappa < 1e10:
            mon.notes["ill-conditioned stage problems skipped"] += 1
            continue
        s = solve(np.eye(n) - zz * Q.astype(LD), np.ones(n, dtype=LD))
        R = 1 + zz * (w.astype(LD) @ s)
        aR = float(abs(R))
        delta = abs(complex(zz)) * np.abs(w).sum() * float(np.abs(s).max()) * (30 * (n + 2) * U * kappa) + 8 * U * (1 + aR)
        # stage values may fall below the smallest normal number: absolute error of one unit there, amplified by z w
        eta = 5e-324 * 40 * (n + 2) * kappa * (1 + abs(complex(zz)) * np.abs(w).sum() * max(1.0, float(np.abs(s).max())))
        ref = np.empty(ns + 1, dtype=CLD); tol = np.empty(ns + 1)
        ref[0], tol[0] = u0, 0
        for i in range(ns):
            ref[i + 1] = ref[i] * R
            tol[i + 1] = aR * tol[i] + delta * (float(abs(ref[i])) + tol[i]) + eta
        with np.errstate(all="ignore"):
            big = np.abs(ref).astype(float) * max(1.0, float(np.abs(s).max())) * max(1.0, abs(complex(zz)) * max(1.0, np.abs(w).sum(), np.abs(Q).max()))
        over = not np.isfinite(tol).all() or not (big < 1e280).all()
        u = mon.call_unless(over, "solveDahlquist", g.solveDahlquist, lam, u0, T, ns, **kw)
        if u is None:
            continue
        what = f"{name} lam={lam} u0={u0} tEnd={T} nSteps={ns} embedded={emb}"
        mon.shape("shape", u, (ns + 1,), what)
        mon.check("initial", u[0] == u0, f"{what}: starts with {u[0]}")
        ok = np.isfinite(ref.astype(complex)) & np.isfinite(tol) & (np.abs(ref) < 1e280)
        mon.close("embedded" if emb else "values", u[ok], ref[ok].astype(complex), tol[ok] + 1e-300, what)
        if emb:
            mon.oracles["values"] += 1
        mon.notes["bounds below 1e-9 relative"] += bool(delta < 1e-9 * max(1, aR))
        # error helper
        t = np.linspace(0, T, ns + 1)
        ex = CLD(u0) * np.exp(CLD(lam) * t.astype(LD))
        lt = 8 * U * (2 + np.abs(lam) * np.abs(t))
        over = over or not (np.abs(ex) < 1e280).all()
        for which in range(2):
            if which == 0:
                v = u
                e = mon.call_unless(over, "errorDahlquist", g.errorDahlquist, lam, u0, T, ns, **kw)
            else:
                v = supplied(rng, ns, u, ex)
                arg = v.copy()
                e = mon.call_unless(over, "errorDahlquist", g.errorDahlquist, lam, u0, T, ns, **({"uNum": arg} if rep % 3 else {"uNum": arg, **kw}))
                mon.same("arguments", arg, v, f"{what}: supplied solution modified")
            if e is None:
                continue
            with np.errstate(all="ignore"):
                dev = np.abs(v - ex).astype(float)
                b_ = float((lt * np.abs(ex).astype(float) + 4 * U * np.abs(v)).max())
            if not np.isfinite(dev).all() or not np.isfinite(b_) or np.real(lam) * T > 700:
                mon.notes["overflowing exact solutions skipped"] += 1
                continue
            mon.close("supplied" if which else "error", np.asarray(e), dev.max(), 4 * b_ + 1e-300, f"{what}: error {'of a supplied solution' if which else ''}")
    mon.sample(name)
