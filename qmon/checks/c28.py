"""C28: documented stability of the methods (A-, L-stability, symmetry, algebraic stability, SSP), observed through the Dahlquist solver."""
import numpy as np
from qmon import core
from qmon.checks.c23 import NT

RULE = ("One case = one method; non-trivial = one step of the real Dahlquist solver for every sampled point of the imaginary axis (thousands, dense around the modulus maxima) and of the far left "
        "half-plane, checked against the documented stability, plus the algebraic stability matrix of the generated coefficients.")
ROUNDS = dict(quick=4)
REQUIRED = {"A-stable": 60, "L-stable": 20, "stiffly-accurate": 10, "conservative": 60, "algebraic": 30, "poles": 60}
ASSUMPTIONS = ["documented means stated by the name or docstring of the scheme at the pinned commit (table below), or classical for the collocation family",
               "A-stability is decided on a dense sample of the imaginary axis refined around the largest moduli, not proved between samples"]
U = 2.0**-53

# documented claims: A-stable, L-stable (R(infinity) = 0), stiffly accurate (last row = weights), conservative (|R(iy)| = 1), embedded weights A-stable
CLAIMS = {
    "BE": "ALS", "MidPoint": "AC", "TRAP": "AC", "SDIRK2": "ALS", "SDIRK2_2": "ALS", "SDIRK3": "ALS", "DIRK43": "ALS", "GAUSS_LG": "AC", "SDIRK54": "ALS", "EDIRK43": "AE", "EDIRK4": "AS",
    "ESDIRK43": "ALSE", "ESDIRK53": "ALSE", "ARK548L2SAESDIRK": "ALS", "ARK548L2SAESDIRK2": "ALS", "ARK324L2SAESDIRK": "ALS", "ARK222EDIRK": "ALS", "ARK443ESDIRK": "ALS", "ARK343ESDIRK": "ALS",
    "ARK4EDIRK": "AS",
}
SSP = {"RK33-SSP": 1.0, "RK32-SSP": 1e-3, "HEUN2": 1.0}    # at least this radius of absolute monotonicity


def cases(tier, seed):
    for n in CLAIMS:
        yield dict(kind="rk", name=n, pad=None)
        yield dict(kind="rk", name=n, pad="LEFT")
    for n in SSP:
        yield dict(kind="ssp", name=n)
    for n in range(1, 13 if tier == "quick" else 26):
        for nt in NT:
            for qt in ("GAUSS", "LOBATTO", "RADAU-RIGHT"):
                if n == 1 and qt == "LOBATTO":
                    continue
                yield dict(kind="coll", cfg=(n, nt, qt))


def cost(c):
    return 1.0 if c["kind"] != "coll" else 0.3 + c["cfg"][0] / 10


def run_case(mon, case):
    from qmat import Q_GENERATORS
    rng = core.rng_of("C28", mon.seed, case)
    if case["kind"] == "ssp":
        g = mon.call("generator", Q_GENERATORS[case["name"]])
        rad = monotonicity(np.array(g.Q), np.array(g.weights))
        mon.check("SSP", rad >= SSP[case["name"]] * (1 - 1e-9), f"{case['name']}: radius of absolute monotonicity {rad:.3g}", key=f"ssp:{case['name']}:{rad:.2g}")
        return
    if case["kind"] == "rk":
        g = mon.call("generator", Q_GENERATORS[case["name"]], padding=case["pad"])
        claims, name = CLAIMS[case["name"]], f"{case['name']} padding={case['pad']}"
        embedded = [False] + ([True] if "E" in claims else [])
    else:
        n, nt, qt = case["cfg"]
        g = mon.call("generator", Q_GENERATORS["Collocation"], *case["cfg"])
        name, embedded = str(case["cfg"]), [False]
        claims = ""
        if nt == "LEGENDRE":
            claims += "A" + ("LSB" if qt == "RADAU-RIGHT" else "CB" if qt == "GAUSS" else "CS")
        elif nt in ("EQUID", "CHEBY-1", "CHEBY-2") and qt in ("GAUSS", "LOBATTO"):
            claims += "C"
        if qt in ("RADAU-RIGHT", "LOBATTO") and "S" not in claims:
            claims += "S"
    Q, b = np.array(g.Q, dtype=float), np.array(g.weights, dtype=float)
    M = len(Q)
    if "S" in claims:
        mon.close("stiffly-accurate", Q[-1], b, 4 * M * U * (1 + np.abs(b).max()), f"{name}: last row against the weights")
    if "B" in claims:
        B = np.diag(b)
        S = B @ Q + Q.T @ B - np.outer(b, b)
        mon.check("algebraic", (b > 0).all() and np.linalg.eigvalsh((S + S.T) / 2).min() >= -50 * M * U, f"{name}: not algebraically stable")
        if "C" in claims:
            mon.close("algebraic", S, np.zeros((M, M)), 50 * M * U, f"{name}: symplecticity")
    ev = np.linalg.eigvals(Q)
    if "A" in claims:
        tol = 0 if M < 3 else 1e-9
        mon.check("poles", ev.real.min() >= -tol - 1e-7 * (np.abs(ev).min() < 1e-6), f"{name}: eigenvalues {ev} outside of the right half-plane")

    for emb in embedded:
        def R(z):
            return mon.call("solveDahlquist", g.solveDahlquist, complex(z), 1.0, 1.0, 1, **(dict(useEmbeddedWeights=True) if emb else {}))[1]

        def bound(z):
            P = np.eye(M) - z * Q
            s = np.linalg.solve(P, np.ones(M))
            return 60 * (M + 2) * U * (1 + np.linalg.cond(P, np.inf) * abs(z) * np.abs(b).sum() * max(1.0, np.abs(s).max()))
        y = np.concatenate([[0.0], 10.0**np.linspace(-3, 5, 120 if mon.quick else 600), rng.uniform(0, 30 * M, 60 if mon.quick else 300)])
        v = np.array([abs(R(1j * t)) for t in y])
        if "A" in claims and "C" not in claims:
            # refine around the largest moduli away from zero
            for i in np.argsort(np.where(y < 0.3, 0, v))[-4:]:
                extra = y[i] * (1 + np.linspace(-0.05, 0.05, 9))
                y = np.concatenate([y, extra]); v = np.concatenate([v, [abs(R(1j * t)) for t in extra]])
        tol = np.array([bound(1j * t) for t in y])
        use = tol < 1e-4
        mon.notes["axis samples decided"] += int(use.sum())
        if "A" in claims:
            mon.check("A-stable", (v[use] <= 1 + tol[use]).all(), f"{name} embedded={emb}: |R(iy)| = {v[use].max()} at y = {y[use][v[use].argmax()]}")
            zs = -10.0**rng.uniform(-2, 4, 40) * np.exp(1j * rng.uniform(-1.5, 1.5, 40))
            w = np.array([abs(R(z)) for z in zs]); tw = np.array([bound(z) for z in zs]); u2 = tw < 1e-4
            mon.check("A-stable", (w[u2] <= 1 + tw[u2]).all(), f"{name} embedded={emb}: |R(z)| = {w[u2].max() if u2.any() else 0} in the left half-plane")
        if "C" in claims and not emb:
            mon.close("conservative", v[use], np.ones(use.sum()), tol[use], f"{name}: modulus on the imaginary axis")
        if "L" in claims and not emb:
            r = np.array([abs(R(-10.0**e)) for e in (4, 5, 6)])
            mon.check("L-stable", r[2] < 1e-3 and r[0] < 0.05 and r[2] <= r[0] / 10 + 1e-6, f"{name}: |R| = {r} for z = -1e4, -1e5, -1e6")
    mon.sample(name)


def monotonicity(A, b):
    n = len(b)
    K = np.zeros((n + 1, n + 1)); K[:n, :n] = A; K[n, :n] = b

    def ok(r):
        try:
            X = K @ np.linalg.inv(np.eye(n + 1) + r * K)
        except np.linalg.LinAlgError:
            return False
        return (X >= -1e-13).all() and (r * X.sum(axis=1) <= 1 + 1e-13).all()
    if not ok(0):
        return 0.0
    lo, hi = 0.0, 8.0
    for _ in range(60):
        m = (lo + hi) / 2
        lo, hi = (m, hi) if ok(m) else (lo, m)
    return lo if lo > 1e-9 else 0.0
