"""C17: algebraic approximations."""
import json, os
import numpy as np
from qmon import core

RULE = ("One case = one base matrix (collocation on any interval, Runge-Kutta table, random) and all algebraic approximations; non-trivial = every approximation compared with "
        "its definition; the LU factor through the unit upper triangular shape of its preconditioned matrix in extended precision.")
ROUNDS = dict(quick=12)
REQUIRED = {"Picard": 200, "Exact": 200, "diagonal": 200, "lower": 200, "LU-upper": 200, "LDU": 100, "unmodified": 500, "nilpotent": 50}
ASSUMPTIONS = ["LU / LDU: matrices whose leading minors are non-zero after removing a zero first row (collocation starting at the left bound); LDU needs all of them",
               "backward error of elimination bounded by 40 n u |L||U|"]
U = 2.0**-53
LD = np.longdouble
NT = ["EQUID", "LEGENDRE", "CHEBY-1", "CHEBY-2", "CHEBY-3", "CHEBY-4"]
QT = ["GAUSS", "RADAU-LEFT", "RADAU-RIGHT", "LOBATTO"]


def cases(tier, seed):
    rng = core.rng_of("C17", tier, seed)
    with open(os.path.join(core.VERIF, "ref", "rk_tables.json")) as f:
        for name in json.load(f):
            yield dict(kind="rk", name=name)
    for n in range(1, 13 if tier == "quick" else 21):
        for nt in NT:
            for qt in QT:
                if n == 1 and qt in ("LOBATTO", "RADAU-LEFT"):
                    continue
                a, w = float(rng.normal()), float(10.0**rng.uniform(-6, 6))
                yield dict(kind="coll", cfg=(n, nt, qt), iv=[None, (a, a + w)][int(rng.integers(2))])
    for k in range(250 if tier == "quick" else 4000):
        yield dict(kind="random", n=int(rng.integers(1, 12)), how=str(rng.choice(["dense", "dominant", "lower", "sparse", "spd", "integer", "small", "upper"])), k=k)


    sizes = [13, 16, 17, 24, 31, 32, 33, 34, 40, 48, 50, 63, 64, 65, 66, 80, 100, 128, 129]
    for n in rng.choice(sizes, 5, replace=False).tolist() if tier == "quick" else sizes + [150, 199, 200, 201, 255, 256, 257]:
        for how in ("dominant", "product", "spd", "lower"):
            yield dict(kind="random", n=n, how=how, k=n)
    for k in range(60 if tier == "quick" else 600):
        yield dict(kind="random", n=int(rng.integers(2, 50)), how="product", k=k)


def cost(c):
    return 1 + c.get("n", 5) ** 2 / 50


def matrix(case, rng):
    from qmat.qcoeff import Q_GENERATORS
    if case["kind"] == "rk":
        g = Q_GENERATORS[case["name"]]()
        return np.array(g.Q, dtype=float), g
    if case["kind"] == "coll":
        g = Q_GENERATORS["Collocation"](*case["cfg"], *(case["iv"] or ()))
        return np.array(g.Q, dtype=float), g
    n, how = case["n"], case["how"]
    A = rng.normal(size=(n, n))
    if how == "dominant":
        A += 2 * n * np.eye(n)
    elif how == "product":           # pivoting would permute rows, although the factorization without is harmless
        V = np.eye(n)
        i = rng.permutation(n)
        for a, b in zip(i[: n // 2], i[n // 2:]):
            V[min(a, b), max(a, b)] = rng.choice([-1, 1]) * rng.uniform(1.5, 6)
        A = (np.diag(rng.choice([-1, 1], n) * rng.uniform(0.5, 2, n)) + np.tril(A, -1) * 0.3 / n) @ V
    elif how == "lower":
        A = np.tril(A) if n < 13 else np.tril(A, -1) / n + np.diag(rng.choice([-1, 1], n) * rng.uniform(0.5, 2, n))
    elif how == "upper":
        A = np.triu(A)
    elif how == "sparse":
        A = A * (rng.random((n, n)) < 0.4) + np.diag(rng.uniform(0.5, 1, n))
    elif how == "spd":
        A = A @ A.T + np.eye(n)
    elif how == "integer":
        A = rng.integers(-3, 4, (n, n)) + 4 * n * np.eye(n, dtype=int)
    elif how == "small":
        A = A * 10.0**rng.uniform(-90, 90)
    return A, None


def run_case(mon, case):
    from qmat import QDELTA_GENERATORS, genQDeltaCoeffs
    rng = core.rng_of("C17", mon.seed, case)
    A, g = matrix(case, rng)
    n = len(A)
    name = str(case)
    Af = A.astype(float)
    ways = ["array", "list", "qGen"][: 3 if g is not None else 2]
    way = ways[int(rng.integers(len(ways)))]
    keep = A.copy()
    arg = A if way != "list" else A.tolist()

    def build(key):
        out = mon.call("generator", QDELTA_GENERATORS[key], **(dict(qGen=g) if way == "qGen" else dict(Q=arg)))
        M = mon.call("getQDelta", out.getQDelta)
        mon.shape("shape", M, (n, n), f"{key} {name}")
        M2 = mon.call("genQDeltaCoeffs", genQDeltaCoeffs, key, **(dict(qGen=g) if way == "qGen" else dict(Q=arg)))
        mon.same("generic", M2, M, f"{key} {name}: generic function")
        M3 = mon.call("getQDelta", out.getQDelta, 3)
        mon.same("iterations", M3, M, f"{key} {name}: iteration 3")
        mon.check("size", out.size == n, f"{key} {name}: size")
        now = np.array(g.Q if way == "qGen" else arg)
        mon.same("unmodified", now, keep, f"{key} {name}: base matrix modified")
        mon.same("zero-dTau", out.dTau, np.zeros(n), f"{key} {name}: dTau")
        return M

    for k in ("PIC", "Picard"):
        mon.same("Picard", build(k), np.zeros((n, n)), f"{k} {name}")
    for k in ("Exact", "EXACT"):
        mon.same("Exact", build(k), Af, f"{k} {name}")
    for k in ("QPar", "Qpar", "Qdiag"):
        mon.same("diagonal", build(k) + 0.0, np.diag(np.diag(Af)) + 0.0, f"{k} {name}")
    for k in ("GS", "GaussSeidel"):
        mon.same("lower", build(k) + 0.0, np.tril(Af) + 0.0, f"{k} {name}")
    # LU
    s = 0
    while s < n and not Af[s, s:].any():
        s += 1                       # leading zero rows (zero first node): not part of the factorisation
    B = Af[s:, s:]
    V, D = elimination(B)
    if V is None or case["kind"] == "rk" and s > 1:
        mon.notes["LU not defined for the base matrix"] += 1
        return
    L = build("LU"); L2 = build("LU2")
    mon.check("LU-lower", not np.triu(L, 1).any(), f"LU {name}: not lower triangular", L=L)
    mon.close("LU2", L2, 2 * L, 4 * U * np.abs(L), f"LU2 {name}")
    mon.close("LU-first-column", L[:, 0], Af[:, 0], 4 * U * np.abs(Af[:, 0]), f"LU {name}: first column")
    if s:
        mon.same("LU-first-column", np.abs(L[:s]), np.zeros((s, n)), f"LU {name}: zero rows")
    Ls = L[s:, s:].astype(LD)
    if n > s:
        if not mon.check("LU-regular", np.isfinite(L).all() and (np.diag(Ls) != 0).all(), f"LU {name}: singular factor", L=L):
            return
        W = np.array([trisolve(Ls, B[:, j].astype(LD)) for j in range(n - s)]).T
        iL = np.abs(np.array([trisolve(Ls, np.eye(n - s, dtype=LD)[:, j]) for j in range(n - s)]).T)
        bound = (40 * (n + 2) * U * (iL @ np.abs(Ls) @ np.abs(V))).astype(float) + 1e-300
        low = np.tril(np.ones((n - s, n - s)))
        if bound.max() < 0.05:
            mon.close("LU-upper", (W * low).astype(float), np.eye(n - s), bound, f"LU {name}: preconditioned base matrix is not unit upper triangular", Q=Af)
            if n - s <= 6 and np.abs(V).max() < 50 and bound.max() < 1e-10:
                K = np.eye(n - s) - W.astype(float)
                P = np.linalg.matrix_power(K, n - s)
                mon.close("nilpotent", P, 0 * P, n * bound.max() * np.linalg.norm(np.abs(K) + 1, 2) ** (n - s) + 1e-300, f"LU {name}: stiff sweep matrix is not nilpotent")
        else:
            mon.notes["LU not determined in double precision"] += 1
    if s == 0:
        M = build("LDU")
        mon.check("LDU-diagonal", not (M - np.diag(np.diag(M))).any(), f"LDU {name}: not diagonal", M=M)
        if bound.max() < 0.05:
            d = D.astype(float)
            # relative perturbation of a pivot by the backward error of the factorisation
            mon.close("LDU", np.diag(M), d, 150 * (n + 2) * U * piv_bound(B), f"LDU {name}: diagonal", Q=Af)
    mon.sample(dict(case=case, way=way))


def piv_bound(B):
    """Componentwise first-order bound for pivots under backward errors |L||U|: diag(|L^-1| |L||U| |U^-1|) |D|."""
    n = len(B)
    A = B.astype(LD).copy()
    Lm = np.eye(n, dtype=LD)
    for i in range(n):
        for j in range(i + 1, n):
            Lm[j, i] = A[j, i] / A[i, i]
            A[j] = A[j] - Lm[j, i] * A[i]
    Um = np.triu(A)
    out = np.zeros(n)
    for k in range(n):
        l = np.array([trisolve(Lm[: k + 1, : k + 1].T[::-1, ::-1], np.eye(k + 1, dtype=LD)[::-1][:, k])])[0][::-1]   # row k of L_k^-1
        U1 = Um[: k + 1, : k + 1]
        r = trisolve(U1[::-1, ::-1], np.eye(k + 1, dtype=LD)[:, k][::-1])[::-1] * Um[k, k]                              # last column of U_k^-1, times pivot
        E = np.abs(Lm[: k + 1, : k + 1]) @ np.abs(U1)
        out[k] = float(np.abs(l) @ E @ np.abs(r))
    return out + 1e-300


def trisolve(L, b):
    x = np.zeros(len(b), dtype=LD)
    for i in range(len(b)):
        x[i] = (b[i] - L[i, :i] @ x[:i]) / L[i, i]
    return x


def elimination(B):
    """B = (lower) V with unit upper V, extended precision, no pivoting; (None, None) if a pivot vanishes."""
    n = len(B)
    A = B.astype(LD).copy()
    V = np.eye(n, dtype=LD)
    D = np.zeros(n, dtype=LD)
    for i in range(n):
        p = A[i, i]
        if abs(p) <= 1e-15 * np.abs(B).max():
            return None, None
        D[i] = p
        V[i, i + 1:] = A[i, i + 1:] / p
        A[i + 1:, i:] = A[i + 1:, i:] - np.outer(A[i + 1:, i], np.concatenate([[1], V[i, i + 1:]]))
    return V, D
