"""Reference models in exact integer / rational arithmetic (no qmat code involved).

All inputs are floats, i.e. dyadic rationals: after scaling by a common power of two every quantity below is an exact
Python integer, and the final quotients are correctly rounded by int / int."""
from fractions import Fraction
from math import lcm
import numpy as np

U = 2.0**-53


def ints(*arrays):
    """Common scaling of float arrays to exact integers: returns (lists of ints..., E) with x = X * 2**-E."""
    E = 0
    out = []
    for a in arrays:
        r = [float(v).as_integer_ratio() for v in np.asarray(a, dtype=float).ravel()]
        out.append(r)
        for _, d in r:
            E = max(E, d.bit_length() - 1)
    return [[n * ((1 << E) // d) for n, d in r] for r in out], E


def div(a, b):
    """Correctly rounded a / b for huge integers."""
    try:
        return a / b
    except OverflowError:
        return np.inf if (a > 0) == (b > 0) else -np.inf


class Lagrange:
    """Exact Lagrange basis for distinct float points, in the given order."""

    def __init__(self, points):
        self.x = np.asarray(points, dtype=float).ravel()
        self.n = self.x.size

    def _setup(self, *extra):
        (X, *rest), E = ints(self.x, *extra)
        n = self.n
        wd = []
        for j in range(n):
            p = 1
            xj = X[j]
            for k in range(n):
                if k != j:
                    p *= xj - X[k]
            wd.append(p)
        return X, wd, E, rest

    def values(self, times):
        """L_j(t_i), correctly rounded."""
        X, wd, E, (T,) = self._setup(times)
        out = np.zeros((len(T), self.n))
        for i, t in enumerate(T):
            if t in X:
                out[i, X.index(t)] = 1.0
                continue
            full = 1
            for x in X:
                full *= t - x
            for j in range(self.n):
                out[i, j] = div(full, (t - X[j]) * wd[j])
        return out

    def values_exact(self, times):
        """L_j(t_i) for rational times, as Fractions (small n)."""
        x = [Fraction(float(v)) for v in self.x]
        out = []
        for t in times:
            row = []
            for j in range(self.n):
                p = Fraction(1)
                for k in range(self.n):
                    if k != j:
                        p *= (t - x[k]) / (x[j] - x[k])
                row.append(p)
            out.append(row)
        return out

    def integrals(self, intervals):
        """Integral of L_j over each interval, correctly rounded."""
        intervals = np.asarray(intervals, dtype=float).reshape(-1, 2)
        X, wd, E, (AB,) = self._setup(intervals)
        n = self.n
        o = X[0]
        X = [x - o for x in X]
        # master polynomial, ascending coefficients
        M = [1]
        for x in X:
            M = [(M[k - 1] if k > 0 else 0) - x * (M[k] if k < len(M) else 0) for k in range(len(M) + 1)]
        D = 1
        for k in range(1, n + 1):
            D = lcm(D, k)
        # quotients M / (t - x_j), ascending, by synthetic division
        quot = []
        for x in X:
            q = [0] * n
            c = 0
            for k in range(n, 0, -1):
                c = M[k] + x * c
                q[k - 1] = c
            quot.append(q)
        out = np.zeros((len(AB) // 2, n))
        for i in range(len(AB) // 2):
            a, b = AB[2 * i] - o, AB[2 * i + 1] - o
            cm, pa, pb = [], a, b
            for m in range(n):
                cm.append((D // (m + 1)) * (pb - pa))
                pa *= a; pb *= b
            for j in range(n):
                s = 0
                for q, c in zip(quot[j], cm):
                    s += q * c
                out[i, j] = div(s, D * wd[j] << E)
        return out

    def derivatives(self):
        """(L_j'(x_i), L_j''(x_i)), correctly rounded."""
        X, wd, E, _ = self._setup()
        n = self.n
        D1, D2 = np.zeros((n, n)), np.zeros((n, n))
        sc = 1 << E
        for i in range(n):
            inv = [Fraction(sc, X[i] - X[k]) if k != i else Fraction(0) for k in range(n)]
            s1 = sum(inv, Fraction(0))
            s2 = sum((v * v for v in inv), Fraction(0))
            D1[i, i] = fdiv(s1)
            D2[i, i] = fdiv(s1 * s1 - s2)
            for j in range(n):
                if j == i:
                    continue
                # L_j'(x_i) = wd_i / ((x_i - x_j) wd_j)
                D1[i, j] = div(wd[i] * sc, (X[i] - X[j]) * wd[j])
                r = s1 - inv[j]
                D2[i, j] = div(2 * wd[i] * sc * r.numerator, (X[i] - X[j]) * wd[j] * r.denominator)
        return D1, D2


def fdiv(f):
    return div(f.numerator, f.denominator)


# -- conditioning ---------------------------------------------------------------------------------------------------
def slog(x):
    """Sum of |log| of the differences (error amplification of weights computed through logarithms)."""
    x = np.asarray(x, dtype=float)
    d = np.abs(x[:, None] - x[None, :])
    d[np.diag_indices_from(d)] = 1
    return float(np.abs(np.log(d)).sum(axis=1).max()) if x.size else 0.0


def weight_delta(x):
    """Bound on the relative error of barycentric weights (product or logarithmic formula, any order of operations)."""
    n = np.size(x)
    return U * (6 * n + 30 + 6 * slog(x))


def bary(x, t):
    """Own floating-point evaluation of the basis (bounds only): rows for times t, exact weights."""
    x = np.asarray(x, dtype=float); t = np.asarray(t, dtype=float).ravel()
    w = exact_weights(x)
    d = t[:, None] - x[None, :]
    hit = d == 0
    d[hit] = 1
    q = w / d
    rows = hit.any(axis=1)
    q[rows] = hit[rows]
    return q / q.sum(axis=1)[:, None]


def exact_weights(x):
    """Barycentric weights from exact products, scaled to maximum one."""
    (X,), E = ints(x)
    n = len(X)
    p = []
    for j in range(n):
        v = 1
        for k in range(n):
            if k != j:
                v *= X[j] - X[k]
        p.append(v)
    m = min(abs(v) for v in p)
    return np.array([div(m, v) for v in p])


def tol_values(x, P):
    """Bound for the values P of the Lagrange basis: its entries are products of differences, determined to a few units of rounding per factor;
    a normalisation by the sum of the entries is admitted where it loses at most three digits (four with a margin)."""
    d = weight_delta(x) + 8 * U
    lam = np.minimum(np.abs(P).sum(axis=1), 5e3)[:, None]
    return np.abs(P) * d * (1 + lam) * 2 + 1e-200


def tol_integrals(x, intervals):
    """Bound for integration entries."""
    x = np.asarray(x, dtype=float); n = x.size
    intervals = np.asarray(intervals, dtype=float).reshape(-1, 2)
    d = weight_delta(x) + 8 * U
    m = n + 4
    th = np.cos((2 * np.arange(m) + 1) * np.pi / (2 * m))
    hull = (x.min(), x.max())
    out = np.zeros((len(intervals), n))
    lag = Lagrange(x)
    cache = {}

    def maxes(a, b):
        if (a, b) not in cache:
            A = np.abs(lag.values((b - a) / 2 * th + (b + a) / 2))
            cache[a, b] = A.max(axis=0), A.sum(axis=1).max()
        return cache[a, b]

    for i, (a, b) in enumerate(intervals):
        w = abs(b - a)
        if w == 0:
            out[i] = 1e-300
            continue
        mL, lam = maxes(a, b)
        lo, hi = min(a, b, hull[0]), max(a, b, hull[1])
        mH, _ = maxes(lo, hi)
        dL = np.minimum(2 * n * n / w * mL, 2 * n * n / (hi - lo) * mH) if n > 1 else 0 * mL
        out[i] = w * (2 * mL * d * (1 + min(lam, 5e3)) + 4 * (n + 8) * U * mL + 2 * U * (abs(a) + abs(b)) * dL)
    return 2 * out + 1e-300


def tol_derivatives(x, D1, D2):
    """Bounds for the entries of both derivative matrices given the exact ones."""
    x = np.asarray(x, dtype=float); n = x.size
    d = 2 * weight_delta(x) + 10 * U
    diff = x[:, None] - x[None, :]
    diff[np.diag_indices_from(diff)] = np.inf
    inv = np.abs(1 / diff)
    off = ~np.eye(n, dtype=bool)
    a1 = np.where(off, np.abs(D1), 0.0)
    t1 = a1 * d
    rs = a1.sum(axis=1) + inv.sum(axis=1)
    t1[np.diag_indices(n)] = d * rs
    t2 = 2 * a1 * (inv + rs[:, None]) * 2 * d
    t2[np.diag_indices(n)] = t2.sum(axis=1) + d * rs**2
    return 2 * t1 + 1e-300, 2 * t2 + 1e-300
