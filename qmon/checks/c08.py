"""C08: Fejer rule."""
import numpy as np
from qmon import core

RULE = "One case = one rule size; non-trivial = nodes and weights compared with the extended-precision rule and with Chebyshev moments."
ROUNDS = dict(quick=2)
REQUIRED = {"computeFejerRule": 500, "weights": 500, "moments": 500}
ASSUMPTIONS = ["absolute error bounds: nodes 2e-15, weights 1e-15 (1 + log2 n)/n-independent, moments 1e-14"]
LD = np.longdouble


def cases(tier, seed):
    rng = core.rng_of("C08", tier, seed)
    top = 600 if tier == "quick" else 1500
    sizes = list(range(1, top + 1)) + [1023, 1024, 1025, 1999, 2047, 2048, 3001] + [int(v) for v in rng.integers(top, 3000, 20)]
    if tier == "thorough":
        sizes += [4095, 4096, 4097, 8191, 10000]
    for n in sizes:
        yield dict(kind="rule", n=n)
    large = [4999, 5000, 5001, 10000, 16383, 16385, 32767, 32768, 32769, 46340, 46341, 46342, 65535, 65536, 65537, 92681, 92683, 99999, 100000, 131073, 200001] + \
        [int(10.0 ** rng.uniform(3.5, 5.3)) for _ in range(10)]
    if tier == "thorough":
        large += [262143, 262145, 500000, 1000001, 2097152, 2097153, 3000000]
    for n in large:
        yield dict(kind="large", n=n)


def cost(c):
    return 1 + (c["n"] / 100) ** 2 if c["kind"] == "rule" else 5 + c["n"] / 100


def reference(n):
    """Nodes and classical cosine-sum weights in extended precision."""
    k = np.arange(n, 0, -1).astype(LD)
    pi = LD("3.14159265358979323846264338327950288")
    th = (2 * k - 1) * pi / (2 * n)
    x = np.cos(th)
    s = np.zeros(n, dtype=LD)
    # angles reduced exactly: cos(j (2k-1) pi / n) with integer (j (2k-1)) mod 2n
    kk = np.arange(n, 0, -1).astype(np.int64)
    table = np.cos(np.arange(2 * n).astype(LD) * pi / n)
    for j in range(1, n // 2 + 1):
        s += table[(j * (2 * kk - 1)) % (2 * n)] / (4 * LD(j) ** 2 - 1)
    w = 2 / LD(n) * (1 - 2 * s)
    return x, w


def large(mon, n):
    """Very large rules: nodes, positivity, symmetry, and moments of low, middle and high degree."""
    from qmat.lagrange import computeFejerRule
    x, w = mon.call("computeFejerRule", computeFejerRule, n)
    mon.shape("shape", x, (n,), "nodes"); mon.shape("shape", w, (n,), "weights")
    th = (2 * np.arange(n, 0, -1).astype(LD) - 1) * LD("3.14159265358979323846264338327950288") / (2 * n)
    mon.close("nodes", x, np.cos(th).astype(float), 2e-15, f"nodes, n={n}")
    mon.check("increasing", (np.diff(x) > 0).all(), f"nodes not strictly increasing, n={n}")
    mon.check("positive", (w > 0).all(), f"non-positive weights, n={n}")
    mon.close("symmetric", w, w[::-1], 4e-15, f"weights not symmetric, n={n}")
    mon.close("sum", w.sum(), 2.0, 1e-14 * np.sqrt(n / 100), f"sum of weights, n={n}")
    ks = [0, 1, 2, 3, 4, 7, 8, 50, 51, n // 3, n // 2, n // 2 + 1, n - 3, n - 2, n - 1]
    for k in ks:
        got = float((np.cos(k * th) * w.astype(LD)).sum())
        mon.close("moments", got, 0.0 if k % 2 else 2.0 / (1.0 - float(k) ** 2), 1e-14 * (2 + np.log2(n)) + 1e-16 * n ** 0.5, f"moment {k}, n={n}")
    # the classical formula for some weights, summed directly
    for i in (0, 1, n // 3, n // 2, n - 1):
        kk = n - i
        j = np.arange(1, n // 2 + 1)
        s = (np.cos(((j * (2 * kk - 1)) % (2 * n)).astype(LD) * LD("3.14159265358979323846264338327950288") / n) / (4 * j.astype(LD) ** 2 - 1)).sum()
        mon.close("weights", w[i], float(2 / LD(n) * (1 - 2 * s)), 1e-15, f"weight {i}, n={n}")


def run_case(mon, case):
    if case["kind"] == "large":
        return large(mon, case["n"])
    from qmat.lagrange import computeFejerRule
    n = case["n"]
    x, w = mon.call("computeFejerRule", computeFejerRule, n)
    mon.shape("shape", x, (n,), "nodes"); mon.shape("shape", w, (n,), "weights")
    mon.check("real", x.dtype.kind == "f" and w.dtype.kind == "f", "not real")
    rx, rw = reference(n)
    mon.close("nodes", x, rx.astype(float), 2e-15, f"nodes, n={n}")
    mon.check("increasing", (np.diff(x) > 0).all(), f"nodes not strictly increasing, n={n}")
    mon.check("positive", (w > 0).all(), f"non-positive weights, n={n}", weights=w)
    mon.close("symmetric", x, -x[::-1], 3e-15, f"nodes not symmetric, n={n}")
    mon.close("symmetric", w, w[::-1], 4e-15, f"weights not symmetric, n={n}")
    mon.close("weights", w, rw.astype(float), 1e-15 + 4e-15 / n, f"weights, n={n}")
    mon.close("sum", w.sum(), 2.0, 1e-14, f"sum of weights, n={n}")
    # exactness on Chebyshev polynomials (moments 2/(1-k^2) for even k, 0 for odd k): all degrees below n for small n
    ks = np.arange(n) if n <= 128 else np.unique(np.concatenate([np.arange(20), np.linspace(0, n - 1, 60).astype(int), [n - 2, n - 1]]))
    T = np.cos(ks[:, None].astype(LD) * np.arccos(x.astype(LD))[None, :])
    ref = np.where(ks % 2 == 0, 2.0 / (1.0 - ks.astype(float) ** 2), 0.0) if n else 0
    ref = np.array([0.0 if k % 2 else 2.0 / (1.0 - float(k) ** 2) for k in ks])
    # node rounding u changes T_k by at most k^2 u near the ends, weighted by the small weights there: k u overall
    mon.close("moments", (T @ w.astype(LD)).astype(float), ref, 2e-14 + 6e-16 * ks, f"moments, n={n}")
    for m in (np.int64(n), float(n)) if n < 40 else ():
        x2, w2 = mon.call("computeFejerRule", computeFejerRule, m)
        mon.close("number-types", np.concatenate([x2, w2]), np.concatenate([x, w]), 1e-15, f"n given as {type(m).__name__}")
