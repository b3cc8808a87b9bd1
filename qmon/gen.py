"""Workload generators (points, times, matrices), all driven by explicit numpy generators."""
import numpy as np

DISTS = ["equid", "cheb1", "cheb2", "legendre", "radau", "uniform", "cluster", "geometric", "jitter", "integers"]
ORDERS = ["sorted", "reversed", "shuffled"]
SCALES = [1.0, 0.5, 3.7, 1e-3, 1e3, 1e-9, 1e9, 1e-40, 1e40]
BLOCKS = [31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025,
          1999, 2000, 2001, 2047, 2048, 2049, 4095, 4096, 4097, 9999, 10000, 10001]      # sizes at which implementations change strategy
OFFSETS = [0.0, 0.5, -3.0, 17.0, -1e3]


def unit_points(dist, n, rng):
    """n distinct increasing points in about [-1, 1]."""
    if n == 1:
        return np.array([{"equid": 0.0, "cheb1": 0.0, "cheb2": 1.0, "integers": 2.0}.get(dist, rng.uniform(-1, 1))])
    k = np.arange(n)
    if dist == "equid":
        return np.linspace(-1, 1, n)
    if dist == "cheb1":
        return -np.cos((2 * k + 1) * np.pi / (2 * n))
    if dist == "cheb2":
        x = -np.cos(k * np.pi / (n - 1)); x[0], x[-1] = -1, 1
        return x
    if dist == "legendre":
        return np.polynomial.legendre.leggauss(n)[0]
    if dist == "radau":
        x = -np.cos((2 * k + 1) * np.pi / (2 * n + 1)); x = np.sort(x); x[-1] = 1.0
        return x
    if dist == "uniform":
        while True:
            x = np.sort(rng.uniform(-1, 1, n))
            if np.diff(x).min() > 0.05 / n**2:
                return x
    if dist == "cluster":
        h = n // 2
        a = -0.9 + 0.01 * np.linspace(0, 1, h, endpoint=False)
        b = 0.4 + 0.3 * np.linspace(0, 1, n - h)
        return np.concatenate([a, b])
    if dist == "geometric":
        return np.sort(-1 + 2 * 0.6 ** np.arange(n)[::-1])
    if dist == "jitter":
        x = np.linspace(-1, 1, n)
        return x + (rng.uniform(-0.3, 0.3, n) * 2 / (n - 1))
    if dist == "integers":
        return np.cumsum(rng.integers(1, 4, n)).astype(float) - rng.integers(0, 2 * n)
    raise ValueError(dist)


def points(dist, n, scale, off, order, rng):
    x = unit_points(dist, n, rng)
    x = (x + off) * scale
    if np.unique(x).size < n:          # offsets may merge very close points
        x = unit_points(dist, n, rng) * scale
    if order == "reversed":
        x = x[::-1].copy()
    elif order == "shuffled":
        x = rng.permutation(x)
    return x


def times(x, rng, m=8, far=1.0):
    """Evaluation times: inside, at, next to, and outside the points."""
    lo, hi = x.min(), x.max()
    w = (hi - lo) if x.size > 1 else (abs(lo) or 1.0)
    t = [rng.uniform(lo, hi, m)]
    t.append(rng.permutation(x)[:3])
    p = rng.permutation(x)[:2]
    t.append(np.nextafter(p, np.inf)); t.append(np.nextafter(p, -np.inf))
    t.append(p + 1e-9 * w)
    t.append(np.array([lo - far * w * rng.uniform(0, 1), hi + far * w * rng.uniform(0, 1)]))
    t.append(np.array([lo, hi, (lo + hi) / 2]))
    return np.concatenate(t)


def forms(a, unsigned=True, wide=False):
    """The same exactly representable values as sequences and arrays of other types."""
    a = np.asarray(a, dtype=float)
    out = [a.tolist(), tuple(a.tolist()) if a.ndim == 1 else tuple(map(tuple, a.tolist()))]
    types = ["int8", "int16", "int32", "int64", ">i4", ">f8", "float32", "float16"] + (["uint8", "uint16", "uint32", "uint64"] if unsigned else []) + (["longdouble"] if wide else [])
    for t in types:
        with np.errstate(all="ignore"):
            b = a.astype(t)
        if np.array_equal(b.astype(float), a) and (b.dtype.kind not in "iu" or (b.astype(object) == a.astype(object)).all()):
            out.append(b)
    if (a == np.round(a)).all():
        i = a.astype(int)
        out += [i.tolist(), tuple(i.tolist()) if a.ndim == 1 else tuple(map(tuple, i.tolist()))]
    return out
