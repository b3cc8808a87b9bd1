"""Rooted trees (Butcher) and their bicoloured variants: elementary weights against densities."""
import itertools
from functools import lru_cache
import numpy as np

LD = np.longdouble


@lru_cache(None)
def trees(n):
    if n == 1:
        return ((),)
    out = set()
    def parts(n, top):
        if n == 0:
            yield []
            return
        for k in range(min(n, top), 0, -1):
            for t in trees(k):
                for r in parts(n - k, k):
                    yield [t] + r
    for p in parts(n - 1, n - 1):
        out.add(tuple(sorted(p)))
    return tuple(sorted(out))


def size(t):
    return 1 + sum(size(s) for s in t)


def gamma(t):
    g = size(t)
    for s in t:
        g *= gamma(s)
    return g


def phi(t, A):
    v = np.ones(A.shape[0], dtype=LD)
    for s in t:
        v = v * (A @ phi(s, A))
    return v


@lru_cache(None)
def colourings(t):
    """Bicoloured versions of t: (root colour, children)."""
    chs = [colourings(s) for s in t]
    return tuple((c, combo) for c in (0, 1) for combo in itertools.product(*chs))


def phi2(ct, As):
    v = np.ones(As[0].shape[0], dtype=LD)
    for c, ch in ct[1]:
        v = v * (As[c] @ phi2((c, ch), As))
    return v


assert [len(trees(i)) for i in range(1, 7)] == [1, 1, 2, 4, 9, 20]
