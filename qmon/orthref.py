"""Extended-precision reference for the orthogonal polynomials behind the node distributions."""
import numpy as np

LD = np.longdouble
TYPES = ["LEGENDRE", "CHEBY-1", "CHEBY-2", "CHEBY-3", "CHEBY-4"]
PI = LD("3.14159265358979323846264338327950288")


def coeffs(nodeType, m):
    """alpha, beta (extended precision) of the monic polynomials of the weight: 1, (1-t^2)^-1/2, (1-t^2)^1/2,
    (1+t)^1/2 (1-t)^-1/2, (1-t)^1/2 (1+t)^-1/2 respectively (third and fourth kind)."""
    k = np.arange(m).astype(LD)
    a = np.zeros(m, dtype=LD)
    b = np.full(m, LD(1) / 4)
    if nodeType == "LEGENDRE":
        b = k * k / (4 * k * k - 1)
        b[:1] = 2
    elif nodeType == "CHEBY-1":
        b[:1] = PI
        b[1:2] = LD(1) / 2
    elif nodeType == "CHEBY-2":
        b[:1] = PI / 2
    elif nodeType == "CHEBY-3":
        a[:1] = LD(1) / 2
        b[:1] = PI
    elif nodeType == "CHEBY-4":
        a[:1] = -LD(1) / 2
        b[:1] = PI
    return a, b


def scaled(nodeType, n, t):
    """p_k = 2^k pi_k and derivatives for k = n, n-1, n-2 at t (longdouble array)."""
    a, b = coeffs(nodeType, max(n, 1))
    t = np.asarray(t, dtype=LD)
    p1, p2 = np.zeros_like(t), np.zeros_like(t)      # k-1, k-2 (initially p_{-1}, p_{-2})
    d1, d2 = np.zeros_like(t), np.zeros_like(t)
    p0, d0 = np.ones_like(t), np.zeros_like(t)
    for k in range(n):
        bk = 4 * b[k] if k > 0 else LD(0)
        pn = 2 * (t - a[k]) * p0 - bk * p1
        dn = 2 * p0 + 2 * (t - a[k]) * d0 - bk * d1
        p2, d2 = p1, d1
        p1, d1 = p0, d0
        p0, d0 = pn, dn
    return (p0, p1, p2), (d0, d1, d2)


def node_poly(nodeType, quadType, n, t):
    """Polynomial whose zeros are the n nodes, with its derivative, at t."""
    (p0, p1, p2), (d0, d1, d2) = scaled(nodeType, n, t)
    if quadType == "GAUSS":
        return p0, d0
    if quadType.startswith("RADAU"):
        e = LD(-1 if quadType.endswith("LEFT") else 1)
        (e0, e1, _), _ = scaled(nodeType, n, np.array([e]))
        c = e0[0] / e1[0]
        return p0 - c * p1, d0 - c * d1
    (e0, e1, e2), _ = scaled(nodeType, n, np.array([-1, 1], dtype=LD))
    # p0 + A p1 + B p2 vanishing at both ends
    det = e1[0] * e2[1] - e1[1] * e2[0]
    A = (-e0[0] * e2[1] + e0[1] * e2[0]) / det
    B = (-e1[0] * e0[1] + e1[1] * e0[0]) / det
    return p0 + A * p1 + B * p2, d0 + A * d1 + B * d2
