"""C10: declared orders on linear problems."""
import math
import numpy as np
from qmon import core, exact

RULE = ("One case = one generator (registered name, or collocation configuration); non-trivial = all Taylor coefficients of its stability function (and the "
        "quadrature conditions for collocation) compared with those of the exponential up to the declared order.")
ROUNDS = dict(quick=4)
REQUIRED = {"linear-conditions": 300, "quadrature": 300, "not-more": 100, "embedded": 10}
ASSUMPTIONS = ["rounding: 1e-14 of the sum of absolute terms; 3e-10 for the ARK343 tables, published with 10 digits"]
NT = ["EQUID", "LEGENDRE", "CHEBY-1", "CHEBY-2", "CHEBY-3", "CHEBY-4"]
QT = ["GAUSS", "RADAU-LEFT", "RADAU-RIGHT", "LOBATTO"]
LD = np.longdouble


def cases(tier, seed):
    rng = core.rng_of("C10", tier, seed)
    yield dict(kind="names")
    ns = range(1, 27) if tier == "quick" else range(1, 51)
    for n in list(ns) + ([32] if tier == "quick" else [64, 80]):
        for nt in NT:
            for qt in QT:
                if n == 1 and qt in ("LOBATTO", "RADAU-LEFT"):
                    continue
                yield dict(kind="coll", n=n, nt=nt, qt=qt, iv=None)
    for k in range(100 if tier == "quick" else 500):
        w = float(10.0**rng.uniform(-3, 3))
        a = float(rng.normal() * w)
        yield dict(kind="coll", n=int(rng.integers(2, 8)), nt=str(rng.choice(NT)), qt=str(rng.choice(QT)), iv=(a, a + w))


def cost(c):
    return 1 + (c.get("n", 1) / 10) ** 4


def taylor(Q, w, K):
    """Coefficients w^T Q^(k-1) 1 of the stability function and the sums of absolute terms, k = 1..K."""
    Q, w = Q.astype(LD), w.astype(LD)
    v, a = np.ones(len(Q), dtype=LD), np.ones(len(Q), dtype=LD)
    out, mag = [], []
    for k in range(K):
        out.append(w @ v); mag.append(np.abs(w) @ a)
        v, a = Q @ v, np.abs(Q) @ a
    return np.array(out), np.array(mag)


def propagated(Q, w, dQ, dw, K):
    """First-order effect of entrywise perturbations dQ, dw on the coefficients."""
    a, d, out = np.ones(len(Q)), np.zeros(len(Q)), []
    for k in range(K):
        out.append(dw @ a + np.abs(w) @ d)
        a, d = np.abs(Q) @ a, dQ @ a + np.abs(Q) @ d
    return np.array(out)


def expcoef(K):
    return np.array([1 / LD(math.factorial(k)) for k in range(1, K + 1)])


def run_case(mon, case):
    if case["kind"] == "names":
        return names(mon)
    from qmat.qcoeff.collocation import Collocation
    n, nt, qt, iv = case["n"], case["nt"], case["qt"], case["iv"]
    g = mon.call("Collocation", Collocation, n, nt, qt, *(iv or ()))
    p = int(mon.get("order", g, "order"))
    name = f"{nt} {qt} n={n} iv={iv}"
    a, b = iv or (0.0, 1.0)
    h = b - a
    x, w, Q = (np.asarray(g.nodes, dtype=float) - a) / h, g.weights / h, g.Q / h
    # what the order has to be
    if nt == "LEGENDRE":
        exp = 2 * n - {"GAUSS": 0, "RADAU-LEFT": 1, "RADAU-RIGHT": 1, "LOBATTO": 2}[qt]
    else:
        sym = qt in ("GAUSS", "LOBATTO") and nt in ("EQUID", "CHEBY-1", "CHEBY-2")
        exp = n + (n % 2 if sym else 0)
    u = max(abs(a), abs(b)) / h * 4e-15 + 2e-14          # relative perturbation of the scaled nodes
    c, m = taylor(Q, w, p)
    xs = np.asarray(g.nodes, dtype=float)
    dQ, dw = exact.tol_integrals(xs, [(a, t) for t in xs]) / h, exact.tol_integrals(xs, [(a, b)])[0] / h
    if not dw.sum() < 1e-6:
        mon.notes["configurations skipped (weights not determined in double precision)"] += 1
        return
    tol = u * (n + 2) * m * np.arange(1, p + 1) / 2 + 1e-18 + propagated(Q, w, dQ, dw, p)
    mon.close("linear-conditions", c.astype(float), expcoef(p).astype(float), tol.astype(float), f"{name}: stability function up to order {p}")
    k = np.arange(p, dtype=float)
    mom = (x.astype(LD)[None, :] ** np.arange(p)[:, None]) @ w.astype(LD)
    mag = (np.abs(x.astype(LD))[None, :] ** np.arange(p)[:, None]) @ np.abs(w).astype(LD)
    mon.close("quadrature", mom.astype(float), 1 / (k + 1), (u * (4 + k) * (mag + 1)).astype(float) + (np.abs(x)[None, :] ** k[:, None]) @ dw,
              f"{name}: weights up to degree {p - 1}")
    # and not more: the next moment is missed (as far as visible in double precision)
    last = ((x.astype(LD) ** p) @ w.astype(LD)) - 1 / LD(p + 1)
    t = float(u * (4 + p) * ((np.abs(x) ** p) @ np.abs(w) + 1) + np.abs(x) ** p @ dw)
    if visible(nt, qt, n) > 3 * t:
        mon.check("not-more", abs(float(last)) > t, f"{name}: weights are exact beyond the declared order {p} (error {float(last):.1e})")
    mon.check("expected-order", p == exp, f"{name}: declared order {p}, theory gives {exp}")
    mon.sample(dict(case=case, order=p))


def visible(nt, qt, n):
    """Size of the first missed moment of the interpolatory rule on the exact nodes (own rule, extended precision)."""
    from qmat.nodes import NodesGenerator
    if n > 20:
        return 0.0
    x = (np.asarray(NodesGenerator(nt, qt).getNodes(n), dtype=LD) + 1) / 2
    s = {"GAUSS": 0, "RADAU-LEFT": 1, "RADAU-RIGHT": 1, "LOBATTO": 2}[qt]
    p = 2 * n - s if nt == "LEGENDRE" else n + (n % 2 if qt in ("GAUSS", "LOBATTO") and nt in ("EQUID", "CHEBY-1", "CHEBY-2") else 0)
    # missed moment of degree p = integral of the node polynomial times the monic polynomial of degree p - n
    gx, gw = np.polynomial.legendre.leggauss(p + 2)
    gx = (gx.astype(LD) + 1) / 2
    v = np.ones_like(gx)
    for t in x:
        v = v * (gx - t)
    return abs(float((gw.astype(LD) / 2) @ (v * gx ** (p - n))))


def names(mon):
    from qmat.qcoeff import Q_GENERATORS
    for name, cls in list(Q_GENERATORS.items()):
        g = mon.call("getInstance", cls.getInstance)
        p = int(mon.get("order", g, "order"))
        Q, w, x = np.asarray(g.Q, dtype=float), np.asarray(g.weights, dtype=float), g.nodes
        rel, tab = 1e-14, 3e-10 if name.startswith("ARK343") else 0.0
        mon.check("positive-order", p >= 1, f"{name}: order {p}")
        c, m = taylor(Q, w, p + 1)
        E = expcoef(p + 1)
        mon.close("linear-conditions", c[:p].astype(float), E[:p].astype(float), (rel * m[:p] + tab).astype(float), f"{name}: stability function up to order {p}")
        mon.check("not-more", abs(float(c[p] - E[p])) > rel * m[p] + tab + 1e-16, f"{name}: declared order {p} is exceeded")
        try:
            w2 = g.weightsEmbedded
        except NotImplementedError:
            continue
        q = int(mon.get("orderEmbedded", g, "orderEmbedded"))
        w2 = np.asarray(w2, dtype=float)
        c, m = taylor(Q, w2, q)
        dev = (c - expcoef(q)).astype(float)
        tol = (rel * m + tab).astype(float)
        bad = [f"{k + 1}:{d:.2e}" for k, d in enumerate(dev) if not abs(d) <= tol[k]]
        mon.close("embedded", dev, 0 * dev, tol, f"{name}: embedded weights up to order {q}", key=f"embedded:{cls.__name__}:{','.join(bad)}")
