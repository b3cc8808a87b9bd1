"""C16: time-stepping approximations against the marched scheme."""
from fractions import Fraction as F
import numpy as np
from qmon import core, exact

RULE = ("One case = one node vector (distribution, size, scale, offset, left bound, number type) for all six schemes; non-trivial = matrix and dTau compared with the "
        "exact rational coefficients obtained by marching the scheme from the left bound through the nodes.")
ROUNDS = dict(quick=12)
REQUIRED = {"QDelta": 1500, "dTau": 1500, "marched": 1500}
ASSUMPTIONS = ["the leap-frog scheme starts with a forward Euler step, its initial-value term is part of the known finding when the first node is after the left bound"]
U = exact.U
NAMES = {"BE": ["BE", "IE"], "FE": ["FE", "EE"], "TRAP": ["TRAP", "CN"], "BEPAR": ["BEPAR", "IEpar"], "TRAPAR": ["TRAPAR"], "SOE": ["SOE", "LeapFrog", "LF"]}
KINDS = ["equid", "uniform", "cheb", "radau", "geometric", "cluster", "integers", "coll"]
LEFTS = ["default", "at-first", "zero", "before", "far", "first-zero", "inside-zero", "integer"]


def cases(tier, seed):
    rng = core.rng_of("C16", tier, seed)
    i = 0
    for n in range(1, 11):
        for kind in KINDS:
            for left in LEFTS:
                i += 1
                yield dict(kind="nodes", n=n, dist=kind, left=left, scale=float(rng.choice([1.0, 1.0, 0.5, 10.0, 1e-6, 1e6])),
                           off=float(rng.choice([0.0, 0.0, 1.0, -2.5, 100.0])), how=i % 5, id=i)
    for k in range(150 if tier == "quick" else 5000):
        i += 1
        yield dict(kind="nodes", n=int(rng.integers(1, 13)), dist=str(rng.choice(KINDS)), left=str(rng.choice(LEFTS)), scale=float(10.0**(rng.uniform(-8, 8) if k % 5 else rng.uniform(-80, 80))),
                   off=float(rng.normal() * 10), how=i % 5, id=i)
    for n in (20, 30, 33, 34, 50, 65, 66) if tier == "quick" else (20, 30, 31, 32, 33, 34, 35, 40, 48, 49, 60, 63, 64, 65, 66, 80, 100, 129):
        for kind in ("equid", "cheb", "uniform")[:3 if n < 31 or tier != "quick" else 1]:
            i += 1
            yield dict(kind="nodes", n=n, dist=kind, left="default", scale=1.0, off=0.0, how=i % 5, id=i)

    for n in (127, 128, 129, 200, 256, 257) if tier == "quick" else (127, 128, 129, 200, 255, 256, 257, 300, 400, 511, 512, 513, 800):
        i += 1
        yield dict(kind="large", n=n, dist=str(rng.choice(["equid", "cheb", "uniform"])), left="before", scale=1.0, off=0.0, how=0, id=i)


def cost(c):
    return c["n"] ** 2


def large(mon, case, x, rng):
    """Closed forms of the one-step schemes on many nodes."""
    from qmat import QDELTA_GENERATORS
    n = x.size
    tl = float(x[0] - rng.uniform(0, 0.2))
    h = np.diff(np.concatenate([[tl], x]))
    low = np.tril(np.ones((n, n)))
    nxt = np.append(h[1:], 0.0)
    be, fe = low * h, np.tril(np.ones((n, n)), -1) * nxt
    one = np.ones(n)
    ref = dict(BE=(be, 0 * one), FE=(fe, h[0] * one), TRAP=((be + fe) / 2, h[0] / 2 * one), BEPAR=(np.diag(x - tl), 0 * one), TRAPAR=(np.diag(x - tl) / 2, (x - tl) / 2))
    for scheme, (R, rd) in ref.items():
        g = mon.call("generator", QDELTA_GENERATORS[scheme], x, tLeft=tl)
        Q = mon.call("getQDelta", g.getQDelta)
        sc = 4 * U * (np.abs(x).max() + abs(tl) + n * (x[-1] - tl))
        mon.close("QDelta", Q, R, sc * (R != 0), f"{scheme} with {n} nodes: QDelta")
        mon.close("dTau", mon.get("dTau", g, "dTau"), rd, sc * (rd != 0), f"{scheme} with {n} nodes: dTau")


def march(name, x, tl):
    """Exact rational QDelta and dTau of the scheme marched through increasing nodes x from tl."""
    x = [F(v) for v in x]
    tl = F(tl)
    n = len(x)
    Q = [[F(0)] * n for _ in range(n)]
    d = [F(0)] * n
    for m in range(n):
        prev = x[m - 1] if m else tl
        h = x[m] - prev
        if name in ("BE", "FE", "TRAP"):
            if m:
                Q[m] = list(Q[m - 1]); d[m] = d[m - 1]
            im, ex = {"BE": (1, 0), "FE": (0, 1), "TRAP": (F(1, 2), F(1, 2))}[name]
            Q[m][m] += im * h
            if m:
                Q[m][m - 1] += ex * h
            else:
                d[m] += ex * h
        elif name == "BEPAR":
            Q[m][m] = x[m] - tl
        elif name == "TRAPAR":
            Q[m][m] = (x[m] - tl) / 2; d[m] = (x[m] - tl) / 2
        elif name == "SOE":
            if m == 0:
                d[0] = h
            else:
                # centered derivative at x[m-1] of the parabola through the last three times equals the right-hand side there
                a, b, c = (x[m - 2] if m > 1 else tl), x[m - 1], x[m]
                if a == b:                       # first node at the left bound: forward Euler step
                    for j in range(n):
                        Q[m][j] = Q[m - 1][j]
                    Q[m][m - 1] += c - b
                    d[m] = d[m - 1]
                    continue
                wa, wc = (b - c) / ((a - b) * (a - c)), (b - a) / ((c - a) * (c - b))
                wb = -wa - wc
                for j in range(n):
                    r = (F(1) if j == m - 1 else F(0)) - wb * Q[m - 1][j] - (wa * Q[m - 2][j] if m > 1 else 0)
                    Q[m][j] = r / wc
                d[m] = (-wb * d[m - 1] - (wa * d[m - 2] if m > 1 else 0)) / wc
    return Q, d


def bound_soe(x, tl):
    """Rounding bound for the leap-frog recursion (running error analysis)."""
    t = np.concatenate([[tl], x])
    n = len(x)
    E = np.zeros((n, n)); Q = np.zeros((n, n)); e = np.zeros(n); d = np.zeros(n)
    ad = abs(x[0] - tl); d[0] = ad; e[0] = 0
    rel0 = 40 * U
    sc = np.abs(t).max()
    for m in range(1, n):
        a, b, c = (x[m - 2] if m > 1 else tl), x[m - 1], x[m]
        if a == b:
            Q[m] = Q[m - 1]; Q[m, m - 1] += c - b; E[m] = rel0 * Q[m]; d[m] = d[m - 1]
            continue
        hmin = min(b - a, c - b)
        hm = max(b - a, c - b)
        logs = 1 + max(abs(np.log(v)) for v in (b - a, c - b, c - a))
        rel = rel0 * logs + 8 * U * 2
        wa, wc = (b - c) / ((a - b) * (a - c)), (b - a) / ((c - a) * (c - b))
        wb = -(wa + wc)
        wbe = abs(wa) + abs(wc)
        for j in range(n):
            r = (1.0 if j == m - 1 else 0) + wbe * Q[m - 1, j] + (abs(wa) * Q[m - 2, j] if m > 1 else 0)
            Q[m, j] = ((1.0 if j == m - 1 else 0) + abs(wb) * Q[m - 1, j] + (abs(wa) * Q[m - 2, j] if m > 1 else 0)) / wc
            E[m, j] = 3 * rel * r / wc + (abs(wb) * E[m - 1, j] + (abs(wa) * E[m - 2, j] if m > 1 else 0)) / wc
        r = wbe * d[m - 1] + (abs(wa) * d[m - 2] if m > 1 else 0)
        d[m] = (abs(wb) * d[m - 1] + (abs(wa) * d[m - 2] if m > 1 else 0)) / wc
        e[m] = 3 * rel * r / wc + (abs(wb) * e[m - 1] + (abs(wa) * e[m - 2] if m > 1 else 0)) / wc
    return E + 1e-300, e + 1e-300


def nodes_of(case, rng):
    n, k = case["n"], case["dist"]
    if k == "equid":
        u = (np.arange(n) + 1.0) / n
    elif k == "uniform":
        u = np.sort(rng.uniform(0, 1, n)) * 0.5 + 0.5 * (np.arange(n) + 1) / n
    elif k == "cheb":
        u = 0.5 - 0.5 * np.cos((2 * np.arange(n) + 1) * np.pi / (2 * n))
    elif k == "radau":
        u = 1 - (0.5 - 0.5 * np.cos((2 * np.arange(n)[::-1]) * np.pi / (2 * n - 1 + (n == 1))))
    elif k == "geometric":
        u = 0.7 ** np.arange(n)[::-1]
    elif k == "cluster":
        u = np.concatenate([0.1 + 1e-4 * np.arange(n - n // 2), 0.8 + 1e-3 * np.arange(n // 2)])
    elif k == "integers":
        return np.cumsum(rng.integers(1, 4, n)).astype(float)
    elif k == "coll":
        u = (np.polynomial.legendre.leggauss(n)[0] + 1) / 2
    return (u + case["off"]) * case["scale"]


def run_case(mon, case):
    from qmat import QDELTA_GENERATORS, genQDeltaCoeffs
    rng = core.rng_of("C16", mon.seed, case)
    x = nodes_of(case, rng)
    n = x.size
    if case["kind"] == "large":
        return large(mon, case, x, rng)
    w = (x[-1] - x[0]) or abs(x[0]) or 1.0
    left = case["left"]
    if left in ("default", "zero") and x[0] < 0:
        left = "before"
    if left == "first-zero":                 # a node exactly at zero that is not the left bound
        x = x - x[0]
        left = ["before", "far", "at-first"][case["id"] % 3]
    elif left == "inside-zero":
        x = x - x[n // 2]
        left = ["before", "far", "at-first"][case["id"] % 3]
    elif left == "integer":                  # tLeft = -1, -2, ...
        x = x / max(np.abs(x).max(), 1e-3)
    w = (x[-1] - x[0]) or abs(x[0]) or 1.0
    tl = {"integer": float(np.floor(x[0]) - rng.integers(0, 2)), "default": 0.0, "zero": 0.0, "at-first": float(x[0]), "before": float(x[0] - w * rng.uniform(0.01, 0.5)), "far": float(x[0] - 10 * w)}[left]
    how = case["how"]
    arg = x
    if case["dist"] == "integers" and case["left"] != "integer":
        arg = [x.astype(int), [int(v) for v in x], tuple(int(v) for v in x), x.astype([np.int32, np.int8, np.uint8 if x[0] >= 0 else np.int16, np.int16, np.uint64 if x[0] >= 0 else np.int64][case["id"] // 5 % 5]), x][how]
        if left in ("before",):
            tl = float(int(x[0]) - 1)
    elif how == 1:
        arg = x.tolist()
    kw = {} if left == "default" else dict(tLeft=tl)
    if how == 2 and kw and float(tl).is_integer() and abs(tl) < 1e6:
        kw = dict(tLeft=int(tl))
    keep = np.array(arg)
    for scheme in NAMES:
        alias = NAMES[scheme][case["id"] % len(NAMES[scheme])]
        name = f"{alias} n={n} {case['dist']} tLeft={kw.get('tLeft', 'default')}"
        g = mon.call("generator", QDELTA_GENERATORS[alias], arg, *( [kw["tLeft"]] if how == 3 and kw else []), **(kw if how != 3 else {}))
        Q = mon.call("getQDelta", g.getQDelta)
        d = mon.get("dTau", g, "dTau")
        mon.shape("shape", Q, (n, n), name); mon.shape("shape", d, (n,), name + " dTau")
        mon.check("dtype", Q.dtype == float and d.dtype == float, f"{name}: dtypes {Q.dtype} {d.dtype}")
        out = mon.call("genQDeltaCoeffs", genQDeltaCoeffs, alias, dTau=True, nodes=arg, **kw)
        mon.same("generic", [out[0], out[1]], [Q, d], f"{name}: generic function")
        EQ, Ed = march(scheme, x, tl)
        R = np.array([[float(v) for v in r] for r in EQ]); rd = np.array([float(v) for v in Ed])
        if scheme == "SOE":
            tq, td = bound_soe(x, tl)
            if tq.max() > 1e-3 * (x[-1] - tl) and tq.max() > 1e-6 * np.abs(R).max():
                mon.notes["leap-frog cases skipped (unstable recursion)"] += 1
                continue
        else:
            sc = 4 * U * (np.abs(x).max() + abs(tl) + n * (x[-1] - tl))
            tq, td = sc * (R != 0), sc * (rd != 0) + 0.0
        mon.close("QDelta", Q, R, tq, f"{name}: QDelta", nodes=x)
        dev = None
        if scheme == "SOE" and n > 1 and x[0] > tl:
            # known finding: dTau is the constant of the first step instead of the marched coefficient
            if np.allclose(d, x[0] - tl, rtol=1e-12, atol=0):
                dev = "SOE dTau is constant"
        mon.close("dTau", d, rd, td, f"{name}: dTau", key=dev, nodes=x)
        strict = {"BE": 1, "TRAP": 1, "FE": 0, "SOE": 0}.get(scheme)
        if strict is None:
            mon.check("structure", not (Q - np.diag(np.diag(Q))).any(), f"{name}: not diagonal", Q=Q)
        else:
            mon.check("structure", not np.triu(Q, strict).any(), f"{name}: not {'strictly ' if not strict else ''}lower triangular", Q=Q)
        # action on a right-hand side, marched in floating point
        f = rng.normal(size=n); f0 = rng.normal()
        if dev is None or scheme != "SOE":
            mon.close("marched", Q @ f + d * f0, R @ f + rd * f0, tq @ np.abs(f) + td * abs(f0) + 8 * n * U * (np.abs(R) @ np.abs(f) + np.abs(rd * f0)) + 1e-300,
                      f"{name}: marched node values", nodes=x)
    mon.same("arguments", np.array(arg), keep, "nodes given by the caller modified")
    mon.sample(dict(case=case, tLeft=tl))
