"""C18: diagonal approximations."""
import json, os
import numpy as np
from qmon import core

with open(os.path.join(core.VERIF, "ref", "diag_tables.json")) as f:
    TABLES = {(t["name"], t["nodeType"], t["quadType"], t["n"]): t for t in json.load(f)}
RULE = ("One case = one node vector with all node-based diagonal approximations and a list of iterations, one tabulated / untabulated configuration, or one optimisation; "
        "non-trivial = diagonal compared with nodes / divisor, with the reviewed table and its published spectral radius, or spectral radius computed.")
ROUNDS = dict(quick=4)
REQUIRED = {"divisor": 3000, "table": 40, "published-rho": 15, "rejects": 500, "optimised": 50, "flex": 200}
ASSUMPTIONS = ["tabulated coefficients and MIN-SR-FLEX are for the unit interval", "published radii are those printed next to the tables in the code; for the second table the one the tests quote",
               "MIN: derivative-free optimisation, judged against its starting guess and, for at most four nodes, against generous radii it is known to reach"]
U = 2.0**-53
# documented divisors, for k = 1, 2, ... and M nodes
DIV = {"MIN_SR_NS": (["MIN_SR_NS", "MIN-SR-NS", "MIN_GT"], lambda k, M: M, False),
       "Jumper": (["Jumper", "JUMPER", "FB"], lambda k, M: 2 * k, True),
       "FlexJumper": (["FlexJumper", "FLEX-JUMPER", "FB2"], lambda k, M: 1 if k == 1 else 2 * (k - 1), True),
       **{f"DNODES{'' if d == 1 else d}": ([f"DNODES{'' if d == 1 else d}", f"DNODES-{d}"], (lambda d: lambda k, M: d)(d), False) for d in (1, 2, 3, 4, 5)}}
NT = ["EQUID", "LEGENDRE", "CHEBY-1", "CHEBY-2", "CHEBY-3", "CHEBY-4"]
QT = ["GAUSS", "RADAU-LEFT", "RADAU-RIGHT", "LOBATTO"]
TABNAMES = {"MIN3": ["MIN3", "Magic_Numbers"], "MIN_VDHS": ["MIN_VDHS", "VDHS"]}
# generous radii for the optimised coefficients (GAUSS, RADAU-RIGHT)
MINRHO = {"GAUSS": {"EQUID": (.01, .01, .1, .7), "LEGENDRE": (.01, .01, .1, .3), "CHEBY-1": (.01, .01, .6, .4), "CHEBY-2": (.01, .01, .6, 1.), "CHEBY-3": (.01, .01, .2, .5), "CHEBY-4": (.01, .01, .2, .5)},
          "RADAU-RIGHT": {"EQUID": (.01, .01, 2., 1.7), "LEGENDRE": (.01, .01, .6, .6), "CHEBY-1": (.01, .01, 1.5, .7), "CHEBY-2": (.01, .01, .1, .3), "CHEBY-3": (.01, .01, 1., .8), "CHEBY-4": (.01, .01, .1, .4)}}


def cases(tier, seed):
    rng = core.rng_of("C18", tier, seed)
    for i in range(120 if tier == "quick" else 4000):
        yield dict(kind="nodes", n=int(rng.integers(1, 13)), how=str(rng.choice(["uniform", "integers", "list", "intarray", "unsorted", "zero-first", "qgen", "scaled"])), i=i)
    for n in range(1, 11 if tier == "quick" else 16):
        for nt in NT:
            for qt in QT:
                if n == 1 and qt in ("LOBATTO", "RADAU-LEFT"):
                    continue
                yield dict(kind="flex", cfg=(n, nt, qt), i=n)
    for name in TABNAMES:
        for n in range(1, 13):
            for nt in NT + ["UNKNOWN"]:
                for qt in QT + ["UNKNOWN"]:
                    yield dict(kind="table", name=name, cfg=(n, nt, qt))
    for n in range(1, 6 if tier == "quick" else 9):
        for nt in NT:
            for qt in QT:
                if n == 1 and qt in ("LOBATTO", "RADAU-LEFT"):
                    continue
                yield dict(kind="min", cfg=(n, nt, qt))
    for i in range(40 if tier == "quick" else 400):
        yield dict(kind="minrandom", i=i)


def cost(c):
    return {"min": 30, "minrandom": 20, "nodes": 2, "flex": 3}.get(c["kind"], 0.2)


def stiff(Q, d):
    """Spectral radius of the stiff sweep matrix on the nodes with a non-zero row."""
    s = 1 if not np.abs(Q[0]).any() else 0
    if s == len(Q):
        return 0.0
    return np.abs(np.linalg.eigvals(np.eye(len(Q) - s) - (Q[s:, s:].T / d[s:]).T)).max()


def diagonal(mon, M, n, name):
    mon.shape("shape", M, (n, n), name)
    mon.check("diagonal", not (M - np.diag(np.diag(M))).any() and np.isfinite(M).all(), f"{name}: not a finite diagonal matrix", M=M)
    return np.diag(M)


def run_case(mon, case):
    globals()["run_" + case["kind"]](mon, case)


def run_nodes(mon, case):
    from qmat import QDELTA_GENERATORS, genQDeltaCoeffs, Q_GENERATORS
    rng = core.rng_of("C18", mon.seed, case)
    n, how = case["n"], case["how"]
    kw = {}
    if how in ("uniform", "list"):
        x = np.sort(rng.uniform(0, 1, n))
    elif how in ("integers", "intarray"):
        x = np.cumsum(rng.integers(1, 5, n)).astype(float)
    elif how == "unsorted":
        x = rng.uniform(-2, 2, n)
    elif how == "zero-first":
        x = np.concatenate([[0.0], np.sort(rng.uniform(0.1, 1, n - 1))])
    elif how == "scaled":
        x = np.sort(rng.uniform(0, 1, n)) * 10.0**rng.uniform(*[(-9, 9), (-90, 90)][int(rng.integers(2))])
    else:
        a, w = float(rng.normal()), float(10.0**rng.uniform(-3, 3))
        nt, qt = str(rng.choice(NT)), str(rng.choice(QT))
        n = max(n, 2)
        g = Q_GENERATORS["Collocation"](n, nt, qt, *([] if rng.random() < 0.5 else [a, a + w]))
        x = np.array(g.nodes)
        kw = dict(qGen=g)
    arg = {"list": lambda: x.tolist(), "integers": lambda: [int(v) for v in x], "intarray": lambda: x.astype(int)}.get(how, lambda: x)()
    kw = kw or dict(nodes=arg)
    keep = x.copy()
    whole = [int, np.int64, np.int32, np.uint8, np.int16, np.uint64][int(rng.integers(6))]        # type of the iteration numbers
    ks = [1, 2, 3] + sorted({int(v) for v in rng.integers(4, 60, 3)}) + [1000]
    order = [ks[i] for i in rng.permutation(len(ks))]
    for cname, (aliases, div, dep) in DIV.items():
        alias = aliases[int(rng.integers(len(aliases)))]
        name = f"{alias} {how} n={n}"
        g = mon.call("generator", QDELTA_GENERATORS[alias], **kw)
        mon.check("isKDependent", bool(mon.call("isKDependent", g.isKDependent)) == dep, f"{name}: isKDependent should be {dep}")
        mon.check("size", g.size == n, f"{name}: size {g.size}")
        for k in [None] + order + order[:2]:
            M = mon.call("getQDelta", g.getQDelta, whole(k) if k < 200 else k) if k is not None else mon.call("getQDelta", g.getQDelta)
            d = diagonal(mon, M, n, f"{name} k={k} ({whole.__name__})")
            ref = x / div(k or 1, n)
            mon.close("divisor", d, ref, 4 * U * np.abs(ref) + 1e-310, f"{name} k={k}", nodes=x)
        out = mon.call("genCoeffs", g.genCoeffs, k=[list(order), tuple(order), np.array(order)][int(rng.integers(3))])
        mon.shape("shape", out, (len(order), n, n), name)
        mon.close("divisor", np.array([np.diag(m) for m in out]), np.array([x / div(k, n) for k in order]), np.array([4 * U * np.abs(x / div(k, n)) + 1e-310 for k in order]),
                  f"{name}: list of iterations", nodes=x)
        ns = int(rng.integers(1, 9))
        out = mon.call("genQDeltaCoeffs", genQDeltaCoeffs, alias, nSweeps=ns, **kw)
        mon.shape("shape", out, (ns, n, n), name)
        ref = np.array([np.diag(x / div(k, n)) for k in range(1, ns + 1)])
        mon.close("divisor", out, ref, 4 * U * np.abs(ref) + 1e-310, f"{name}: {ns} sweeps", nodes=x)
        mon.same("zero-dTau", g.dTau, np.zeros(n), f"{name}: dTau")
        if dep:
            for bad in (0, -1, -int(rng.integers(2, 50)), np.int64(0), np.int8(-3), 0.0, -0.5, -1e-9, -float(rng.uniform(0, 3))):
                mon.rejects("getQDelta", ValueError, g.getQDelta, bad)
                mon.rejects("genCoeffs", ValueError, g.genCoeffs, k=[1, bad])
            d = diagonal(mon, mon.call("getQDelta", g.getQDelta, 2), n, name)
            mon.close("divisor", d, x / div(2, n), 4 * U * np.abs(x / div(2, n)) + 1e-310, f"{name}: after a rejected iteration", nodes=x)
    now = np.array(kw["qGen"].nodes if "qGen" in kw else arg, dtype=float)
    mon.same("unmodified", now, keep, "nodes modified")
    mon.sample(dict(case=case, iterations=ks))


def run_flex(mon, case):
    from qmat import QDELTA_GENERATORS, Q_GENERATORS
    rng = core.rng_of("C18", mon.seed, case)
    cfg = case["cfg"]
    n = cfg[0]
    coll = Q_GENERATORS["Collocation"](*cfg)
    x = np.array(coll.nodes)
    name = f"MIN-SR-FLEX {cfg}"
    alias = ["MIN_SR_FLEX", "MIN-SR-FLEX"][case["i"] % 2]
    ways = [dict(qGen=coll), dict(zip(("nNodes", "nodeType", "quadType"), cfg))]
    g = mon.call("generator", QDELTA_GENERATORS[alias], **ways[int(rng.integers(2))])
    mon.check("isKDependent", bool(g.isKDependent()), f"{name}: isKDependent")
    S = mon.call("MIN-SR-S", QDELTA_GENERATORS["MIN-SR-S"](*cfg).getQDelta)
    ks = list(range(1, n + 1)) + [n + 1, n + 2, n + 17, 100 + n]
    for k in [None] + [ks[i] for i in rng.permutation(len(ks))]:
        d = diagonal(mon, mon.call("getQDelta", g.getQDelta, k if k is None else [int, np.int64, np.uint8][int(rng.integers(3))](k)), n, f"{name} k={k}")
        if (k or 1) <= n:
            mon.close("flex", d, x / (k or 1), 4 * U * np.abs(x) + 1e-310, f"{name} k={k}")
        else:
            mon.close("flex", d, np.diag(S), 1e-9 * np.abs(S).max() + 0 * x, f"{name} k={k} (MIN-SR-S afterwards)")
    for bad in (0, -1, -int(rng.integers(2, 50)), np.int64(0), np.int8(-3), 0.0, -0.5, -1e-9, -float(rng.uniform(0, 3))):
        mon.rejects("getQDelta", ValueError, g.getQDelta, bad)
    mon.same("zero-dTau", g.dTau, np.zeros(n), f"{name}: dTau")


def run_table(mon, case):
    from qmat import QDELTA_GENERATORS, genQDeltaCoeffs, Q_GENERATORS
    n, nt, qt = case["cfg"]
    t = TABLES.get((case["name"], nt, qt, n))
    for alias in TABNAMES[case["name"]]:
        cls = QDELTA_GENERATORS[alias]
        name = f"{alias} {n} {nt} {qt}"
        if t is None:
            mon.rejects("untabulated", NotImplementedError, lambda: genQDeltaCoeffs(alias, nNodes=n, nodeType=nt, quadType=qt))
            g = mon.call("generator", cls, n, nt, qt)
            mon.rejects("untabulated", NotImplementedError, g.getQDelta)
            mon.rejects("untabulated", NotImplementedError, g.getQDelta)
            mon.rejects("untabulated", NotImplementedError, lambda: g.genCoeffs(k=[1, 2]))
            continue
        coll = Q_GENERATORS["Collocation"](n, nt, qt)
        for kw in (dict(qGen=coll), dict(nNodes=n, nodeType=nt, quadType=qt)):
            g = mon.call("generator", cls, **kw)
            for k in (None, 1, 5):
                d = diagonal(mon, mon.call("getQDelta", g.getQDelta, k), n, name)
                mon.close("table", d, np.array(t["coeffs"]), 4 * U * np.abs(t["coeffs"]), name)
            mon.check("size", g.size == n, f"{name}: size")
            mon.same("zero-dTau", g.dTau, np.zeros(n), f"{name}: dTau")
        rho = stiff(np.array(coll.Q), d)
        pub = t["rho"] if t["rho"] is not None else {3: 0.01, 4: 0.026}.get(n, 0.0)
        if t["rho"] is not None:
            mon.check("published-rho", rho <= pub * (1 + 1e-6) + 1e-7, f"{name}: spectral radius {rho} larger than the published {pub}")
        else:
            mon.check("published-rho", rho <= pub, f"{name}: spectral radius {rho}, published {pub}")


def run_min(mon, case):
    from qmat import QDELTA_GENERATORS, genQDeltaCoeffs, Q_GENERATORS
    n, nt, qt = case["cfg"]
    coll = Q_GENERATORS["Collocation"](n, nt, qt)
    Q = np.array(coll.Q)
    g = mon.call("generator", QDELTA_GENERATORS[["MIN", "MIN-Speck"][n % 2]], qGen=coll)
    name = f"MIN {case['cfg']}"
    d = diagonal(mon, mon.call("getQDelta", g.getQDelta), n, name)
    d2 = diagonal(mon, mon.call("getQDelta", g.getQDelta, 4), n, name)
    mon.same("divisor", d, d2, f"{name}: depends on the iteration")
    rho = np.abs(np.linalg.eigvals(np.eye(n) - (Q.T / d).T)).max()
    start = np.abs(np.linalg.eigvals(np.eye(n) - 10 * Q)).max()
    mon.check("optimised", rho <= start * (1 + 1e-9) + 1e-9, f"{name}: spectral radius {rho}, larger than {start} before optimisation")
    if qt in MINRHO and n <= 4:
        mon.check("optimised", rho <= MINRHO[qt][nt][n - 1], f"{name}: spectral radius {rho}")
    mon.same("zero-dTau", g.dTau, np.zeros(n), f"{name}: dTau")


def run_minrandom(mon, case):
    from qmat import genQDeltaCoeffs
    rng = core.rng_of("C18", mon.seed, case)
    n = int(rng.integers(1, 6))
    Q = (np.diag(rng.uniform(0.5, 2, n)) + 0.3 * rng.normal(size=(n, n))) * float(rng.choice([0.05, 0.1, 0.2, 1.0]))
    d = diagonal(mon, mon.call("genQDeltaCoeffs", genQDeltaCoeffs, "MIN", Q=Q), n, "MIN random")
    rho = np.abs(np.linalg.eigvals(np.eye(n) - (Q.T / d).T)).max()
    start = np.abs(np.linalg.eigvals(np.eye(n) - 10 * Q)).max()
    mon.check("optimised", rho <= start * (1 + 1e-8) + 1e-8, f"MIN random: spectral radius {rho}, larger than {start} before optimisation", Q=Q)
