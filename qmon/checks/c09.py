"""C09: collocation coefficients on any interval."""
import numpy as np
from qmon import core, exact, gen

RULE = ("One case = one (count, distribution, quadrature type, interval, way of construction); non-trivial = nodes, Q, weights, S and h coefficients compared "
        "with exact rational integrals / values of the basis on the returned nodes.")
ROUNDS = dict(quick=8)
REQUIRED = {"Collocation": 300, "Q": 300, "S": 300, "weights": 300, "hCoeffs": 300, "bounds": 600}
ASSUMPTIONS = ["tLeft < tRight", "standard nodes themselves are the subject of C01", "rounding bounds as in C03/C04"]
NT = ["EQUID", "LEGENDRE", "CHEBY-1", "CHEBY-2", "CHEBY-3", "CHEBY-4"]
QT = ["GAUSS", "RADAU-LEFT", "RADAU-RIGHT", "LOBATTO"]
IVS = [(0, 1), (0.0, 1.0), (-1, 1), (0, 2), (1, 2), (2, 5), (-3.5, -1.25), (0, 1e-3), (0, 1e-9), (0, 1e6), (100, 100.5), (1e4, 1e4 + 1), (-1e3, 1e3),
       (0.1, 0.7), (-1, 0), (0.5, 1), (0, 0.5), (1e-6, 1.0), (-2.0, 1.0), (1e9, 2e9)]
U = exact.U


def cases(tier, seed):
    rng = core.rng_of("C09", tier, seed)
    i = 0
    top = 12 if tier == "quick" else 30
    for n in range(1, top + 1):
        for nt in NT:
            for qt in QT:
                if n == 1 and qt in ("LOBATTO", "RADAU-LEFT"):
                    continue
                ivs = [None] + ([IVS[int(j)] for j in rng.choice(len(IVS), 3, replace=False)] if tier == "quick" else IVS)
                for iv in ivs:
                    i += 1
                    yield dict(kind="coll", n=n, nt=nt, qt=qt, iv=iv, id=i)
    for n in (14, 17, 20, 24, 32) if tier == "quick" else (32, 40, 50, 64):
        for nt in NT:
            for qt in QT:
                i += 1
                a, w = rng.normal() * 3, 10.0**rng.uniform(-4, 4)
                yield dict(kind="coll", n=n, nt=nt, qt=qt, iv=[None, (a, a + w)][i % 2], id=i)
    for k in range(200 if tier == "quick" else 3000):
        i += 1
        n = int(rng.integers(2, 9))
        w = float(10.0**rng.uniform(-8, 8)) if k % 5 else float(10.0**rng.uniform(-80, 80)); a = float(w * rng.choice([0, 1, -1, rng.normal() * 10, rng.normal() * 1000]))
        yield dict(kind="coll", n=n, nt=str(rng.choice(NT)), qt=str(rng.choice(QT)), iv=(a, a + w), id=i)
    for k in range(100 if tier == "quick" else 1500):      # bounds drawn independently of each other (their difference is usually rounded)
        i += 1
        a, b = np.sort(rng.normal(size=2) * 10.0**rng.uniform(-4, 4, 2))
        yield dict(kind="coll", n=int(rng.integers(2, 7)), nt=str(rng.choice(NT)), qt=str(rng.choice(QT)), iv=(float(a), float(b)), id=i)
    for k in range(8 if tier == "quick" else 60):
        yield dict(kind="ends", id=k)
    for k in range(60 if tier == "quick" else 600):       # bounds as other scalars (same values)
        i += 1
        st = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float16", "longdouble", "0d"][k % 12]
        if k % 12 < 8:
            ii = np.iinfo(st)
            lo, hi = max(ii.min, -10**9), min(ii.max, 10**9)
            a, b = [(lo, hi), (hi - 1, hi), (lo, lo + 1), (hi // 3, hi), (0, 1), tuple(sorted(int(v) for v in rng.choice(np.linspace(lo, hi, 101).astype(int), 2, replace=False)))][int(rng.integers(6))]
        else:
            a, b = [(0.5, 1.5), (-3.25, 100.0), (0.0, 1.0), (-1.0, 0.125)][int(rng.integers(4))]
        yield dict(kind="coll", n=int(rng.integers(2, 9)), nt=str(rng.choice(NT)), qt=str(rng.choice(QT)), iv=(a, b), st=st, id=i)
    for n in (33, 48, 63, 64, 65, 80, 100, 128) if tier == "quick" else (33, 34, 47, 48, 49, 63, 64, 65, 80, 96, 100, 127, 128, 129, 150, 192, 200, 256, 257):
        for j, nt in enumerate(NT[1:]):
            for qt in QT if tier != "quick" else [QT[(j + n) % 4], QT[(j + n + 2) % 4]]:
                i += 1
                yield dict(kind="large", n=n, nt=nt, qt=qt, iv=None if i % 2 else (float(rng.normal()), 0.0), id=i)


def cost(c):
    if c["kind"] == "ends":
        return 4
    if c["kind"] == "large":
        return 2 + c["n"] ** 2 / 2000
    return 1 + c["n"] ** 2.5 / 300


def build(mon, case, rng):
    from qmat import genQCoeffs, Q_GENERATORS
    from qmat.qcoeff.collocation import Collocation
    n, nt, qt, iv = case["n"], case["nt"], case["qt"], case["iv"]
    if case.get("st"):
        iv = tuple(np.array(float(v)) if case["st"] == "0d" else np.dtype(case["st"]).type(v) for v in iv)
    kw = {} if iv is None else dict(tLeft=iv[0], tRight=iv[1])
    how = case["id"] % 4
    if how == 0:
        g = mon.call("Collocation", Collocation, n, nt, qt, *([] if iv is None else iv))
    elif how == 1:
        g = mon.call("Collocation", Collocation, nNodes=n, nodeType=nt, quadType=qt, **kw)
    elif how == 2:
        g = mon.call("Collocation", Q_GENERATORS["coll"], nodeType=nt, quadType=qt, nNodes=np.int64(n), **kw)
    else:
        g = mon.call("Collocation", Q_GENERATORS["Collocation"], n, nt, qt, **kw)
    out = mon.call("genQCoeffs", genQCoeffs, ["Collocation", "coll"][case["id"] % 2], hCoeffs=True, nNodes=n, nodeType=nt, quadType=qt, **kw)
    return g, out


def large(mon, case, rng):
    """Hundreds of nodes: exactness of all coefficients on the Chebyshev polynomials of every degree below n."""
    n, nt, qt, iv = case["n"], case["nt"], case["qt"], case["iv"]
    if iv is not None:
        iv = case["iv"] = (iv[0], iv[0] + float(10.0**rng.uniform(-1, 1)))
    g, out = build(mon, case, rng)
    a, b = (0, 1) if iv is None else iv
    name = f"{nt} {qt} n={n} [{a}, {b}]"
    x = mon.get("nodes", g, "nodes"); Q = mon.get("Q", g, "Q"); w = mon.get("weights", g, "weights")
    S = mon.get("S", g, "S"); h = mon.get("hCoeffs", g, "hCoeffs"); r = mon.get("rightIsNode", g, "rightIsNode")
    mon.shape("shape", x, (n,), name + " nodes"); mon.shape("shape", w, (n,), name + " weights"); mon.shape("shape", h, (n,), name + " hCoeffs")
    mon.shape("shape", Q, (n, n), name + " Q"); mon.shape("shape", S, (n, n), name + " S")
    LD = np.longdouble
    c, rad = (LD(a) + LD(b)) / 2, (LD(b) - LD(a)) / 2
    k = np.arange(n, dtype=LD)

    def prim(t):
        z = np.clip((np.asarray(t, dtype=LD) - c) / rad, -1, 1)
        th = np.arccos(z)[:, None]
        with np.errstate(all="ignore"):
            P = 0.5 * (np.cos((k + 1) * th) / (k + 1) - np.where(k == 1, 0, np.cos((k - 1) * th) / np.where(k == 1, 1, k - 1)))
        P[:, 0] = z
        return P * rad
    V = np.cos(k * np.arccos(np.clip((x.astype(LD) - c) / rad, -1, 1))[:, None])
    at = prim(np.concatenate([[a, b], x]))
    # weights to 16 n u (relative), amplified by the Lebesgue constant
    grid = np.cos(np.pi * np.arange(4 * n + 1) / (4 * n))
    leb = float(np.abs(np.cos(np.arange(n) * np.arccos(grid)[:, None]) @ np.linalg.inv(V.astype(float))).sum(axis=1).max()) + 1
    amp = 16 * n * U * (1 + float(abs(c)) / float(rad))
    for lab, M, ref in (("Q", Q, at[2:] - at[0]), ("weights", w[None], at[1:2] - at[:1]), ("S", S, np.diff(np.concatenate([at[:1], at[2:]]), axis=0))):
        mon.close("large-" + lab, (M @ V).astype(float), ref.astype(float), amp * leb**2 * (b - a), f"{name}: {lab} on Chebyshev polynomials")
        if lab == "S":
            mon.close("large-S", np.cumsum(S, axis=0), Q, 2 * amp * leb**2 * (b - a), f"{name}: sums of S")
    mon.close("large-hCoeffs", h @ V.astype(float), np.ones(n), amp * leb**2, f"{name}: hCoeffs on Chebyshev polynomials")
    mon.check("right-is-node", bool(r) == (x[-1] == b), f"{name}: rightIsNode is {r}")
    for lab, u, v in zip(("nodes", "weights", "Q", "hCoeffs"), out, (x, w, Q, h)):
        mon.same("generic", u, v, f"{name}: {lab} from the generic function")


def ends(mon, rng):
    """The bounds of many intervals: which of them are nodes, bit for bit."""
    from qmat.qcoeff.collocation import Collocation
    for j in range(60):
        a, b = np.sort(rng.normal(size=2) * 10.0**rng.uniform(-6, 6, 2)) if j % 3 else np.sort(rng.normal(size=2)) / rng.choice([1, 3, 7, 1e9])
        nt, qt = str(rng.choice(NT)), QT[j % 4]
        a, b, n = float(a), float(b), int(rng.integers(2, 6))
        if b - a <= 1e-6 * max(abs(a), abs(b)):
            continue
        g = mon.call("Collocation", Collocation, n, nt, qt, a, b)
        x = mon.get("nodes", g, "nodes")
        name = f"{nt} {qt} n={n} [{a!r}, {b!r}]"
        left, right = qt in ("LOBATTO", "RADAU-LEFT"), qt in ("LOBATTO", "RADAU-RIGHT")
        mon.check("bounds", (x[0] == a) == left, f"{name}: first node {x[0]!r}")
        mon.check("bounds", (x[-1] == b) == right, f"{name}: last node {x[-1]!r}")
        mon.check("right-is-node", bool(mon.get("rightIsNode", g, "rightIsNode")) == right, f"{name}: rightIsNode is {g.rightIsNode}")
        mon.check("increasing", (np.diff(x) > 0).all() and x[0] >= a and x[-1] <= b, f"{name}: nodes not increasing within the interval", nodes=x)
        if right:
            mon.same("hCoeffs-unit", mon.get("hCoeffs", g, "hCoeffs") + 0.0, np.eye(n)[-1], f"{name} hCoeffs when the right bound is a node")
        if left:
            mon.same("first-row", np.abs(mon.get("Q", g, "Q")[0]), np.zeros(n), f"{name}: first row of Q when the left bound is a node")


def run_case(mon, case):
    from qmat.nodes import NodesGenerator
    if case["kind"] == "ends":
        return ends(mon, core.rng_of("C09", mon.seed, case))
    rng = core.rng_of("C09", mon.seed, case)
    if case["kind"] == "large":
        return large(mon, case, rng)
    n, nt, qt, iv = case["n"], case["nt"], case["qt"], case["iv"]
    g, out = build(mon, case, rng)
    a, b = (0, 1) if iv is None else iv
    name = f"{nt} {qt} n={n} [{a}, {b}]"
    x = mon.get("nodes", g, "nodes"); Q = mon.get("Q", g, "Q"); w = mon.get("weights", g, "weights")
    S = mon.get("S", g, "S"); h = mon.get("hCoeffs", g, "hCoeffs"); r = mon.get("rightIsNode", g, "rightIsNode")
    mon.shape("shape", x, (n,), name + " nodes"); mon.shape("shape", w, (n,), name + " weights"); mon.shape("shape", h, (n,), name + " hCoeffs")
    mon.shape("shape", Q, (n, n), name + " Q"); mon.shape("shape", S, (n, n), name + " S")
    mon.check("count", mon.get("nNodes", g, "nNodes") == n, f"{name}: nNodes {g.nNodes}")
    # nodes: affine image of the standard nodes
    std = np.asarray(NodesGenerator(nt, qt).getNodes(n), dtype=float)
    ref = a + (np.longdouble(b) - np.longdouble(a)) * (std.astype(np.longdouble) + 1) / 2
    m = max(abs(a), abs(b))
    mon.close("nodes", x, ref.astype(float), 6 * U * m + 6 * U * (b - a), name + " nodes")
    mon.check("increasing", (np.diff(x) > 0).all() and x[0] >= a and x[-1] <= b, f"{name}: nodes not increasing within the interval", nodes=x)
    left, right = qt in ("LOBATTO", "RADAU-LEFT"), qt in ("LOBATTO", "RADAU-RIGHT")
    wide = (b - a) > 1e-9 * m * n * n
    for cond, v, bound, what in ((left, x[0], a, "left"), (right, x[-1], b, "right")):
        if cond:
            mon.check("bounds", v == bound, f"{name}: {what} bound {bound!r} is not a node ({v!r})")
        elif wide:
            mon.check("bounds", v != bound, f"{name}: {what} bound {bound!r} is a node")
    mon.check("right-is-node", bool(r) == bool(x[-1] == b) and (bool(r) == right or not wide), f"{name}: rightIsNode is {r}", nodes=x)
    # exact integrals over the returned nodes
    nu = np.abs(std)
    lag = exact.Lagrange(x)
    iq = [(a, t) for t in x]; iw = [(a, b)]; isn = [(a, x[0])] + list(zip(x[:-1], x[1:]))
    for lab, M, ivs in (("Q", Q, iq), ("weights", w[None, :], iw), ("S", S, isn)):
        tol = exact.tol_integrals(x, ivs)
        E = lag.integrals(ivs)
        if not np.isfinite(tol).all() or tol.max() > 1e-2 * (b - a):
            mon.notes[f"{lab} skipped (not determined in double precision)"] += 1
            mon.oracles[lab] += 0
            continue
        mon.close(lab, M, E, tol, f"{name} {lab}", nodes=x)
    P = lag.values(np.array([float(b)]))
    tol = exact.tol_values(x, P)
    if tol.max() < 1e-1:
        mon.close("hCoeffs", h[None, :], P, tol, f"{name} hCoeffs", nodes=x)
    if r:
        mon.same("hCoeffs-unit", h + 0.0, np.eye(n)[-1], f"{name} hCoeffs when the right bound is a node")
    if left:
        mon.same("first-row", np.abs(Q[0]), np.zeros(n), f"{name}: first row of Q when the left bound is a node")
        mon.same("first-row", np.abs(S[0]), np.zeros(n), f"{name}: first row of S when the left bound is a node")
    # generic function agrees
    for lab, u, v in zip(("nodes", "weights", "Q", "hCoeffs"), out, (x, w, Q, h)):
        mon.same("generic", u, v, f"{name}: {lab} from the generic function")
    mon.check("generic", len(out) == 4, "number of outputs")
    mon.sample(dict(case=case))
