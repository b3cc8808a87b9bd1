"""C07: sparse interpolation matrices."""
import itertools
from fractions import Fraction as F
import numpy as np
from qmon import core, exact, gen

RULE = ("One case = one (input grid, output grid, order, period); non-trivial = every row was compared with the exact Lagrange values on the exact nearest "
        "stencil (all admissible stencils when distances tie).")
ROUNDS = dict(quick=8)
NARROW = True
REQUIRED = {"getSparseInterpolationMatrix": 300, "stencil": 2000, "entries": 2000, "rejects": 20, "periodic-row": 500, "plain-row": 500}
ASSUMPTIONS = ["input points distinct (periodic: distinct modulo the period and spanning less than one period)",
               "rounding bound: positions known to 4u(|x|+|t|+P) + 1e-12 of the stencil spacing, times the sensitivity of the exact basis"]
U = exact.U


def cases(tier, seed):
    rng = core.rng_of("C07", tier, seed)
    i = 0
    outs = ["same", "equid", "random", "clustered", "near", "outside", "nonuniform", "repeated", "single", "reversed", "remote", "pattern"]
    reps = 1 if tier == "quick" else 8
    for rep in range(reps):
        for p in range(1, 9):
            for o in outs:
                for per in (False, True):
                    for g in ("equid", "random", "cheb", "shuffled", "descending", "geometric"):
                        i += 1
                        n = int(p + rng.integers(0, 9))
                        yield dict(kind="matrix", p=p, n=n, grid=g, out=o, per=per, scale=float(rng.choice([1.0, 1e-6, 1e5, 1e-9, 0.37, 1e9])),
                                   off=float(rng.choice([0.0, 0.0, 1.0, -7.25, 100.0])), far=int(rng.choice([0, 0, 1, 3, 50])), id=i)
    for k in range(300 if tier == "quick" else 6000):
        i += 1
        p = int(rng.integers(1, 8))
        yield dict(kind="matrix", p=p, n=int(p + rng.integers(0, 30)), grid=str(rng.choice(["equid", "random", "cheb", "shuffled", "almost"])),
                   out=str(rng.choice(outs)), per=bool(rng.random() < 0.5), scale=float(10.0**rng.uniform(-8, 8)), off=float(rng.normal() * 10),
                   far=int(rng.choice([0, 1, 10])), id=i)
    for n in [40, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257] + ([400, 512, 513, 1000] if tier == "thorough" else []):   # large grids
        for k in range(2 if tier == "quick" else 12):
            i += 1
            yield dict(kind="matrix", p=int(rng.integers(1, 7)), n=n, grid=["random", "shuffled", "cheb", "almost", "descending", "equid"][int(rng.integers(6))],
                       out=["random", "clustered", "nonuniform", "outside", "reversed"][int(rng.integers(5))], per=bool((k + i) % 3 == 0), scale=float(rng.choice([1.0, 0.37, 1e5, 1e-6])),
                       off=float(rng.choice([0.0, 1.0])), far=0, id=i)
    for k, m in enumerate(rng.choice(gen.BLOCKS[:36], 8 if tier == "quick" else 36, replace=False).tolist()):
        i += 1
        yield dict(kind="many", p=int(rng.integers(1, 5)), n=int(rng.integers(6, 12)), m=m, per=bool(k % 2), grid=["equid", "random", "shuffled"][k % 3], out="random",
                   scale=float(rng.choice([1.0, 0.37, 1e5])), off=0.0, far=int(k % 4 == 1), id=i)
    yield dict(kind="inputs", id=0)


def grids(case, rng):
    n, g = case["n"], case["grid"]
    if g in ("equid", "shuffled", "descending"):
        x = np.arange(n) / n
    elif g == "random":
        x = np.sort(rng.uniform(0, 1, n)) * 0.4 + 0.6 * np.arange(n) / n
    elif g == "almost":       # uniform except for one point: neighbouring stencils nearly alike
        x = np.arange(n) / n; x[rng.integers(n)] += 1e-3 / n
    elif g == "cheb":
        x = 0.5 - 0.5 * np.cos((2 * np.arange(n) + 1) * np.pi / (2 * n))
    elif g == "geometric":
        x = np.sort(0.95 * 0.75 ** np.arange(n))
    m = {"single": 1}.get(case["out"], int(rng.integers(2, 9)))
    o = case["out"]
    if o == "same":
        t = x.copy()
    elif o in ("equid", "reversed"):
        t = np.arange(3 * m) / (3 * m)
        t = t[::-1].copy() if o == "reversed" else t
    elif o in ("random", "single"):
        t = rng.uniform(0, 1, m)
    elif o == "clustered":
        t = rng.uniform(0, 1) + 1e-3 * rng.uniform(0, 1, m)
    elif o == "near":
        t = np.concatenate([x + 1e-7 * rng.normal(size=n), np.nextafter(x, 2)])
    elif o == "outside":
        t = np.concatenate([-0.1 * rng.uniform(0, 1, m), 1 + 0.1 * rng.uniform(0, 1, m)])
    elif o == "nonuniform":
        t = np.sort(rng.uniform(0, 1, 12)) ** 2
    elif o == "remote":       # far extrapolation, on both sides
        t = np.concatenate([-(10.0 ** rng.uniform(0, 3, m)), 1 + 10.0 ** rng.uniform(0, 3, m)])
    elif o == "pattern":      # the same few positions again and again, also one or more periods later
        q = rng.uniform(0, 1, 3)
        t = np.concatenate([q[:2], q[:2] + 1, q, q + 1, [q[0]] * 3, q[::-1] - 1, rng.permutation(np.concatenate([q, q + 1, q + 2]))])
    elif o == "repeated":
        t = np.repeat(rng.uniform(0, 1, m), 2)
    P = case["scale"]
    if case["per"] and case["far"]:
        t = t + rng.integers(-case["far"], case["far"] + 1, t.size)
    x, t = (x + case["off"]) * case["scale"], (t + case["off"]) * case["scale"]
    if g == "shuffled":
        x = rng.permutation(x)
    if g == "descending":
        x = x[::-1].copy()
    return x, t, (P if case["per"] else None)


def reference_rows(x, t, p, P):
    """All admissible (columns, exact stencil positions relative to t) for one output point."""
    tF = F(float(t))
    d = []
    for j, v in enumerate(x):
        r = F(float(v)) - tF
        if P is None:
            d.append([(abs(r), j, r)])
        else:
            PF = F(float(P))
            r -= PF * ((r / PF + F(1, 2)).__floor__())        # in [-P/2, P/2)
            d.append([(abs(r), j, r), (PF - abs(r), j, r - PF if r > 0 else r + PF)])
    flat = sorted(itertools.chain(*d), key=lambda q: (q[0], q[1]))
    eps = F(4 * U) * (abs(tF) + max(abs(F(float(v))) for v in x) + (4 * F(float(P)) if P else 0))
    cut = flat[p - 1][0]
    sure = [q for q in flat if q[0] < cut - 2 * eps]
    tied = [q for q in flat if abs(q[0] - cut) <= 2 * eps]
    need = p - len(sure)
    if len(tied) > 12:
        return None, eps
    return [sure + list(c) for c in itertools.combinations(tied, need)], eps


def run_case(mon, case):
    from qmat.lagrange import getSparseInterpolationMatrix as fn
    rng = core.rng_of("C07", mon.seed, case)
    if case["kind"] == "inputs":
        return inputs(mon, rng)
    p, n = case["p"], case["n"]
    x, t, P = grids(case, rng)
    if case["kind"] == "many":
        return many(mon, case, x, t, P, rng)
    if np.unique(x).size < n:
        return
    xc, tc = x.copy(), t.copy()
    kw = {} if P is None else dict(gridPeriod=P)
    A = mon.call("getSparseInterpolationMatrix", fn, x, t, p, **kw)
    verify(mon, A, x, t, p, P, case)
    mon.same("arguments", [x, t], [xc, tc], "arguments modified")
    if P is None and case["id"] % 3 == 0:
        B = mon.call("getSparseInterpolationMatrix", fn, x, t, p, gridPeriod=[-1, -2.5, -1.0][case["id"] % 3])
        mon.same("non-periodic", A.toarray(), B.toarray(), "negative period")
    mon.sample(dict(case=case, rows=int(t.size)))


def many(mon, case, x, t, P, rng):
    """Many output points: every row equals the row of a verified small problem."""
    from qmat.lagrange import getSparseInterpolationMatrix as fn
    p, kw = case["p"], {} if P is None else dict(gridPeriod=P)
    pool = np.concatenate([t, rng.uniform(t.min(), t.max() + 1e-3 * (x.max() - x.min()), 12)])
    A = mon.call("getSparseInterpolationMatrix", fn, x, pool, p, **kw)
    verify(mon, A, x, pool, p, P)
    idx = rng.integers(pool.size, size=case["m"])
    B = mon.call("getSparseInterpolationMatrix", fn, x, pool[idx], p, **kw)
    mon.check("sparse", hasattr(B, "toarray") and B.shape == (idx.size, x.size), f"not a sparse matrix of shape {(idx.size, x.size)}")
    D, E = B.toarray(), A.toarray()[idx]
    # weights are computed from the stencil met first among nearly equal ones (1e-12 of the spacing): same rows up to that
    mon.close("many-rows", D, E, 1e-9 * (1 + np.abs(E).sum(axis=1, keepdims=True)) ** 2 + 0 * E, f"{idx.size} output points", x=x, order=p, period=P)
    for i in np.linspace(0, idx.size - 1, 3).astype(int):
        verify(mon, B[[i]], x, pool[idx[[i]]], p, P)


def verify(mon, A, x, t, p, P, case=None):
    n = x.size
    mon.check("sparse", hasattr(A, "toarray") and A.shape == (t.size, n), f"not a sparse matrix of shape {(t.size, n)}")
    D = A.toarray()
    mon.check("finite", np.isfinite(D).all(), "non-finite entries", x=x, t=t, order=p)
    xs = x
    for i, ti in enumerate(t):
        cands, eps = reference_rows(xs, ti, p, P)
        if cands is None:
            mon.notes["rows with too many ties skipped"] += 1
            continue
        mon.oracles["periodic-row" if P else "plain-row"] += 1
        row = D[i]
        support = set(np.flatnonzero(row).tolist())
        allowed = [c for c in cands if support <= {q[1] for q in c}]
        if not mon.check("stencil", allowed, f"row {i} (output point {ti!r}) uses columns {sorted(support)}, the {p} nearest points are "
                         f"{[sorted(q[1] for q in c) for c in cands[:3]]}", x=x, t=t, order=p, period=P):
            continue
        best = None
        for c in allowed:
            cols = [q[1] for q in c]
            if len(set(cols)) < p:
                continue
            pos = [q[2] for q in c]
            ref, sens = basis(pos)
            gap = min([abs(a - b) for a, b in itertools.combinations(pos, 2)], default=F(0))
            tol = (4e-13 * float(gap) * (1 if p > 1 else 0) + 2 * float(eps)) * sens + (6 * p + 30) * 8 * U * (1 + np.abs(ref).sum()) * np.abs(ref) + 1e-300
            err = np.abs(row[cols] - ref)
            ratio = float(np.max(np.where(np.isfinite(err), err / np.maximum(tol, 1e-300), np.inf)))
            if best is None or ratio < best[0]:
                best = (ratio, cols, ref, tol)
        if best is None:
            continue
        if np.max(best[3]) > 1e-2:
            mon.notes["rows skipped (positions not determined in double precision)"] += 1
            continue
        mon.close("entries", row[best[1]], best[2], best[3], f"row {i} (output point {ti!r})", x=x, t=t, order=p, period=P)


def basis(pos):
    """Exact Lagrange values at 0 for positions pos, and their sensitivity to absolute perturbations of positions and time."""
    p = len(pos)
    L, sens = [], []
    for j in range(p):
        v = F(1)
        for k in range(p):
            if k != j:
                v *= -pos[k] / (pos[j] - pos[k])
        L.append(v)
    Lf = np.array([float(v) for v in L])
    z = np.array([float(v) for v in pos])
    if p == 1:
        return Lf, np.zeros(1)
    # D[m, j] = L_j'(z_m)
    w = exact.exact_weights(z) if len(set(z.tolist())) == p else None
    if w is None:
        return Lf, np.full(p, 1e300)
    d = z[:, None] - z[None, :]
    d[np.diag_indices(p)] = 1
    Dm = (w[None, :] / w[:, None]) / d
    Dm[np.diag_indices(p)] = 0
    Dm[np.diag_indices(p)] = -Dm.sum(axis=1)
    return Lf, 2 * np.abs(Lf) @ np.abs(Dm)


def inputs(mon, rng):
    from qmat.lagrange import getSparseInterpolationMatrix as fn
    for n in range(1, 8):
        x = np.linspace(0, 1, n)
        for p in range(n + 1, n + 4):
            mon.rejects("getSparseInterpolationMatrix", (AssertionError, ValueError), fn, x, np.array([0.5]), p)
            mon.rejects("getSparseInterpolationMatrix", (AssertionError, ValueError), fn, x, np.array([0.5]), p, gridPeriod=2.0)
        for P in (None, 2.0):
            A = mon.call("getSparseInterpolationMatrix", fn, x, np.array([0.3, 0.7]), n, **({} if P is None else dict(gridPeriod=P)))
            verify(mon, A, x, np.array([0.3, 0.7]), n, P)
    # integer grids, lists of output points, no output points
    x = np.arange(7)
    for t in ([2, 3.5, 6], (0.25, 5), np.array([1, 2]), []):
        A = mon.call("getSparseInterpolationMatrix", fn, x, t, 3)
        verify(mon, A, x.astype(float), np.array(t, dtype=float), 3, None)
        A = mon.call("getSparseInterpolationMatrix", fn, x, t, 3, 7)
        verify(mon, A, x.astype(float), np.array(t, dtype=float), 3, 7)
    # grids of every type
    for k in range(6):
        n = int(rng.integers(2, 9))
        x = rng.choice(np.arange(-100 * (k % 2), 120), n, replace=False).astype(float)
        t = np.concatenate([rng.integers(x.min(), x.max() + 1, 3), x[:2]]).astype(float)
        p = int(rng.integers(1, min(n, 4) + 1))
        for i, a in enumerate(v for v in gen.forms(x, wide=True) if isinstance(v, np.ndarray)):
            for j, b in enumerate(gen.forms(t, wide=True)):
                P = [None, 256, 256.0][(i + j + k) % 3]
                A = mon.call("getSparseInterpolationMatrix", fn, a, b, p, **({} if P is None else dict(gridPeriod=P)))
                verify(mon, A, x, t, p, P)
    # alternating stencils: consecutive output points with different or identical relative stencils
    x = np.concatenate([np.arange(5) * 1.0, 5 + 0.5 * np.arange(5)])
    for t in (np.array([1.5, 6.25, 2.5, 6.75, 1.5]), np.array([0.5, 1.5, 2.5, 3.5, 5.25, 5.75]), np.array([0.5, 0.5 + 1e-9, 0.5, 0.5 - 1e-9])):
        for p in (1, 2, 3, 4, 5):
            verify(mon, mon.call("getSparseInterpolationMatrix", fn, x, t, p), x, t, p, None)
            for s in (1e-10, 1e10, 1e-150):
                verify(mon, mon.call("getSparseInterpolationMatrix", fn, x * s, t * s, p), x * s, t * s, p, None)
