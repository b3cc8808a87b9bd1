"""C13: padded Runge-Kutta tables."""
import json, os
import numpy as np
from qmon import core

RULE = ("One case = one (scheme name, padding, way of construction); non-trivial = the padded table compared with the unpadded one, and steps of both, with both weight "
        "sets, on linear variable-coefficient systems (every scheme) and nonlinear problems (explicit schemes), performed by an independent integrator.")
ROUNDS = dict(quick=12)
REQUIRED = {"inner-block": 200, "left-stage": 100, "right-stage": 100, "linear-step": 400, "nonlinear-step": 100, "embedded-step": 60, "rejects": 10}
ASSUMPTIONS = ["the independent integrator solves the stage equations densely; results compared to 1e-12 relative"]
with open(os.path.join(core.VERIF, "ref", "rk_tables.json")) as f:
    REF = json.load(f)


def cases(tier, seed):
    k = 0
    for name, r in REF.items():
        for alias in [name] + r["aliases"]:
            for pad in ("LEFT", "RIGHT", "BOTH"):
                for rep in range(2 if tier == "quick" else 20):
                    k += 1
                    yield dict(kind="pad", name=name, alias=alias, pad=pad, how=k % 3, rep=rep)
        yield dict(kind="invalid", name=name)


def step_linear(A, b, c, lam, g, u0, h):
    """One step of u' = lam(t) u + g(t); returns update and stage values."""
    n = c.size
    L = np.array([lam(t * h) for t in c]); G = np.array([g(t * h) for t in c])
    K = np.eye(n) - h * A * L[None, :]
    U = np.linalg.solve(K, u0 + h * A @ G)
    return u0 + h * b @ (L * U + G), U


def step_explicit(A, b, c, f, u0, h):
    n = c.size
    U = np.zeros((n, u0.size)); F = np.zeros((n, u0.size))
    for m in range(n):
        U[m] = u0 + h * (A[m, :m] @ F[:m] if m else 0)
        F[m] = f(c[m] * h, U[m])
    return u0 + h * b @ F, U


def run_case(mon, case):
    from qmat.qcoeff.butcher import RK_SCHEMES
    from qmat import Q_GENERATORS, genQCoeffs
    cls = RK_SCHEMES[case.get("alias", case["name"])]
    if case["kind"] == "invalid":
        for bad in ("left", "CENTER", "LEFTRIGHT", 3, ("LEFT",)):
            mon.rejects("RK", (AssertionError, ValueError, TypeError), cls, padding=bad)
        for none in (None,):
            g = mon.call("RK", cls, padding=none)
            mon.same("no-padding", [g.A, g.b, g.c], [cls().A, cls().b, cls().c], f"{case['name']} with padding None")
        return
    rng = core.rng_of("C13", mon.seed, case)
    pad = case["pad"]
    base = mon.call("RK", cls)
    how = case["how"]
    g = mon.call("RK", cls, **dict(padding=pad)) if how == 0 else mon.call("RK", cls, pad) if how == 1 else mon.call("RK", Q_GENERATORS[case["alias"]], padding=pad)
    emb = base.b2 is not None
    out = mon.call("genQCoeffs", genQCoeffs, case["alias"], embedded=emb, padding=pad)
    A, b, c = (np.asarray(mon.get(k, g, k), dtype=float) for k in ("Q", "weights", "nodes"))
    A0, b0, c0 = np.asarray(base.Q, dtype=float), np.asarray(base.weights, dtype=float), np.asarray(base.nodes, dtype=float)
    n0, l, r = c0.size, int(pad in ("LEFT", "BOTH")), int(pad in ("RIGHT", "BOTH"))
    n = n0 + l + r
    name = f"{case['alias']} padding {pad}"
    mon.shape("shape", A, (n, n), name + " A"); mon.shape("shape", b, (n,), name + " b"); mon.shape("shape", c, (n,), name + " c")
    mon.check("count", g.nNodes == n, f"{name}: nNodes {g.nNodes}")
    inner = slice(l, l + n0)
    mon.same("inner-block", [A[inner, inner], b[inner], c[inner]], [A0, b0, c0], f"{name}: inner block")
    pairs = [("linear-step", b, b0)]
    if emb:
        b2, b20 = np.asarray(mon.get("weightsEmbedded", g, "weightsEmbedded"), dtype=float), np.asarray(base.weightsEmbedded, dtype=float)
        mon.shape("shape", b2, (n,), name + " embedded weights")
        mon.same("inner-block", b2[inner], b20, f"{name}: embedded weights")
        pairs.append(("embedded-step", b2, b20))
        mon.same("generic", out[1], np.array([b, b2]), f"{name}: generic function with embedded weights")
    else:
        mon.same("generic", out[1], b, f"{name}: generic function")
    mon.same("generic", [out[0], out[2]], [c, A], f"{name}: generic function")
    for w in [b] + ([b2] if emb else []):
        mon.check("zero-weights", not np.delete(w, range(l, l + n0)).any(), f"{name}: padded stages have non-zero weights", weights=w)
    mon.check("columns", not np.delete(A[inner], range(l, l + n0), axis=1).any(), f"{name}: inner stages depend on padded ones", A=A)
    if l:
        mon.check("left-stage", c[0] == 0 and not A[0].any(), f"{name}: left stage is not an explicit copy of the initial value", A=A, c=c)
    if r:
        mon.check("right-stage", c[-1] == 1 and A[-1, -1] == 0 and np.array_equal(A[-1, inner], b0) and not (l and A[-1, 0]),
                  f"{name}: right stage is not a copy of the step update", A=A, c=c)
    # steps: linear with variable coefficients (any scheme)
    w, th = rng.uniform(0.3, 2, 2), rng.uniform(0, 6, 2)
    lam = lambda t: -0.5 + 0.8j * np.cos(w[0] * t + th[0]); gg = lambda t: np.sin(w[1] * t + th[1]) + 1j * t
    h = float(rng.uniform(0.05, 1.0))
    u0 = complex(rng.normal(), rng.normal())
    for oracle, bb, bb0 in pairs:
        u, U = step_linear(A, bb, c, lam, gg, u0, h)
        v, V = step_linear(A0, bb0, c0, lam, gg, u0, h)
        sc = 1e-12 * (abs(v) + np.abs(V).max() + 1) * (1 + np.abs(A0).sum())
        mon.close(oracle, u, v, sc, f"{name}: step on a linear problem")
        mon.close("stages", U[inner], V, sc, f"{name}: inner stage values")
        if l:
            mon.close("left-stage", U[0], u0, sc, f"{name}: left stage value")
        if r and oracle == "linear-step":
            mon.close("right-stage", U[-1], v, sc, f"{name}: right stage value is the step update")
    if not np.triu(A0).any():
        f = lambda t, x: np.array([x[1] * np.cos(t), -x[0] * x[0] + t])
        y0 = rng.normal(size=2)
        for oracle, bb, bb0 in pairs:
            u, U = step_explicit(A, bb, c, f, y0, h); v, V = step_explicit(A0, bb0, c0, f, y0, h)
            mon.close("nonlinear-step", u, v, 1e-11 * (1 + np.abs(v).max() + np.abs(V).max()) ** 2, f"{name}: step on a nonlinear problem")
    # through the library's own solver
    z = complex(rng.uniform(-1, 0), rng.normal())
    for e in ([False, True] if emb else [False]):
        u = mon.call("solveDahlquist", g.solveDahlquist, z, 1 - 0.5j, 1.0, 4, useEmbeddedWeights=e)
        v = mon.call("solveDahlquist", base.solveDahlquist, z, 1 - 0.5j, 1.0, 4, useEmbeddedWeights=e)
        mon.close("embedded-step" if e else "linear-step", u, v, 1e-12 * (1 + np.abs(v).max()) * (1 + np.abs(A0).sum()), f"{name}: Dahlquist solution (embedded {e})")
    mon.check("order", g.order == base.order, f"{name}: order {g.order}")
    if emb:
        mon.check("order", g.orderEmbedded == base.orderEmbedded, f"{name}: order of the embedded method {g.orderEmbedded}")
    fresh = cls()
    mon.same("class-tables", [fresh.A, fresh.b, fresh.c], [A0, b0, c0], f"{name}: tables of the class after padding")
    mon.sample(dict(case=case, stages=n))
