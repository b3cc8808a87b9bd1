"""C02: three-term recurrences."""
import numpy as np
from qmon import core, gen
from qmon.orthref import TYPES, coeffs, LD

RULE = ("One case = one length (all distributions) or one random coefficient/point set; non-trivial = compared with the analytic coefficients "
        "or with an extended-precision recurrence under a running error bound.")
ROUNDS = dict(quick=8)
REQUIRED = {"getOrthogPolyCoefficients": 300, "evalOrthogPoly": 500, "getTridiagCoefficients": 500, "bound-eigenvalue": 200, "inputs-kept": 500}
ASSUMPTIONS = ["running error bound (6 m + 12) u times the recurrence of absolute values"]
QUADS = ["GAUSS", "RADAU-LEFT", "RADAU-RIGHT", "LOBATTO"]
U = 2.0**-53


def cases(tier, seed):
    rng = core.rng_of("C02", tier, seed)
    for m in list(range(1, 80)) + [100, 127, 128, 129, 200, 255, 256, 500, 1000, 1200]:
        yield dict(kind="coeffs", m=m)
        yield dict(kind="tridiag", m=m)
    for k in range(600 if tier == "quick" else 6000):
        yield dict(kind="eval", m=int(rng.integers(0, 40)), shape=k % 8, own=bool(k % 3 == 0), id=k)
    for k, size in enumerate(gen.BLOCKS):
        yield dict(kind="eval", m=int(rng.integers(1, 8)), shape=8, size=size, own=bool(k % 2), id=100000 + k)
    yield dict(kind="inputs", m=0)


def cost(c):
    return 1 + c["m"] / 20


def ref_eval(t, a, b):
    """(pi_{m-1}, pi_m) and absolute-value recurrences, extended precision."""
    t = np.asarray(t, dtype=LD)
    p1, p0 = np.zeros_like(t), np.ones_like(t)
    m1, m0 = np.zeros_like(t), np.ones_like(t)
    for aj, bj in zip(np.asarray(a, dtype=LD), np.asarray(b, dtype=LD)):
        p0, p1 = (t - aj) * p0 - bj * p1, p0
        m0, m1 = (np.abs(t) + abs(aj)) * m0 + abs(bj) * m1, m0
    return p1, p0, m1, m0


def run_case(mon, case):
    from qmat.nodes import NodesGenerator
    rng = core.rng_of("C02", mon.seed, case)
    m = case["m"]
    if case["kind"] == "coeffs":
        for nt in TYPES:
            for qt in QUADS:
                ng = NodesGenerator(nt, qt)
                mon.distinct.add(core.digest((nt, qt, m)))
                a, b = mon.call("getOrthogPolyCoefficients", ng.getOrthogPolyCoefficients, m)
                ra, rb = coeffs(nt, m)
                mon.shape("shape", a, (m,), f"{nt} alpha"); mon.shape("shape", b, (m,), f"{nt} beta")
                mon.close("alpha", a, ra.astype(float), 4e-16, f"{nt} alpha, length {m}")
                mon.close("beta", b, rb.astype(float), 1e-15 * np.abs(rb.astype(float)) + 1e-300, f"{nt} beta, length {m}")
    elif case["kind"] == "tridiag":
        for nt in TYPES:
            for qt in QUADS:
                if m < (2 if qt in ("LOBATTO", "RADAU-LEFT") else 1):
                    continue
                ng = NodesGenerator(nt, qt)
                mon.distinct.add(core.digest((nt, qt, m)))
                a, b = mon.call("getTridiagCoefficients", ng.getTridiagCoefficients, m)
                mon.shape("shape", a, (m,), f"{nt} alpha"); mon.shape("shape", b, (m,), f"{nt} beta")
                ra, rb = coeffs(nt, m)
                ka = m if qt == "GAUSS" else m - 1
                kb = m - 1 if qt == "LOBATTO" else m
                mon.close("unmodified", a[:ka], ra.astype(float)[:ka], 4e-16, f"{nt} {qt} alpha, n={m}")
                mon.close("unmodified", b[:kb], rb.astype(float)[:kb], 1e-15 * rb.astype(float)[:kb], f"{nt} {qt} beta, n={m}")
                for e in ([-1] if qt.endswith("LEFT") else [1] if qt.endswith("RIGHT") else [-1, 1] if qt == "LOBATTO" else []):
                    # scaled recurrence: p_k = 2^k pi_k stays of moderate size at the ends
                    q1, q0, _, _ = ref_eval(np.array([2 * e]), 2 * ra[:m - 1], 4 * rb[:m - 1])
                    b1 = 4 * LD(b[m - 1]) if m > 1 else LD(0)
                    r = 2 * (e - LD(a[m - 1])) * q0[0] - b1 * q1[0]
                    size = (2 + 2 * abs(LD(a[m - 1]))) * abs(q0[0]) + abs(b1 * q1[0])
                    mon.close("bound-eigenvalue", float(r / size), 0.0, 1e-14 + 4e-16 * m, f"{nt} {qt} n={m}: {e} is not an eigenvalue")
    elif case["kind"] == "eval":
        ng = NodesGenerator(str(rng.choice(TYPES)), str(rng.choice(QUADS)))
        if case["own"]:
            a, b = ng.getOrthogPolyCoefficients(m + 1)
            a, b = a[:m].copy(), b[:m].copy()
        else:
            a, b = rng.normal(size=m), rng.normal(size=m) * 2
            form = rng.integers(6)
            if form == 0 and m:  # constant coefficients
                a, b = np.full(m, a[0]), np.full(m, 4 * abs(b[0]))
            elif form == 1:      # repeated whole numbers
                a, b = rng.integers(-2, 3, m).astype(float), rng.integers(-3, 8, m).astype(float)
            elif form == 2:      # from very small to very large
                a, b = a * 10.0 ** rng.integers(-3, 3, m), b * 10.0 ** rng.integers(-4, 4, m)
        shape = [(), (), (1,), (5,), (7,), (2, 3), (3, 1, 2), (0,), (case.get("size", 1),)][case["shape"]]
        t = np.array(rng.uniform(-1.3, 1.3, shape))
        if t.size:
            t.flat[rng.integers(t.size)] = rng.choice([0.0, 1.0, -1.0, 1.1, 1e-9, -2.0, 1e3])
        arg = float(t) if case["shape"] == 0 else t
        keep = [np.array(v, copy=True) for v in (arg, a, b)]
        p1, p0 = mon.call("evalOrthogPoly", ng.evalOrthogPoly, arg, a, b)
        r1, r0, m1, m0 = ref_eval(t, a, b)
        mon.check("eval-shape", np.shape(p1) == shape and np.shape(p0) == shape, f"shapes {np.shape(p1)}, {np.shape(p0)} for points of shape {shape}")
        c = (6 * m + 12) * U
        mon.close("second-highest", p1, r1.astype(float), c * m1.astype(float) + 1e-300, f"m={m}", t=t, alpha=a, beta=b)
        mon.close("highest", p0, r0.astype(float), c * m0.astype(float) + 1e-300, f"m={m}", t=t, alpha=a, beta=b)
        for v, w in zip(keep, (arg, a, b)):
            mon.same("inputs-kept", v, w, "arguments modified by the evaluation")
        out = mon.call("evalOrthogPoly", ng.evalOrthogPoly, arg if case["shape"] == 0 else t.tolist(), a.tolist(), b.tolist())
        mon.close("highest", out[1], r0.astype(float), c * m0.astype(float) + 1e-300, f"lists, m={m}")
        mon.sample(dict(m=m, shape=shape))
    else:
        ng = NodesGenerator("LEGENDRE", "GAUSS")
        # degree 0..4 Legendre in closed form
        t = np.array([-1.0, -0.3, 0.0, 0.5, 1.0])
        closed = [t**0, t, t**2 - 1 / 3, t**3 - 3 * t / 5, t**4 - 6 * t**2 / 7 + 3 / 35]
        for k in range(5):
            a, b = ng.getOrthogPolyCoefficients(k) if k else (np.array([]), np.array([]))
            p1, p0 = mon.call("evalOrthogPoly", ng.evalOrthogPoly, t, a, b)
            mon.close("highest", p0, closed[k], 1e-15, f"Legendre degree {k}")
            if k:
                mon.close("second-highest", p1, closed[k - 1], 1e-15, f"Legendre degree {k - 1}")
        p1, p0 = ng.evalOrthogPoly(np.array([0, 1, 2]), np.array([0.5]), np.array([1.0]))     # integer points
        mon.close("highest", p0, [-0.5, 0.5, 1.5], 1e-15, "integer points")
