"""C12: additive (IMEX) Runge-Kutta pairs."""
import numpy as np
from qmon import core, trees

PAIRS = [("ARK548L2SAERK", "ARK548L2SAESDIRK", 5, 4), ("ARK548L2SAERK2", "ARK548L2SAESDIRK2", 5, 4), ("ARK324L2SAERK", "ARK324L2SAESDIRK", 3, 2),
         ("ARK222ERK", "ARK222EDIRK", 2, None), ("ARK443ERK", "ARK443ESDIRK", 3, None), ("ARK343ERK", "ARK343ESDIRK", 3, None), ("ARK4ERK", "ARK4EDIRK", 4, None)]
RULE = ("One case = one pair (all coupled order conditions over bicoloured rooted trees), or one split initial-value problem integrated with the additive method by an "
        "independent integrator; non-trivial = conditions evaluated / local error ratio observed.")
REQUIRED = {"coupling": 500, "coupling-embedded": 100, "stage-times": 7, "split-local-error": 50}
ASSUMPTIONS = ["ARK343 is published with 10 digits (tolerance 3e-10); its pair has order 3"]


def cases(tier, seed):
    for i in range(len(PAIRS)):
        yield dict(kind="pair", i=i)
        for k in range(12 if tier == "quick" else 100):
            yield dict(kind="split", i=i, k=k)


def tables(mon, i):
    from qmat.qcoeff.butcher import RK_SCHEMES
    e, s, p, q = PAIRS[i]
    mon.check("registered", e in RK_SCHEMES and s in RK_SCHEMES, f"{e} / {s} not registered")
    E, I = mon.call("RK", RK_SCHEMES[e]), mon.call("RK", RK_SCHEMES[s])
    return E, I


def run_case(mon, case):
    e, s, p, q = PAIRS[case["i"]]
    E, I = tables(mon, case["i"])
    loose = 3e-10 if "343" in e else 0.0
    if case["kind"] == "split":
        return split(mon, case, E, I, p)
    name = f"{e} + {s}"
    mon.close("stage-times", E.nodes, I.nodes, 1e-14 + loose, f"{name}: stage times")
    mon.check("declared", E.order >= p and I.order >= p, f"{name}: declared orders {E.order}, {I.order}, pair {p}")
    for oracle, b, top in (("coupling", (E.weights, I.weights), p),) + ((("coupling-embedded", (E.weightsEmbedded, I.weightsEmbedded), q),) if q else ()):
        As = [np.asarray(E.Q, dtype=trees.LD), np.asarray(I.Q, dtype=trees.LD)]
        bs = [np.asarray(v, dtype=trees.LD) for v in b]
        aA = [np.abs(v) for v in As]
        for k in range(1, top + 1):
            for t in trees.trees(k):
                g = 1 / trees.LD(trees.gamma(t))
                for ct in trees.colourings(t):
                    d = float(bs[ct[0]] @ trees.phi2(ct, As) - g)
                    mag = float(np.abs(bs[ct[0]]) @ trees.phi2(ct, aA))
                    mon.close(oracle, d, 0.0, loose + 1e-14 * mag, f"{name}: coupled condition of order {k}, tree {ct}")
    mon.sample(dict(pair=name, order=p))


def split(mon, case, E, I, p):
    """u' = f + g, g linear (implicit part), f nonlinear and time dependent: one step of the additive method, exact solution prescribed."""
    rng = core.rng_of("C12", mon.seed, case)
    w, al, be = rng.uniform(0.5, 2), rng.normal(), rng.normal()
    th = rng.uniform(0, 6)
    u = lambda t: np.cos(w * t + th) + 2
    du = lambda t: -w * np.sin(w * t + th)
    h1 = lambda t: al * u(t) + be * u(t) ** 2 * np.cos(t)
    # f(t, v) = be v^2 cos t + rest, g(t, v) = al v
    f = lambda t, v: be * v * v * np.cos(t) + du(t) - h1(t)
    AE, AI, bE, bI, c = E.Q, I.Q, E.weights, I.weights, E.nodes
    errs = []
    hs = [2.0**-k for k in (4, 5, 6, 7, 8)]
    for h in hs:
        F, G = np.zeros(c.size), np.zeros(c.size)
        for m in range(c.size):
            r = u(0) + h * (AE[m, :m] @ F[:m] + AI[m, :m] @ G[:m])
            v = r / (1 - h * AI[m, m] * al)
            F[m], G[m] = f(c[m] * h, v), al * v
        errs.append(abs(u(0) + h * (bE @ F + bI @ G) - u(h)))
    mon.events["additive step"] += len(hs)
    # a lost order shows in every refinement; a sign change of the error can only hide it (or disturb single refinements)
    slopes = [np.log2(max(a, 1e-300) / max(b, 1e-300)) for a, b in zip(errs[1:-1], errs[2:])]
    ok = max(slopes) > p + 0.6 or errs[-1] < 1e-12
    mon.check("split-local-error", ok, f"{PAIRS[case['i']][:2]}: local errors {errs} decay with slopes {slopes}, expected {p + 1}")
