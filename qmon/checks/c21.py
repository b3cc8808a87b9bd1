"""C21: parameters taken from a base generator."""
import warnings
import numpy as np
from qmon import core

RULE = ("One case = one base generator (collocation on any interval, padded or plain Runge-Kutta, user-defined) and every approximation applicable to it; non-trivial = matrix and "
        "dTau built from the object compared bit for bit with those built from explicit parameters, in every way of passing them.")
REQUIRED = {"same": 3000, "override": 1000, "deprecated": 500, "rejects": 1500, "extra": 500}
ASSUMPTIONS = ["explicit parameters themselves are decided by C16 to C19"]
NT = ["EQUID", "LEGENDRE", "CHEBY-1", "CHEBY-2", "CHEBY-3", "CHEBY-4"]
QT = ["GAUSS", "RADAU-LEFT", "RADAU-RIGHT", "LOBATTO"]
KIND = {**{k: "Q" for k in ("PIC", "Exact", "LU", "LU2", "QPar", "GS", "LDU", "MIN", "Picard", "EXACT", "Qdiag", "GaussSeidel", "MIN-Speck")},
        **{k: "t" for k in ("BE", "IE", "FE", "EE", "TRAP", "CN", "BEPAR", "IEpar", "TRAPAR", "SOE", "LF")},
        **{k: "n" for k in ("MIN_SR_NS", "MIN-SR-NS", "MIN_GT", "Jumper", "FB", "FlexJumper", "FB2", "DNODES", "DNODES-1", "DNODES2", "DNODES3", "DNODES-3", "DNODES4", "DNODES5")},
        **{k: "c" for k in ("MIN_SR_S", "MIN-SR-S", "MIN_SR_FLEX", "MIN-SR-FLEX", "MIN3", "Magic_Numbers", "MIN_VDHS", "VDHS")}}
PNAMES = {"Q": ["Q"], "t": ["nodes", "tLeft"], "n": ["nodes"], "c": ["nNodes", "nodeType", "quadType"]}


def cases(tier, seed):
    rng = core.rng_of("C21", tier, seed)
    for n in range(1, 6 if tier == "quick" else 10):
        for nt in NT:
            for qt in QT:
                if n == 1 and qt in ("LOBATTO", "RADAU-LEFT"):
                    continue
                for iv in (None, True):
                    a, w = float(rng.normal()), float(10.0**rng.uniform(-3, 3))
                    if rng.random() < 0.2:
                        a = float(round(5 * a))
                    yield dict(kind="coll", cfg=(n, nt, qt), iv=None if iv is None else (a, a + w), i=int(rng.integers(10**6)))
    from qmat.qcoeff.butcher import RK_SCHEMES
    for name in sorted({c.__name__ for c in RK_SCHEMES.values()}):
        yield dict(kind="rk", name=name, pad=[None, "LEFT", "RIGHT", "BOTH"][int(rng.integers(4))], i=int(rng.integers(10**6)))
    for i in range(10 if tier == "quick" else 300):
        yield dict(kind="user", i=i)


def cost(c):
    return c["cfg"][0] ** 2 if "cfg" in c else 3


def base(case, rng):
    from qmat.qcoeff import Q_GENERATORS, QGenerator
    derived = [False, False, True][case["i"] % 3]            # user-defined subclasses are as good as the shipped classes
    if case["kind"] == "coll":
        cls = Q_GENERATORS["Collocation"]
        if derived:
            class Derived(cls):
                """Collocation with something more."""
                note = "derived"
            cls = Derived if case["i"] % 2 else type("Twice", (Derived,), {})
        return cls(*case["cfg"], *(case["iv"] or ()))
    if case["kind"] == "rk":
        cls = Q_GENERATORS[case["name"]]
        return (type("Derived", (cls,), {}) if derived else cls)(padding=case["pad"])
    n = int(rng.integers(1, 6))
    x = np.sort(rng.uniform(0.1, 1, n))
    A = np.tril(rng.normal(size=(n, n))) + 2 * np.eye(n)

    class Mine(QGenerator):
        nodes = property(lambda self: x)
        Q = property(lambda self: A)
        weights = property(lambda self: A[-1])
        order = property(lambda self: 1)
    if rng.random() < 0.5:
        Mine.tLeft = -0.25
    return Mine()


def result(mon, what, fn, k):
    """[matrices of some iterations, dTau] of a generator, or the exception type."""
    mon.events["construct"] += 1
    try:
        g = fn()
        return [g.getQDelta(), g.getQDelta(k), g.getSDelta(k), g.dTau]
    except (NotImplementedError, np.linalg.LinAlgError) as e:
        return type(e).__name__


def same(mon, oracle, a, b, msg):
    if isinstance(a, str) or isinstance(b, str):
        return mon.check(oracle, isinstance(a, str) and a == b, f"{msg}: {core.short(a, 80)} instead of {core.short(b, 80)}")
    return mon.same(oracle, a, b, msg)


def run_case(mon, case):
    from qmat.qdelta import QDELTA_GENERATORS, genQDeltaCoeffs
    from qmat.qcoeff import QGenerator
    rng = core.rng_of("C21", mon.seed, case)
    g = base(case, rng)
    n = g.nodes.size
    coll = case["kind"] == "coll"
    full = dict(Q=np.array(g.Q), nodes=np.array(g.nodes), tLeft=getattr(g, "tLeft", 0))
    if coll:
        full.update(nNodes=case["cfg"][0], nodeType=case["cfg"][1], quadType=case["cfg"][2])
    pool = dict(foo=3, verbose=True, order="unknown", mu=np.zeros(3), k=7, M=2, n=5, size=9, divider=11, tRight=3.0, weights=np.ones(2), copy=False, node=4,
                A=np.eye(2), b=np.ones(2), c=np.zeros(2), a=0.3, x0=np.ones(2), padding="LEFT", useEmbedded=True, name="RK4", aliases=["BE"], params=dict(Q=1), deltas=np.ones(2))
    other = np.cumsum(rng.uniform(0.2, 1, n)) + max(0.0, float(full["tLeft"]))
    state = dict(Q=np.array(g.Q), nodes=np.array(g.nodes), weights=np.array(g.weights))
    for name, kind in KIND.items():
        cls = QDELTA_GENERATORS[name]
        if kind == "c" and not coll:
            for kw in (dict(qGen=g), dict(coll=g)):
                mon.rejects("wrong-kind", (AssertionError, TypeError, ValueError), cls, **kw)
                mon.rejects("wrong-kind", (AssertionError, TypeError, ValueError), genQDeltaCoeffs, name, **kw)
            continue
        if name in ("MIN", "MIN-Speck") and (n > 2 or rng.random() < 0.5) or mon.quick and rng.random() < 0.4:
            continue
        if kind == "t" and (n > 1 and (np.diff(full["nodes"]) <= 0).any()) and name in ("SOE", "LF"):
            continue
        junk = {q: pool[q] for q in rng.permutation(list(pool))[:int(rng.integers(1, 9))]}
        what = f"{name} from {case.get('cfg', case.get('name', 'user-defined'))} {case.get('iv', '')}"
        k = int(rng.integers(1, n + 3))
        explicit = {p: full[p] for p in PNAMES[kind]}
        ref = result(mon, what, lambda: cls(**explicit), k)
        mon.distinct.add(core.digest((name, explicit, k)))
        args = list(explicit.values())
        # every way of passing the same parameters
        ways = {"qGen": lambda: cls(qGen=g), "positional": lambda: cls(*args), "everything": lambda: cls(**full),
                "qGen and same": lambda: cls(qGen=g, **explicit), "positional and qGen": lambda: cls(args[0], qGen=g),
                "None qGen": lambda: cls(**explicit, qGen=None)}
        if len(args) > 1:
            ways["mixed"] = lambda: cls(*args[:1], **{p: full[p] for p in PNAMES[kind][1:]})
        for w, fn in ways.items():
            same(mon, "same", result(mon, what, fn, k), ref, f"{what}: {w} differs from explicit parameters")
        same(mon, "extra", result(mon, what, lambda: cls(qGen=g, **junk), k), ref, f"{what}: unrelated parameters change the result")
        same(mon, "extra", result(mon, what, lambda: cls(*args, **junk), k), ref, f"{what}: unrelated parameters change the result")
        # parameters that only other approximations use
        unused = {p: v for p, v in dict(Q=full["Q"] + 1, nodes=other, tLeft=-3.5, nNodes=77, nodeType="WHATEVER", quadType="NONE").items() if p not in PNAMES[kind]}
        same(mon, "extra", result(mon, what, lambda: cls(**explicit, **unused), k), ref, f"{what}: parameters of other approximations change the result")
        same(mon, "extra", result(mon, what, lambda: cls(qGen=g, **unused), k), ref, f"{what}: parameters of other approximations change the result")
        # generic function
        if not isinstance(ref, str):
            for kw in (dict(qGen=g), explicit, dict(qGen=g, **junk), dict(full)):
                out = mon.call("genQDeltaCoeffs", genQDeltaCoeffs, name, dTau=True, **kw)
                mon.same("same", [out[0], out[1]], [ref[0], ref[3]], f"{what}: generic function with {sorted(kw)}")
                out = mon.call("genQDeltaCoeffs", genQDeltaCoeffs, [name, "PIC"], form="N2N", **(kw if "Q" in kw or "qGen" in kw else dict(kw, Q=full["Q"])))
                mon.same("same", out[0], cls(**explicit).getSDelta(1), f"{what}: generic function, two sweeps, with {sorted(kw)}")
        # overriding
        if kind == "Q":
            B = full["Q"] + np.diag(rng.uniform(1, 2, n))
            over = [dict(Q=B)]
        elif kind == "t":
            over = [dict(nodes=other), dict(tLeft=full["tLeft"] - 0.7), dict(nodes=other, tLeft=full["tLeft"] - 0.3), dict(tLeft=0)] if full["nodes"][0] > 0 else [dict(nodes=other)]
        elif kind == "n":
            over = [dict(nodes=other), dict(nodes=np.concatenate([other, [9.0]]))]
        else:
            over = [dict(nNodes=n % 4 + 2), dict(nodeType="LEGENDRE"), dict(quadType="RADAU-RIGHT"), dict(nNodes=3, nodeType="CHEBY-2", quadType="GAUSS")]
        for ov in over:
            exp = {**explicit, **ov}
            if name in ("MIN", "MIN-Speck") and n > 2:
                continue
            r2 = result(mon, what, lambda: cls(**exp), k)
            same(mon, "override", result(mon, what, lambda: cls(qGen=g, **ov), k), r2, f"{what}: {sorted(ov)} does not override the base generator")
            if not isinstance(r2, str):
                out = mon.call("genQDeltaCoeffs", genQDeltaCoeffs, name, qGen=g, **ov)
                mon.same("override", out, r2[0], f"{what}: {sorted(ov)} does not override the base generator (generic function)")
            if list(ov) == PNAMES[kind][:1]:
                same(mon, "override", result(mon, what, lambda: cls(list(ov.values())[0], qGen=g), k), r2, f"{what}: positional {sorted(ov)} does not override")
        # deprecated keyword
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            out = result(mon, what, lambda: cls(coll=g), k)
        same(mon, "deprecated", out, ref, f"{what}: deprecated keyword")
        mon.check("deprecated", any(issubclass(r.category, DeprecationWarning) for r in rec), f"{what}: no warning for the deprecated keyword")
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            result(mon, what, lambda: cls(qGen=g), k)
        mon.check("deprecated", not any(issubclass(r.category, DeprecationWarning) for r in rec), f"{what}: warning for the new keyword")
        mon.rejects("both", (AssertionError, ValueError, TypeError), cls, qGen=g, coll=g)
        mon.rejects("both", (AssertionError, ValueError, TypeError), genQDeltaCoeffs, name, qGen=g, coll=g)
        # wrong kinds, missing parameters
        for bad in ("Collocation", full["Q"], type(g), 3, [g], QDELTA_GENERATORS["PIC"](full["Q"])):
            mon.rejects("wrong-kind", (AssertionError, TypeError, ValueError), cls, qGen=bad)
        for bad in ("Collocation", full["nodes"]):
            mon.rejects("wrong-kind", (AssertionError, TypeError, ValueError), cls, coll=bad)
        mon.rejects("missing", (TypeError, ValueError, AssertionError), cls)
        mon.rejects("missing", (TypeError, ValueError, AssertionError), genQDeltaCoeffs, name, foo=1)
        if kind == "c":
            mon.rejects("missing", (TypeError, ValueError, AssertionError), cls, n, case["cfg"][1])
    for k, v in state.items():
        mon.same("base-unmodified", np.array(getattr(g, k)), v, f"{k} of the base generator modified")
    mon.sample(dict(case=case))
