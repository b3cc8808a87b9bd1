"""C27: user-defined generators are validated, registered all-or-nothing, and equal to shipped ones afterwards."""
import numpy as np
from qmon import core
from qmon.checks.c22 import forked

RULE = ("One case = one random history of valid and invalid registrations (base methods, Runge-Kutta tables, approximations) in a pristine forked process; non-trivial = after every attempt all three "
        "registries are compared name by name with a model, and every accepted class is used through every generic interface.")
ROUNDS = dict(quick=8)
REQUIRED = {"registries": 1500, "accepted": 400, "rejected": 600, "usable": 1500, "shipped": 100}
ASSUMPTIONS = ["user classes derive from the documented base classes only (no mixins placed after them)", "a failing registration is any raised exception"]


def cases(tier, seed):
    for i in range(64 if tier == "quick" else 1200):
        yield dict(i=i, n=30)


FLAWS = {
    "q": ["abstract-members", "no-nodes", "no-Q", "no-weights", "no-order", "method-nodes", "method-Q", "method-weights", "method-order", "no-default-params", "bad-default-params", "raising-default-params", "raising-constructor", "taken-name", "taken-alias", "taken-second-alias",
          "own-name-alias", "twice-alias", "string-alias", "tuple-alias"],
    "rk": ["short-b", "short-b2", "short-c", "no-A", "no-b", "no-c", "wide-A", "tall-A", "flat-A", "double-b", "double-b2", "no-order", "taken-name", "taken-alias", "taken-second-alias", "own-name-alias", "twice-alias", "tuple-alias", "taken-by-q", "raising-constructor"],
    "qd": ["abstract-members", "no-kwargs", "named-kwargs", "no-compute", "no-k", "keyword-k", "taken-name", "taken-alias", "taken-second-alias", "own-name-alias", "twice-alias", "tuple-alias"],
}


class Boom(Exception):
    pass


ERRORS = [Boom, ValueError, ZeroDivisionError, AssertionError, KeyError, IndexError, AttributeError, NotImplementedError, TypeError, RuntimeError, np.linalg.LinAlgError]


def names(kind, flaw, reg, regQ, rng, fresh):
    """Class name and aliases of an attempt."""
    name = fresh()
    al = [None, [], [fresh()], [fresh(), fresh()], [fresh() + " odd-name/1", fresh()]][int(rng.integers(5))]
    taken = sorted(reg)
    pick = lambda: taken[int(rng.integers(len(taken)))]
    if flaw == "taken-name":
        ident = [t for t in taken if t.isidentifier()]
        name = ident[int(rng.integers(len(ident)))]
    elif flaw == "taken-alias":
        al = [pick(), fresh()]
    elif flaw == "taken-second-alias":
        al = [fresh(), fresh(), pick()]
    elif flaw == "own-name-alias":
        al = [fresh(), name]
    elif flaw == "twice-alias":
        a = fresh(); al = [a, fresh(), a]
    elif flaw == "string-alias":
        al = fresh()
    elif flaw == "tuple-alias":
        al = (fresh(), fresh())
    elif flaw == "taken-by-q":
        only = sorted(set(regQ) - set(reg))
        al = [fresh(), only[int(rng.integers(len(only)))]]
    return name, al


def named(name, base, ns, rng):
    """The class; sometimes its aliases are inherited from a plain base class, or from an unregistered class in between."""
    if "aliases" in ns and rng.random() < 0.3:
        al = ns.pop("aliases")
        if rng.random() < 0.5:
            return type(name, (type("Names", (), dict(aliases=al)), base), ns)
        return type(name, (type("Between", (base,), dict(aliases=al)),), ns)
    return type(name, (base,), ns)


def decorate(ns, base, rng, candidates):
    """Overrides of members that need not be overridden, all of them equivalent to the inherited ones."""
    for m in candidates:
        if rng.random() < 0.25 and m not in ns:
            f = base.__dict__[m]
            if isinstance(f, property):
                ns[m] = property(lambda s, f=f: f.fget(s))
            else:
                ns[m] = lambda s, *a, f=f, **k: f(s, *a, **k)


def make_q(name, al, flaw, rng):
    from qmat.qcoeff import QGenerator
    from qmat.qcoeff.collocation import Collocation
    n = int(rng.integers(1, 5))
    Q = rng.normal(size=(n, n)); x = Q.sum(axis=1); b = rng.normal(size=n)
    ns = dict(nodes=property(lambda s: x * getattr(s, "f", 1.0)), Q=property(lambda s: Q * getattr(s, "f", 1.0)), weights=property(lambda s: b * getattr(s, "f", 1.0)), order=property(lambda s: 1))
    if al is not None:
        ns["aliases"] = al
    par, variant = {}, int(rng.integers(4)) if flaw is None else 0
    if flaw in ("no-default-params", "bad-default-params", "raising-default-params"):
        variant = 2
    if variant == 1:
        def __init__(self, f=2.0): self.f = f
        ns["__init__"] = __init__; par = dict(f=3.0)
        dflt = 2.0
    elif variant == 2:
        def __init__(self, f, g=1.0): self.f = f * g
        ns["__init__"] = __init__; par = dict(f=0.25)
        ns["DEFAULT_PARAMS"] = dict(f=0.5)
        dflt = 0.5
    else:
        dflt = 1.0
    if flaw == "no-default-params":
        del ns["DEFAULT_PARAMS"]
    if flaw == "bad-default-params":
        ns["DEFAULT_PARAMS"] = [dict(h=1.0), dict(), dict(f=1.0, h=2.0)][int(rng.integers(3))]
    boom = ERRORS[int(rng.integers(len(ERRORS)))]
    if flaw == "raising-default-params":                   # the constructor needs parameters, and fails for the default ones
        def __init__(self, f, g=1.0):
            if f == 0.5:
                raise boom("no")
            self.f = f
        ns["__init__"] = __init__
    if flaw == "raising-constructor":
        def __init__(self): raise boom("no")
        ns["__init__"] = __init__
    if flaw and flaw.startswith("no-") and flaw[3:] in ns:
        del ns[flaw[3:]]
    if flaw == "abstract-members":                         # members of the base class under the same name
        for k in ["nodes", "Q", "weights", "order"] if rng.random() < 0.5 else [str(rng.choice(["nodes", "Q", "weights", "order"]))]:
            ns[k] = QGenerator.__dict__[k]
    if flaw == "method-nodes":
        ns["nodes"] = lambda s: x
    if flaw == "method-Q":
        ns["Q"] = lambda s: Q
    if flaw == "method-weights":
        ns["weights"] = lambda s: b
    if flaw == "method-order":
        ns["order"] = lambda s: 1
    base = QGenerator
    if flaw is None and variant == 3 and al is not None:   # derived from a shipped generator
        base = Collocation
        ns = dict(aliases=al)
        def __init__(self, nNodes=3): Collocation.__init__(self, nNodes, "LEGENDRE", "RADAU-RIGHT")
        ns["__init__"] = __init__
        cls = type(name, (base,), ns)
        c = Collocation(4, "LEGENDRE", "RADAU-RIGHT"); d = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
        return cls, dict(nNodes=4), (d.nodes, d.weights, d.Q), (c.nodes, c.weights, c.Q)
    decorate(ns, base, rng, ["S", "T", "Tinv", "hCoeffs", "genCoeffs", "nNodes", "rightIsNode", "solveDahlquist", "errorDahlquist", "orderEmbedded"])
    cls = named(name, base, ns, rng)
    f = par.get("f", 1.0)
    return cls, par, (x * dflt, b * dflt, Q * dflt), (x * f, b * f, Q * f)


def make_rk(name, al, flaw, rng):
    from qmat.qcoeff.butcher import RK
    s = int(rng.integers(2, 5))
    A = np.tril(rng.normal(size=(s, s)), -int(rng.integers(2))); c = A.sum(axis=1); b = rng.normal(size=s)
    if rng.random() < 0.3:
        A = np.tril(rng.integers(-2, 3, (s, s))); c = A.sum(axis=1); b = rng.integers(-2, 3, s)
    ns = dict(A=A.copy(), b=b.copy(), c=c.copy(), order=property(lambda s: 2))
    if rng.random() < 0.4:
        ns["b2"] = rng.normal(size=s)
    if flaw == "short-b":
        ns["b"] = b[:-1]
    elif flaw == "short-b2":
        ns["b2"] = rng.normal(size=s + [-1, 1][int(rng.integers(2))])
    elif flaw in ("no-A", "no-b", "no-c"):
        del ns[flaw[3:]]
    elif flaw == "short-c":
        ns["c"] = c[:-1]
    elif flaw == "wide-A":
        ns["A"] = np.hstack([A, A[:, :1]])
    elif flaw == "flat-A":                     # as many entries as needed, in another shape
        ns["A"] = A.reshape(1, -1) if rng.random() < 0.5 else A.ravel()
    elif flaw == "double-b":
        ns["b"] = np.concatenate([b, b])
        if "b2" in ns:
            ns["b2"] = np.concatenate([b, b])
    elif flaw == "double-b2":
        ns["b2"] = np.concatenate([b, b])
    elif flaw == "tall-A":
        ns["A"] = np.vstack([A, A[:1]])
    elif flaw == "no-order":
        del ns["order"]
    elif flaw == "raising-constructor":
        boom = ERRORS[int(rng.integers(len(ERRORS)))]
        def __init__(self, padding=None): raise boom("no")
        ns["__init__"] = __init__
    if rng.random() < 0.5:
        for k in ("A", "b", "c", "b2"):
            if k in ns:
                ns[k] = ns[k].tolist()
    if al is not None:
        ns["aliases"] = al
    decorate(ns, RK, rng, [m for m in ("nodes", "weights", "Q", "weightsEmbedded") if m in RK.__dict__])
    from qmat.qcoeff import QGenerator
    decorate(ns, QGenerator, rng, ["S", "T", "hCoeffs", "genCoeffs", "nNodes", "solveDahlquist", "orderEmbedded"])
    cls = named(name, RK, ns, rng)
    return cls, {}, (c, b, A), (c, b, A)


def make_qd(name, al, flaw, rng):
    from qmat.qdelta import QDeltaGenerator
    kdep = rng.random() < 0.5
    f = float(rng.normal())
    own = rng.random() < 0.4 or flaw in ("no-kwargs", "named-kwargs")
    ns = {}
    if own:
        if flaw == "no-kwargs":
            def __init__(self, nodes, a=1.5): self.x = np.asarray(nodes, float); self.a = a
        elif flaw == "named-kwargs":
            def __init__(self, nodes, kwargs=None): self.x = np.asarray(nodes, float); self.a = 1.5
        else:
            def __init__(self, nodes, a=1.5, **kwargs): self.x = np.asarray(nodes, float); self.a = a
        ns.update(__init__=__init__, size=property(lambda s: s.x.size), extractParams=staticmethod(lambda q: dict(nodes=q.nodes)),
                  dTau=property(lambda s: s.x * s.a))
        body = lambda s, k: np.diag(s.x) * f * s.a * k
        ref = lambda q, k, a=1.5: np.diag(q.nodes) * f * a * (k if kdep else 1)
        rtau = lambda q, a=1.5: q.nodes * a
    else:
        body = lambda s, k: np.tril(s.Q) * f * k
        ref = lambda q, k, a=None: np.tril(q.Q) * f * (k if kdep else 1)
        rtau = lambda q, a=None: np.zeros(len(q.nodes))
    if kdep:
        dk = int(rng.integers(1, 3))
        def computeQDelta(self, k=dk): return body(self, dk if k is None else k)
    else:
        dk = 1
        def computeQDelta(self, k=None): return body(self, 1)
    if flaw == "no-k":
        def computeQDelta(self): return body(self, 1)
    if flaw == "keyword-k":
        def computeQDelta(self, *, k=None): return body(self, 1)
    if flaw != "no-compute":
        ns["computeQDelta"] = computeQDelta if flaw != "abstract-members" else QDeltaGenerator.__dict__["computeQDelta"]
    if al is not None:
        ns["aliases"] = al
    decorate(ns, QDeltaGenerator, rng, ["getQDelta", "getSDelta", "genCoeffs"])
    return named(name, QDeltaGenerator, ns, rng), dict(own=own, dk=dk), ref, rtau


def run_history(mon, case):
    from qmat import Q_GENERATORS, QDELTA_GENERATORS, genQCoeffs, genQDeltaCoeffs
    from qmat import qcoeff, qdelta
    from qmat.qcoeff.butcher import RK_SCHEMES, registerRK
    from qmat.utils import getClasses
    rng = core.rng_of("C27", mon.seed, case)
    regs = dict(q=Q_GENERATORS, qd=QDELTA_GENERATORS, rk=RK_SCHEMES)
    model = {k: dict(v) for k, v in regs.items()}
    shipped = {k: dict(v) for k, v in regs.items()}
    count = [0]
    coll = Q_GENERATORS["Collocation"](3, "LEGENDRE", "RADAU-RIGHT")
    before = {n: np.array(QDELTA_GENERATORS[n](qGen=coll).getQDelta(1)) for n in ("LU", "BE", "MIN-SR-FLEX", "Picard")}
    beforeq = {n: Q_GENERATORS[n].getInstance().genCoeffs() for n in ("coll", "RK4", "Collocation", "SDIRK2")}

    def fresh():
        count[0] += 1
        return f"User{case['i']}x{count[0]}"

    def compare(what):
        for k in regs:
            mon.check("registries", regs[k].keys() == model[k].keys() and all(regs[k][n] is model[k][n] for n in model[k]),
                      f"registry {k} after {what}: unexpected {sorted(set(regs[k]) - set(model[k]))}, missing {sorted(set(model[k]) - set(regs[k]))}, "
                      f"redirected {[n for n in model[k] if n in regs[k] and regs[k][n] is not model[k][n]]}")

    retry, again = None, None
    accepted = []
    for step in range(case["n"]):
        kind = ["q", "rk", "qd"][int(rng.integers(3))]
        flaw = None if rng.random() < 0.4 else FLAWS[kind][int(rng.integers(len(FLAWS[kind])))]
        name, al = names(kind, flaw, model["q"] if kind == "q" else model[kind], model["q"], rng, fresh)
        if retry and flaw is None and rng.random() < 0.6:     # a name of a rejected attempt stays available
            kind, name, al = retry
            retry = None
        if again is not None and flaw is None:                # the same class object, its names corrected after a rejection
            kind, cls, par, ref, ref2 = again
            again, name, al = None, fresh(), [[fresh()], [], [fresh(), fresh()]][int(rng.integers(3))]
            cls.__name__, cls.aliases = name, al
            mon.notes["rejected classes corrected and registered"] += 1
        elif accepted and flaw in ("taken-name", "twice-alias") and rng.random() < 0.5:       # an accepted class once more
            kind, name, al, cls, par, ref, ref2 = accepted[int(rng.integers(len(accepted)))]
            flaw = "registered-before"
        else:
            cls, par, ref, ref2 = dict(q=make_q, rk=make_rk, qd=make_qd)[kind](name, al, flaw, rng)
        deco = dict(q=qcoeff.register, rk=registerRK, qd=qdelta.register)[kind]
        what = f"{'valid' if flaw is None else flaw} {kind} class {name} with aliases {al}"
        if flaw is None:
            out = mon.call("register", deco, cls)
            mon.check("accepted", out is cls, f"{what}: decorator returned {out!r}")
            for n in [name] + list(al or []):
                model[kind][n] = cls
                if kind == "rk":
                    model["q"][n] = cls
            compare(what)
            accepted.append((kind, name, al, cls, par, ref, ref2))
            targets = [accepted[-1]] + ([accepted[int(rng.integers(len(accepted)))]] if rng.random() < 0.3 else [])
            for kd, nm, a, c, p, r1, r2 in targets:
                mon.check("usable", sum(v is c for v in getClasses(regs[kd]).values()) == 1, f"{nm}: getClasses does not list it once")
                for n in [nm] + list(a or []):
                    if kd in ("q", "rk"):
                        g = mon.call("getInstance", regs[kd][n].getInstance)
                        mon.close("usable", np.concatenate([np.ravel(v) for v in g.genCoeffs()]), np.concatenate([np.ravel(v) for v in r1]), 1e-13, f"{n}: default instance")
                        if p:
                            o = mon.call("genQCoeffs", genQCoeffs, n, **p)
                            mon.close("usable", np.concatenate([np.ravel(v) for v in o]), np.concatenate([np.ravel(v) for v in r2]), 1e-13, f"{n}: genQCoeffs with {p}")
                        o = mon.call("genQCoeffs", genQCoeffs, n, form="N2N", **p)
                        mon.close("usable", np.cumsum(o[2], axis=0), r2[2] if p else r1[2], 1e-12, f"{n}: genQCoeffs N2N")
                        q = mon.call("genQDeltaCoeffs", genQDeltaCoeffs, "GS", qGen=g)
                        mon.close("usable", q, np.tril(r1[2]), 0, f"{n}: as base of an approximation")
                    else:
                        k = int(rng.integers(1, 5))
                        g = mon.call("QDeltaGenerator", regs[kd][n], qGen=coll)
                        dk = p["dk"]
                        mon.close("usable", mon.call("getQDelta", g.getQDelta), r1(coll, dk), 1e-14, f"{n}: default matrix")
                        mon.close("usable", mon.call("getQDelta", g.getQDelta, k), r1(coll, k), 1e-14, f"{n}: k={k}")
                        o, t = mon.call("genQDeltaCoeffs", genQDeltaCoeffs, n, nSweeps=k, dTau=True, qGen=coll)
                        mon.close("usable", o, np.array([r1(coll, j + 1) for j in range(k)]), 1e-14, f"{n}: nSweeps={k}")
                        mon.close("usable", t, r2(coll), 1e-14, f"{n}: dTau")
                        o = mon.call("genQDeltaCoeffs", genQDeltaCoeffs, ["LU", n], nSweeps=4, qGen=coll)
                        mon.close("usable", o, np.array([before["LU"]] + [r1(coll, j) for j in (2, 3, 4)]), 1e-14, f"{n}: in a list")
                        if p["own"]:
                            o = mon.call("genQDeltaCoeffs", genQDeltaCoeffs, n, qGen=coll, a=0.5, unrelated=1)
                            mon.close("usable", o, r1(coll, dk, 0.5), 1e-14, f"{n}: overridden parameter")
                            o = mon.call("QDeltaGenerator", regs[kd][n], coll.nodes, 0.5)
                            mon.close("usable", o.getQDelta(), r1(coll, dk, 0.5), 1e-14, f"{n}: positional parameters")
        else:
            mon.events["register"] += 1
            mon.distinct.add(core.digest((case["i"], step, flaw, name)))
            try:
                deco(cls)
                mon.check("rejected", False, f"{what}: accepted")
                compare(what)
                return
            except Exception as e:
                mon.check("rejected", True)
            compare(what)
            if flaw == "registered-before":
                continue
            if flaw not in ("taken-name", "taken-alias", "taken-second-alias", "own-name-alias", "twice-alias", "string-alias", "tuple-alias", "taken-by-q"):
                retry = (kind, name, al)
            if flaw in ("taken-name", "taken-alias", "taken-second-alias", "own-name-alias", "twice-alias", "taken-by-q"):
                again = (kind, cls, par, ref, ref2)
            # the freed names are unknown to the generic functions
            if flaw != "taken-name":
                for n in [name] + ([v for v in al if v not in model[kind] and v not in model["q"]] if isinstance(al, (list, tuple)) else []):
                    if kind == "qd":
                        mon.rejects("genQDeltaCoeffs", ValueError, genQDeltaCoeffs, n, qGen=coll)
                    else:
                        mon.rejects("genQCoeffs", ValueError, genQCoeffs, n)
    for n, v in before.items():
        mon.same("shipped", np.array(QDELTA_GENERATORS[n](qGen=coll).getQDelta(1)), v, f"shipped {n} changed")
    for n, v in beforeq.items():
        mon.same("shipped", Q_GENERATORS[n].getInstance().genCoeffs(), v, f"shipped {n} changed")
    for k in regs:
        mon.check("shipped", all(regs[k].get(n) is c for n, c in shipped[k].items()), f"registry {k}: shipped names changed")


def run_case(mon, case):
    def child():
        m = core.Monitor(mon.pid, mon.tier, mon.seed)
        m.case = case
        try:
            run_history(m, case)
        except core.CaseAbort:
            pass
        except Exception as e:
            import traceback
            m.fail("interpretable", f"{type(e).__name__}: {e} {traceback.extract_tb(e.__traceback__)[-1]}")
        return m.export()
    mon.merge(forked(child))
    mon.sample(str(case))
