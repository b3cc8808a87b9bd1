"""C22: results depend on the arguments only (history, aliasing, threads, processes)."""
import collections, json, locale, os, pickle, random, signal, subprocess, sys, threading, time, warnings
import numpy as np
from qmon import core, gen

RULE = ("One case = one history: a random sequence of public calls on fresh and reused objects, in a pristine forked process, with results overwritten between calls, or run by "
        "eight threads with yields injected between source lines; non-trivial = every result compared with the one of the same call made first thing in a pristine process.")
ROUNDS = dict(quick=2)
REQUIRED = {"history": 3000, "arguments": 3000, "threads": 1000, "process": 100, "global-state": 100}
ASSUMPTIONS = ["equal means equal up to 1e-10 of the largest entry, 1e-7 for the large objects (identical on this machine, see notes)",
               "arrays read from the attributes of a base-method or interpolation object, or returned with copy=False, belong to that object: overwriting them may change that object, never another",
               "callers do not overwrite an argument while a generator built on it is in use"]
NT = ["EQUID", "LEGENDRE", "CHEBY-1", "CHEBY-2", "CHEBY-3", "CHEBY-4"]
QT = ["GAUSS", "RADAU-LEFT", "RADAU-RIGHT", "LOBATTO"]
RKN = ["RK4", "BE", "FE", "SDIRK2", "ESDIRK43", "ESDIRK53", "HEUN", "CashKarp", "GAUSS-LG", "TRAP", "ARK4EDIRK", "ARK4ERK", "RK21", "DIRK43", "ARK548L2SAERK", "RK33", "SDIRK3"]
QD = ["PIC", "Exact", "LU", "LU2", "QPar", "GS", "MIN_SR_NS", "Jumper", "FlexJumper", "DNODES", "DNODES2", "DNODES5", "BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE"]
QDC = QD + ["MIN_SR_S", "MIN_SR_FLEX", "MIN-SR-S", "MIN-SR-FLEX", "FB", "FB2"]


def cases(tier, seed):
    for i in range(48 if tier == "quick" else 1500):
        yield dict(kind="history", i=i, n=90)
    for i in range(16 if tier == "quick" else 300):
        yield dict(kind="large", i=i, n=50)
    for i in range(32 if tier == "quick" else 600):
        yield dict(kind="focus", i=i, n=24)
    for i in range(24 if tier == "quick" else 500):
        yield dict(kind="threads", i=i, n=40)
    for i in range(4 if tier == "quick" else 40):
        yield dict(kind="process", i=i, n=120)


def cost(c):
    return {"history": 1, "large": 2, "focus": 1, "threads": 2, "process": 3}[c["kind"]]


# -- calls ------------------------------------------------------------------------------------------------------------
def obj_spec(rng, kind=None):
    kind = kind or str(rng.choice(["coll", "coll", "rk", "rk", "lag", "nodes", "qd", "qd", "qd"]))
    if kind == "coll":
        n = int(rng.integers(1, 6))
        nt, qt = str(rng.choice(NT)), str(rng.choice(QT))
        if n == 1 and qt in ("LOBATTO", "RADAU-LEFT"):
            n = 2
        iv = [None, None, [-0.5, 2.0], [1.0, 1.25]][int(rng.integers(4))]
        return ["coll", [n, nt, qt], iv]
    if kind == "rk":
        return ["rk", str(rng.choice(RKN)), [None, None, "LEFT", "RIGHT", "BOTH"][int(rng.integers(5))]]
    if kind == "lag":
        return ["lag", int(rng.integers(1, 9)), str(rng.choice(gen.DISTS)), str(rng.choice(gen.ORDERS)), str(rng.choice(["AUTO", "FAST", "STABLE", "CHEBFUN"])),
                bool(rng.integers(2)), str(rng.choice(["USE_LEFT", "USE_RIGHT"])), int(rng.integers(0, 3)), int(rng.integers(50))]
    if kind == "nodes":
        return ["nodes", str(rng.choice(NT)), str(rng.choice(QT))]
    if kind == "qd":
        if rng.random() < 0.8:
            b = obj_spec(rng, "coll")
            return ["qd", str(rng.choice(QDC)), b, bool(rng.integers(2))]
        b = ["coll", [int(rng.integers(2, 6)), "LEGENDRE", "RADAU-RIGHT"], None]
        return ["qd", str(rng.choice(QD)), b, False]
    raise ValueError(kind)


def make_op(rng):
    r = rng.random()
    if r < 0.62:
        o = obj_spec(rng)
        return obj_op(rng, o)
    k = int(rng.integers(14))
    if k == 0:
        c = obj_spec(rng, "coll")
        return [None, "genQCoeffs", [str(rng.choice(["Collocation", "coll"])), str(rng.choice(["Z2N", "N2N"])), bool(rng.integers(2)), c]]
    if k == 1:
        return [None, "genQCoeffsRK", [str(rng.choice(RKN)), str(rng.choice(["Z2N", "N2N"])), bool(rng.integers(2))]]
    if k in (2, 3, 4):
        c = obj_spec(rng, "coll")
        names = [str(v) for v in rng.choice(QDC, int(rng.integers(1, 4)))]
        ns = None if rng.random() < 0.5 else len(names) + int(rng.integers(0, 3))
        if len(names) == 1 and rng.random() < 0.5:
            names = names[0]
        return [None, "genQDeltaCoeffs", [names, ns, str(rng.choice(["Z2N", "N2N"])), bool(rng.integers(2)), c, bool(rng.integers(2))]]
    if k == 5:
        return [None, "solveSDC", [obj_spec(rng, "coll"), str(rng.choice(QD)), int(rng.integers(1, 5)), int(rng.integers(1, 5)), bool(rng.integers(2)), bool(rng.integers(2))]]
    if k == 6:
        return [None, "num", [str(rng.choice(["order", "ldu", "extrap"])), int(rng.integers(2, 7)), int(rng.integers(50))]]
    if k == 7:
        return [None, "fejer", [int(rng.integers(1, 40))]]
    if k == 8:
        return [None, "sparse", [int(rng.integers(3, 12)), int(rng.integers(1, 4)), bool(rng.integers(2)), int(rng.integers(50))]]
    if k == 9:
        c = obj_spec(rng, "coll")
        c[2] = None
        return [None, "orderSDC", [c, int(rng.integers(1, 6)), str(rng.choice(QD[-6:])), str(rng.choice(["LASTNODE", "QUADRATURE"]))]]
    if k == 10:
        return [None, "timer", [str(rng.choice(["a", "step"])), int(rng.choice([1, 10])), bool(rng.integers(2))]]
    if k == 11:
        return [None, "errorSDC", [obj_spec(rng, "coll"), str(rng.choice(QD)), int(rng.integers(1, 5)), int(rng.integers(1, 5)), bool(rng.integers(2)), bool(rng.integers(2))]]
    if k == 12:
        return [None, "classes", [str(rng.choice(["q", "delta"])), str(rng.choice(["", "butcher", "collocation", "diag", "algebraic"]))]]
    return [None, "tables", [str(rng.choice(["MIN3", "MIN_VDHS"])), int(rng.integers(3, 5))]]


def obj_op(rng, o):
    k = o[0]
    if k in ("coll", "rk"):
        f = str(rng.choice(["genCoeffs", "attr", "dahlquist", "error"]))
        if f == "genCoeffs":
            return [o, f, [str(rng.choice(["Z2N", "N2N"])), bool(rng.integers(2))]]
        if f == "attr":
            return [o, f, [str(rng.choice(["Q", "S", "nodes", "weights", "hCoeffs", "T", "Tinv", "order", "rightIsNode", "nNodes"] + ["weightsEmbedded"] * 2 * (k == "rk")))]]
        return [o, f, [float(rng.normal()), float(rng.normal()), int(rng.integers(1, 6))]]
    if k == "lag":
        f = str(rng.choice(["interp", "integ", "deriv", "eval", "attr"]))
        return [o, f, [int(rng.integers(50)), str(rng.choice(["FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY"])), bool(rng.integers(2))]]
    if k == "nodes":
        f = str(rng.choice(["getNodes", "coeffs", "eval", "tridiag"]))
        return [o, f, [int(rng.integers(2, 12)), int(rng.integers(50))]]
    f = str(rng.choice(["getQDelta", "getSDelta", "genCoeffs", "list", "dTau", "nocopy"]))
    return [o, f, [int(rng.integers(1, 9)), str(rng.choice(["Z2N", "N2N"])), bool(rng.integers(2)), [int(v) for v in rng.integers(1, 9, int(rng.integers(1, 4)))]]]


def enlarge(x, rng, top=True):
    """The same call on large objects (iterative and tabulated coefficients excluded: they are for few nodes)."""
    if isinstance(x, list):
        y = [enlarge(v, rng, False) for v in x]
        if y and y[0] == "coll" and isinstance(y[1], list):
            y[1][0] = int(rng.choice([9, 16, 17, 20, 31, 32, 33, 40, 50, 64, 65, 80, 128, 130]))
            if y[1][0] > 9 and y[1][1] == "EQUID":          # too ill-conditioned beyond: rounding would decide
                y[1][1] = str(rng.choice(NT[1:]))
        elif y and y[0] == "lag" and len(y) > 5:
            y[1] = int(rng.integers(17, 70))
            y[2] = str(rng.choice(["cheb1", "cheb2", "legendre", "radau"]))
        if top and y[0] is not None and y[0][0] == "nodes":
            y[2][0] = int(rng.choice([31, 32, 33, 50, 64, 65, 100, 128, 200]))
        if top and y[1] == "sparse":
            y[2][0] = int(rng.integers(40, 140))
        if top and y[1] == "fejer":
            y[2][0] = int(rng.integers(50, 400))
        return y
    if isinstance(x, str) and x in QDC and x not in QD:
        return str(rng.choice(QD))
    return x


BUFFERS = {}
TOL = [1e-10]


def style(rng_state, a, nth=0):
    """The same values as an array of another memory layout, list, read-only array, or in an array used for earlier calls."""
    a = np.asarray(a)
    if rng_state >= 5 and a.dtype.kind in "fci":
        b = BUFFERS.setdefault((nth, a.shape, a.dtype.str), np.empty_like(a))
        b[...] = a
        return b
    if rng_state == 0:
        return a.copy()
    if rng_state == 1:
        return a.tolist()
    if rng_state == 2:
        b = np.zeros(tuple(2 * s for s in a.shape)); v = b[tuple(slice(None, None, 2) for _ in a.shape)]; v[...] = a
        return v
    if rng_state == 3:
        b = a.copy(); b.setflags(write=False)
        return b
    return np.asfortranarray(a.copy())


def build(spec, st=0, args=None, live=None):
    """New object of a specification; argument arrays are appended to `args` with a copy."""
    st = st if st < 5 else 0            # arguments of constructors stay in use: never a shared buffer
    from qmat import Q_GENERATORS, QDELTA_GENERATORS
    from qmat.lagrange import LagrangeApproximation
    from qmat.nodes import NodesGenerator
    args = [] if args is None else args

    def A(v, lists=True):
        v = style(st if lists or st != 1 else 0, v)
        args.append((v, np.array(v)))
        return v
    k = spec[0]
    if k == "coll":
        return Q_GENERATORS["Collocation"](*spec[1], *(spec[2] or ()))
    if k == "rk":
        return Q_GENERATORS[spec[1]](padding=spec[2]) if spec[2] else Q_GENERATORS[spec[1]]()
    if k == "nodes":
        return NodesGenerator(spec[1], spec[2])
    if k == "lag":
        x = lag_points(spec)
        return LagrangeApproximation(A(x), weightComputation=spec[4], scaleWeights=spec[5], duplicates=spec[6])
    base = (live or {}).get(json.dumps(spec[2]))       # a base object that other calls use too
    if base is None:
        base = build(spec[2])
        if live is not None:
            live[json.dumps(spec[2])] = base
    if spec[3]:
        return QDELTA_GENERATORS[spec[1]](qGen=base)
    n, nt, qt = spec[2][1]
    return QDELTA_GENERATORS[spec[1]](Q=A(base.Q), nodes=A(base.nodes), tLeft=base.tLeft, nNodes=n, nodeType=nt, quadType=qt)


def lag_scale(spec):
    # some points for which products of differences overflow or underflow
    return {0: 1e70, 1: 1e-70}.get(spec[8] % 8, 1.0) if spec[1] >= 6 and spec[4] in ("AUTO", "STABLE") else 1.0


def lag_points(spec):
    rng = core.rng_of("C22 points", spec[8])
    x = gen.points(spec[2], spec[1], lag_scale(spec), 0.0, spec[3], rng)
    if spec[7] and x.size > 1:
        x = np.concatenate([x, x[: spec[7]]])
    return x


def execute(op, obj, st, args):
    """Run one call; argument arrays are appended to `args` with a copy. Returns the (nested) result."""
    import qmat
    from qmat import genQCoeffs, genQDeltaCoeffs, Q_GENERATORS, QDELTA_GENERATORS
    spec, f, a = op

    def A(v, lists=True):
        v = style(st if lists or st != 1 else 0, v, len(args))
        args.append((v, np.array(v)))
        return v
    if spec is None:
        if f == "genQCoeffs":
            p = dict(nNodes=a[3][1][0], nodeType=a[3][1][1], quadType=a[3][1][2])
            if a[3][2]:
                p.update(tLeft=a[3][2][0], tRight=a[3][2][1])
            return genQCoeffs(a[0], form=a[1], hCoeffs=a[2], **p)
        if f == "genQCoeffsRK":
            return genQCoeffs(a[0], form=a[1], hCoeffs=a[2])
        if f == "genQDeltaCoeffs":
            c = build(a[4])
            if a[5]:
                p = dict(qGen=c)
            else:
                p = dict(Q=A(c.Q), nodes=A(c.nodes), tLeft=c.tLeft, nNodes=a[4][1][0], nodeType=a[4][1][1], quadType=a[4][1][2])
            names = list(a[0]) if isinstance(a[0], list) else a[0]
            out = genQDeltaCoeffs(names, a[1], form=a[2], dTau=a[3], **p)
            if isinstance(names, list):
                args.append((np.array(names), np.array(a[0])))
            return out
        if f == "solveSDC":
            from qmat.utils.sdc import solveDahlquistSDC
            c = build(a[0])
            QDl = QDELTA_GENERATORS[a[1]](qGen=c).genCoeffs(k=list(range(1, a[3] + 1)) if a[5] else None)
            return solveDahlquistSDC(0.3 + 0.4j, 1.0, 1.0, a[2], a[3], A(c.Q, False), A(QDl), weights=A(c.weights, False) if a[4] else None,
                                     monitors=["residuals", "errors"] if a[4] else None)
        if f == "num":
            from qmat.utils import num
            rng = core.rng_of("C22 num", a)
            if a[0] == "order":
                n = 2.0 ** np.arange(a[1]) * 3
                return list(num.numericalOrder(A(n), A(rng.uniform(0.5, 1, a[1]) / n**2)))
            if a[0] == "ldu":
                return list(num.lduFactorization(A(rng.normal(size=(a[1], a[1])) + 5 * np.eye(a[1]), False)))
            return num.getExtrapolationMatrix(A(np.linspace(0, 1, a[1])), A(rng.uniform(1, 2, 3)), a[1] - 1)
        if f == "fejer":
            from qmat.lagrange import computeFejerRule
            return list(computeFejerRule(a[0]))
        if f == "sparse":
            from qmat.lagrange import getSparseInterpolationMatrix
            rng = core.rng_of("C22 sparse", a)
            return getSparseInterpolationMatrix(A(np.arange(a[0]) / a[0], False), A(rng.uniform(0, 1, 5), False), a[1], gridPeriod=1.0 if a[2] else -1).toarray()
        if f == "orderSDC":
            from qmat.utils.sdc import getOrderSDC
            return getOrderSDC(build(a[0]), a[1], a[2], a[3])
        if f == "timer":
            from qmat.utils import Timer
            c = Timer(a[0], scale=a[1])
            if a[2]:
                with c:
                    pass
            else:
                c.start(); c.stop()
            return [c.name, c.scale, c.descr, bool(0 <= c.tWall < 20)]
        if f == "errorSDC":
            from qmat.utils.sdc import errorDahlquistSDC
            c = build(a[0])
            M = QDELTA_GENERATORS[a[1]](qGen=c).genCoeffs()
            return errorDahlquistSDC(0.3 + 0.4j, 1.0, 1.0, a[2], a[3], A(c.Q, False), A(M), weights=A(c.weights, False) if a[4] else None,
                                     uNum=A(np.ones(a[2] + 1), False) if a[5] else None)
        if f == "classes":
            from qmat.utils import getClasses
            return sorted((k, v.__name__) for k, v in getClasses(Q_GENERATORS if a[0] == "q" else QDELTA_GENERATORS, a[1] or None).items())
        if f == "tables":
            return genQDeltaCoeffs(a[0], nNodes=a[1], nodeType="LEGENDRE", quadType="RADAU-RIGHT")
        raise ValueError(f)
    k = spec[0]
    if k in ("coll", "rk"):
        if f == "genCoeffs":
            return obj.genCoeffs(form=a[0], hCoeffs=a[1])
        if f == "attr":
            return getattr(obj, a[0])
        if f == "dahlquist":
            return obj.solveDahlquist(complex(a[0], a[1]), 1.0, 0.5, a[2])
        return obj.errorDahlquist(complex(a[0], a[1]), 1.0, 0.5, a[2])
    if k == "lag":
        rng = core.rng_of("C22 lag", a)
        x = lag_points(spec)
        w = 0.1 * lag_scale(spec)
        if f == "interp":
            return obj.getInterpolationMatrix(A(gen.times(x, rng)), duplicates=a[2])
        if f == "integ":
            t = np.sort(rng.uniform(x.min() - w, x.max() + w, 4))
            iv = np.array([[t[0], t[1]], [t[1], t[3]], [t[2], t[0]]])
            return obj.getIntegrationMatrix(A(iv), numQuad=a[1], duplicates=a[2])
        if f == "deriv":
            return obj.getDerivativeMatrix(order=1 + a[0] % 2 if a[0] % 3 else "ALL", duplicates=a[2])
        if f == "attr":
            return [obj.points, obj.weights, obj.uniquePoints]
        return obj(A(rng.uniform(x.min() - w, x.max() + w, (2, 3))), fValues=A(rng.normal(size=x.size)))
    if k == "nodes":
        rng = core.rng_of("C22 nodes", a)
        if f == "getNodes":
            return obj.getNodes(a[0])
        if spec[1] == "EQUID":
            return obj.getNodes(a[0] + 1)
        if f == "coeffs":
            return list(obj.getOrthogPolyCoefficients(a[0]))
        if f == "tridiag":
            return list(obj.getTridiagCoefficients(a[0]))
        return list(obj.evalOrthogPoly(A(rng.normal(size=3), False), A(rng.normal(size=a[0]), False), A(rng.normal(size=a[0]), False)))
    if f == "getQDelta":
        return obj.getQDelta(a[0])
    if f == "nocopy":
        return obj.getQDelta(k=a[0], copy=False)
    if f == "getSDelta":
        return obj.getSDelta(a[0])
    if f == "dTau":
        return obj.dTau
    if f == "genCoeffs":
        return obj.genCoeffs(k=a[0], form=a[1], dTau=a[2])
    ks = list(a[3])
    out = obj.genCoeffs(k=ks, form=a[1], dTau=a[2])
    args.append((np.array(ks), np.array(a[3])))
    return out


OWNED = {("coll", "genCoeffs"), ("coll", "attr"), ("rk", "genCoeffs"), ("rk", "attr"), ("lag", "attr"), ("qd", "nocopy")}


def frozen(x):
    if isinstance(x, (list, tuple)):
        return [frozen(v) for v in x]
    if isinstance(x, dict):
        return {k: frozen(v) for k, v in x.items()}
    return np.array(x)


def overwrite(x, rng):
    n = 0
    if isinstance(x, (list, tuple)):
        return sum(overwrite(v, rng) for v in x)
    if isinstance(x, dict):
        return sum(overwrite(v, rng) for v in x.values())
    if isinstance(x, np.ndarray) and x.flags.writeable and x.size and x.dtype.kind in "fci":
        x[...] = -7.25e3 if rng.random() < 0.7 or x.dtype.kind == "i" else np.nan
        n = 1
    return n


def differs(a, b):
    """None if equal, 'rounding' if equal up to rounding, otherwise a description."""
    if isinstance(a, (list, dict)) or isinstance(b, (list, dict)):
        if type(a) is not type(b) or len(a) != len(b):
            return f"structure {core.short(a, 80)} / {core.short(b, 80)}"
        out = [differs(a[k], b[k]) for k in (a if isinstance(a, dict) else range(len(a)))]
        out = [v for v in out if v]
        return None if not out else ([v for v in out if v != "rounding"] or out)[0]
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
        return f"{a.dtype}{a.shape} / {b.dtype}{b.shape}"
    if core.identical(a, b):
        return None
    if a.dtype.kind in "fc":
        m = np.isfinite(b)
        if (np.isfinite(a) == m).all() and np.abs(a - b)[m].max(initial=0) <= TOL[0] * np.abs(b[m]).max(initial=0):
            return "rounding"
    return f"{core.short(a, 150)} / {core.short(b, 150)}"


def forked(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            sys.stdout = open(os.devnull, "w")           # the timer prints
            data = pickle.dumps(fn())
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        except BaseException as e:
            sys.stderr.write(f"forked call failed: {e!r}\n")
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    if status:
        raise OSError(f"forked process failed with status {status}")
    return pickle.loads(data)


def reference(op):
    """Result of one call made first thing in a pristine process (or the exception it raises)."""
    try:
        obj = build(op[0]) if op[0] else None
        return frozen(execute(op, obj, 0, []))
    except Exception as e:
        return f"{type(e).__name__}"


def state():
    """Process-wide tables of the library that users read."""
    import scipy.sparse, scipy.optimize, scipy.linalg, scipy.special, scipy.interpolate, scipy.fft, numpy.polynomial   # importing may register filters
    import qmat.nodes, qmat.qdelta.mincoeffs as t
    from qmat import Q_GENERATORS, QDELTA_GENERATORS
    from qmat.qcoeff.butcher import RK_SCHEMES
    out = dict(reg=[sorted((k, id(v)) for k, v in d.items()) for d in (Q_GENERATORS, QDELTA_GENERATORS, RK_SCHEMES)],
               tab=json.dumps([t.MIN3, t.MIN_VDHS]), types=[list(qmat.nodes.NODE_TYPES), list(qmat.nodes.QUAD_TYPES)],
               rk={n: [core.digest(np.array(getattr(c, k))) for k in ("A", "b", "c", "b2") if getattr(c, k) is not None] for n, c in RK_SCHEMES.items()},
               err=np.geterr(), errcall=[id(np.geterrcall())], rnd=core.digest(np.random.get_state()[1]), random=core.digest(str(random.getstate())),
               printoptions=str(sorted(np.get_printoptions().items())), warnings=str(warnings.filters), environ=sorted(os.environ.items()), cwd=os.getcwd(),
               limits=[sys.getrecursionlimit(), threading.active_count(), locale.setlocale(locale.LC_ALL)], path=list(sys.path), streams=[id(sys.stdout), id(sys.stderr)],
               signals=[str(signal.getsignal(k)) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)])
    return out


def run_case(mon, case):
    TOL[0] = 1e-7 if case["kind"] == "large" else 1e-10
    {"history": history, "large": history, "focus": history, "threads": threads, "process": process}[case["kind"]](mon, case)


def focused(rng, n):
    """The same few calls on the same few objects, with other contents of the same arguments."""
    pool = []
    while len(pool) < n:
        kind = str(rng.choice(["lag", "lag", "qd", "coll", "rk", "nodes", "sparse", "num", "delta", "solve"]))
        if kind in ("sparse", "num", "delta", "solve"):
            f = dict(sparse="sparse", num="num", delta="genQDeltaCoeffs", solve="solveSDC")[kind]
            op = make_op(rng)
            while op[1] != f:
                op = make_op(rng)
            for _ in range(6):
                new = json.loads(json.dumps(op))
                if kind == "sparse":
                    new[2][3] = int(rng.integers(50)); new[2][2] = bool(rng.integers(2))
                elif kind == "num":
                    new[2][2] = int(rng.integers(50))
                else:
                    c = new[2][4 if kind == "delta" else 0]
                    c[1][1] = str(rng.choice(NT))
                    c[2] = [None, [-0.5, 2.0], [1.0, 1.25]][int(rng.integers(3))] if kind == "delta" else c[2]
                    if kind == "delta":
                        new[2][5] = bool(rng.random() < 0.2)
                pool.append(new)
        else:
            o = obj_spec(rng, kind)
            op = obj_op(rng, o)
            for _ in range(6):
                new = obj_op(rng, o)
                while new[1] != op[1] and rng.random() < 0.9:
                    new = obj_op(rng, o)
                if kind == "lag":
                    new[2][1:] = op[2][1:]
                pool.append(new)
    return pool


def ops_of(mon, case):
    rng = core.rng_of("C22", mon.seed, case)
    if case["kind"] == "focus":
        return focused(rng, case["n"]), rng
    pool = [make_op(rng) for _ in range(case["n"] // 2)]
    if case["kind"] == "large":
        pool = [enlarge(op, rng) for op in pool if op[1] not in ("tables", "orderSDC")]
    pool += [obj_op(rng, p[0]) for p in pool if p[0]]        # several operations per object
    return pool, rng


def history(mon, case):
    pool, rng = ops_of(mon, case)
    refs = [forked(lambda op=op: reference(op)) for op in pool]
    mon.notes["calls that raise in a pristine process"] += sum(isinstance(r, str) for r in refs)
    for op in pool:
        mon.distinct.add(core.digest(json.dumps(op)))

    def run():
        sub = core.Monitor(mon.pid, mon.tier, mon.seed)
        sub.case = case
        before = state()
        live = {}
        log = []
        for step in range(3 * len(pool)):
            i = int(rng.integers(len(pool)))
            op, ref = pool[i], refs[i]
            st = int(rng.integers(8)) if case["kind"] == "history" else [0, 3, 5][int(rng.integers(3))] if case["kind"] == "large" else [0, 5, 5, 5][int(rng.integers(4))]    # large: the order of sums depends on the layout
            args = []
            key = json.dumps(op[0])
            log.append(f"{op} (arguments {st})")
            if isinstance(ref, str):
                try:
                    obj = build(op[0], 0, args) if op[0] else None
                    execute(op, obj, 0, args)
                    sub.fail("history", f"{op} raises {ref} in a pristine process, but not after {log[-6:-1]}")
                except Exception as e:
                    sub.check("history", type(e).__name__ == ref, f"{op} raises {type(e).__name__} instead of {ref} after {log[-6:-1]}")
                continue
            try:
                reused = op[0] is not None and key in live and rng.random() < 0.75
                obj = live[key] if reused else (build(op[0], st, args, live if rng.random() < 0.7 else None) if op[0] else None)
                sub.events[op[1] if op[0] is None else f"{op[0][0]}.{op[1]}"] += 1
                sub.notes["calls on reused objects"] += bool(reused)
                out = execute(op, obj, st, args)
            except Exception as e:
                sub.fail("history", f"{op} (argument style {st}) raises {type(e).__name__}: {e}, unlike in a pristine process; history {log[-6:-1]}")
                break
            d = differs(frozen(out), ref)
            if d == "rounding":
                sub.notes["equal up to rounding only"] += 1
                d = None
            if not sub.check("history", d is None, f"{op} (argument style {st}, {'reused' if reused else 'new'} object) gives {d} instead of the pristine result; history {log[-6:-1]}"):
                break
            for v, c in args:
                sub.check("arguments", core.identical(np.array(v), c), f"{op}: argument {core.short(c)} modified to {core.short(v)}")
            if op[0] is not None:
                live[key] = obj
            if rng.random() < 0.6:
                n = overwrite(out, rng)
                sub.notes["results overwritten"] += n
                if n and op[0] is not None and (op[0][0], op[1]) in OWNED:
                    live.pop(key, None)
                    if op[0][0] in ("coll", "rk"):       # approximations built on this object share its arrays
                        for k in [k for k in live if k.startswith('["qd"') and key in k]:
                            live.pop(k)
        after = state()
        for k in before:
            sub.check("global-state", before[k] == after[k], f"process-wide state '{k}' changed by the history {log[-10:]}")
        return sub.export()
    mon.merge(forked(run))
    mon.sample(dict(case=case, first=pool[:3]))


def threads(mon, case):
    pool, rng = ops_of(mon, case)
    refs = [forked(lambda op=op: reference(op)) for op in pool]
    for op in pool:
        mon.distinct.add(core.digest(json.dumps(op)))
    seeds = [int(v) for v in rng.integers(0, 2**31, 8)]

    def run():
        sub = core.Monitor(mon.pid, mon.tier, mon.seed)
        sub.case = case
        before = state()
        shared = {}
        for op in pool:
            if op[0] is not None and op[0][0] != "nodes" or op[0] is not None:
                key = json.dumps(op[0])
                if key not in shared:
                    try:
                        shared[key] = build(op[0])
                    except Exception:
                        shared[key] = None
        good = [i for i, op in enumerate(pool) if not isinstance(refs[i], str)]
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        barrier = threading.Barrier(8)
        trace, results, errors = [], [[] for _ in seeds], []
        root = os.path.realpath(core.REPO) + os.sep

        def worker(t):
            r = np.random.default_rng(seeds[t])
            ticks = [0]

            def line(frame, event, arg):
                ticks[0] += 1
                if ticks[0] % (5 + t) == 0:
                    time.sleep(0)            # yield in the middle of the library's own code
                return line

            def tracer(frame, event, arg):
                return line if frame.f_code.co_filename.startswith(root) else None
            sys.settrace(tracer)
            try:
                barrier.wait()
                # everybody starts on the same uncomputed objects
                order = good[:10] + [good[int(j)] for j in r.integers(0, len(good), case["n"])]
                for i in order:
                    op = pool[i]
                    obj = shared[json.dumps(op[0])] if op[0] is not None else None
                    args = []
                    trace.append((t, i))
                    out = execute(op, obj, 0, args)
                    trace.append((t, -1 - i))
                    results[t].append((i, differs(frozen(out), refs[i]), [core.identical(np.array(v), c) for v, c in args]))
            except Exception as e:
                errors.append(f"thread {t}: {pool[trace_op(trace, t)]} raised {type(e).__name__}: {e}")
            finally:
                sys.settrace(None)
        ths = [threading.Thread(target=worker, args=(t,)) for t in range(8)]
        [t.start() for t in ths]
        [t.join() for t in ths]
        sys.setswitchinterval(old)
        for e in errors:
            sub.fail("threads", e)
        for t, res in enumerate(results):
            for i, d, ok in res:
                op = pool[i]
                sub.events[(op[1] if op[0] is None else f"{op[0][0]}.{op[1]}") + " (threads)"] += 1
                if d == "rounding":
                    sub.notes["equal up to rounding only"] += 1
                    d = None
                sub.check("threads", d is None, f"thread {t}: {op} gives {d} instead of the pristine result")
                sub.check("arguments", all(ok), f"thread {t}: {op} modified an argument")
        active, overlap = set(), 0
        for t, i in trace:
            if i >= 0:
                overlap += bool(active)
                active.add(t)
            else:
                active.discard(t)
        sub.notes["calls that overlapped another thread's call"] += overlap
        sub.notes["distinct thread interleavings"] += len({core.digest([t for t, _ in trace])})
        sub.notes["switches between threads at call boundaries"] += sum(a[0] != b[0] for a, b in zip(trace, trace[1:]))
        after = state()
        for k in before:
            if k not in ("err", "warnings"):        # contexts of several threads overlap
                sub.check("global-state", before[k] == after[k], f"process-wide state '{k}' changed by threads")
        return sub.export()
    mon.merge(forked(run))


def trace_op(trace, t):
    return [i for u, i in trace if u == t and i >= 0][-1]


def process(mon, case):
    """The same calls in brand new interpreters with other hash seeds and in other orders."""
    pool, rng = ops_of(mon, case)
    refs = [forked(lambda op=op: reference(op)) for op in pool]
    perm = [int(v) for v in rng.permutation(len(pool))]
    env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 10**6))), QMON_REPO=core.REPO, PYTHONDONTWRITEBYTECODE="1")
    code = ("import sys, pickle, warnings; sys.dont_write_bytecode=True; warnings.simplefilter('ignore'); sys.path.insert(0, %r)\n"
            "from qmon import core; core.use_repo()\nimport numpy as np\nfrom qmon.checks import c22\n"
            "ops = pickle.load(sys.stdin.buffer)\nnp.seterr(all='ignore')\nb = sys.stdout.buffer; sys.stdout = open('/dev/null', 'w')\nout = [c22.reference(op) for op in ops]\nb.write(pickle.dumps(out))" % core.VERIF)
    flags = [[], [], ["-O"], ["-OO"]][int(rng.integers(4))]
    p = subprocess.run([sys.executable, "-B", *flags, "-c", code], input=pickle.dumps([pool[i] for i in perm]), capture_output=True, env=env, timeout=300)
    if p.returncode:
        mon.fail("process", f"fresh interpreter failed: {p.stderr.decode()[-400:]}")
        return
    out = pickle.loads(p.stdout)
    for i, res in zip(perm, out):
        op = pool[i]
        mon.events[(op[1] if op[0] is None else f"{op[0][0]}.{op[1]}") + " (process)"] += 1
        mon.distinct.add(core.digest(json.dumps(op)))
        if isinstance(res, str) or isinstance(refs[i], str):
            d = None if isinstance(res, str) and isinstance(refs[i], str) and res == refs[i] else f"{core.short(res, 80)} / {core.short(refs[i], 80)}"
        else:
            d = differs(res, refs[i])
        if d == "rounding":
            mon.notes["equal up to rounding only"] += 1
            d = None
        mon.check("process", d is None, f"{op} in a new process gives {d}")
