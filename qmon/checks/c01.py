"""C01: quadrature nodes."""
import numpy as np
from qmon import core
from qmon.orthref import TYPES, node_poly

RULE = ("One case = one (distribution, quadrature type, number of nodes) triple; non-trivial = the returned nodes were tested (count, order, range, "
        "bounds, and Newton correction of the defining polynomial in extended precision, or exact spacing).")
REQUIRED = {"getNodes": 1000, "zeros": 500, "spacing": 100, "bounds": 1000, "rejects": 50, "mirror": 50}
ASSUMPTIONS = ["node error bound 1e-14 + 2e-16 n (observed: below 1.2e-15 up to n = 4000)", "long double has at least 64 bits of mantissa"]
ALL = ["EQUID"] + TYPES
QUADS = ["GAUSS", "RADAU-LEFT", "RADAU-RIGHT", "LOBATTO"]


def cases(tier, seed):
    rng = core.rng_of("C01", tier, seed)
    top = 130 if tier == "quick" else 400
    for n in range(1, top + 1):
        yield dict(kind="nodes", n=n)
    extra = {255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 1100, 1500, 2000} | {int(v) for v in rng.integers(top, 1500, 12)}
    if tier == "thorough":
        extra |= {2500, 3000, 4000, 4096} | {int(v) for v in rng.integers(top, 2500, 60)}
    for n in sorted(extra):
        for nt in ALL:
            yield dict(kind="nodes", n=n, only=nt)
    yield dict(kind="invalid", n=1)
    yield dict(kind="types", n=1)


def cost(c):
    return 6 + (c["n"] / 40) ** 2 * (1 if "only" in c else 6)


def tol(n):
    return 1e-14 + 2e-16 * n


def run_case(mon, case):
    from qmat.nodes import NodesGenerator
    if case["kind"] == "invalid":
        return invalid(mon)
    if case["kind"] == "types":
        return types(mon)
    n = case["n"]
    for nt in ([case["only"]] if "only" in case else ALL):
        got = {}
        for qt in QUADS:
            gen = mon.call("NodesGenerator", NodesGenerator, nt, qt, nontrivial=False)
            left, right = qt in ("LOBATTO", "RADAU-LEFT"), qt in ("LOBATTO", "RADAU-RIGHT")
            if n < (2 if left else 1):
                mon.rejects("getNodes", ValueError, gen.getNodes, n)
                continue
            mon.distinct.add(core.digest((nt, qt, n)))
            x = mon.call("getNodes", gen.getNodes, n, nontrivial=False)
            got[qt] = x
            name = f"{nt} {qt} n={n}"
            mon.shape("shape", x, (n,), name)
            mon.check("dtype", x.dtype.kind == "f", f"{name}: dtype {x.dtype}")
            mon.check("finite", np.isfinite(x).all(), f"{name}: non-finite nodes")
            mon.check("increasing", (np.diff(x) > 0).all(), f"{name}: not strictly increasing", nodes=x)
            mon.check("range", x[0] >= -1 and x[-1] <= 1, f"{name}: outside [-1, 1]", nodes=x)
            mon.check("bounds", (x[0] == -1.0) == left and (x[-1] == 1.0) == right, f"{name}: bounds {x[0]!r}, {x[-1]!r}")
            if nt == "EQUID":
                k = np.arange(n)
                ref = {"GAUSS": -1 + 2 * (k + 1) / (n + 1), "LOBATTO": -1 + 2 * k / max(n - 1, 1), "RADAU-RIGHT": -1 + 2 * (k + 1) / n,
                       "RADAU-LEFT": -1 + 2 * k / n}[qt]
                mon.close("spacing", x, ref, 2e-15, name)
            else:
                q, d = node_poly(nt, qt, n, x)
                mon.close("zeros", (q / d).astype(float), np.zeros(n), tol(n), f"{name}: Newton correction of the defining polynomial")
        for a, b in (("GAUSS", "GAUSS"), ("LOBATTO", "LOBATTO"), ("RADAU-LEFT", "RADAU-RIGHT")):
            if nt in ("EQUID", "LEGENDRE", "CHEBY-1", "CHEBY-2") and a in got and b in got:
                mon.close("symmetry", got[a], -got[b][::-1], 2 * tol(n), f"{nt} n={n}: {a} against mirrored {b}")
        if nt == "CHEBY-3":
            for qt, mq in (("GAUSS", "GAUSS"), ("LOBATTO", "LOBATTO"), ("RADAU-LEFT", "RADAU-RIGHT"), ("RADAU-RIGHT", "RADAU-LEFT")):
                if qt in got and (n > 1 or mq in ("GAUSS", "RADAU-RIGHT")):
                    other = mon.call("getNodes", NodesGenerator("CHEBY-4", mq).getNodes, n, nontrivial=False)
                    mon.close("mirror", got[qt], -other[::-1], 2 * tol(n), f"CHEBY-3 {qt} against mirrored CHEBY-4 {mq}, n={n}")
    mon.sample(dict(n=n, last={k: core.short(v, 80) for k, v in got.items()}))


def types(mon):
    from qmat.nodes import NodesGenerator
    gen = mon.call("NodesGenerator", NodesGenerator)
    mon.check("default", (gen.nodeType, gen.quadType) == ("LEGENDRE", "LOBATTO"), "default generator is not LEGENDRE LOBATTO")
    for nt in ALL:
        for qt in QUADS:
            a = mon.call("NodesGenerator", NodesGenerator, nt, qt)
            b = mon.call("NodesGenerator", NodesGenerator, nodeType=nt, quadType=qt)
            mon.check("names-kept", (a.nodeType, a.quadType, b.nodeType, b.quadType) == (nt, qt, nt, qt), f"{nt} {qt}: names")
            for n in (2, 5, np.int64(5), np.int32(3)):
                x = mon.call("getNodes", a.getNodes, n)
                y = mon.call("getNodes", b.getNodes, nNodes=int(n))
                mon.close("int-types", x, y, 1e-15, f"{nt} {qt} n={n!r}")


def invalid(mon):
    from qmat.nodes import NodesGenerator
    for bad in ("legendre", "CHEBY", "CHEBY-5", "CHEBY-0", "", "RADAU-RIGHT", "EQUID ", "GAUSS", "JACOBI"):
        mon.rejects("NodesGenerator", ValueError, NodesGenerator, nodeType=bad)
        mon.rejects("NodesGenerator", ValueError, NodesGenerator, bad, "GAUSS")
    for bad in ("gauss", "RADAU", "RADAU-I", "", "LEGENDRE", "LOBATTO-LEFT", "RADAU-left", "LEFT"):
        mon.rejects("NodesGenerator", ValueError, NodesGenerator, quadType=bad)
        mon.rejects("NodesGenerator", ValueError, NodesGenerator, "EQUID", bad)
    for nt in ALL:
        for qt in QUADS:
            gen = NodesGenerator(nt, qt)
            for n in (0, -1, -5) + ((1,) if qt in ("LOBATTO", "RADAU-LEFT") else ()):
                mon.rejects("getNodes", ValueError, gen.getNodes, n)
