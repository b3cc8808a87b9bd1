"""C20: multi-sweep generation."""
import copy, itertools
import numpy as np
from qmon import core

RULE = ("One case = one base method with several random sweep requests (names, counts, forms, iteration lists); non-trivial = every slice of the returned stack compared with "
        "the matrix a fresh generator of the expected name gives for the expected iteration.")
ROUNDS = dict(quick=5)
REQUIRED = {"slice": 5000, "first-dTau": 500, "arguments": 1000, "rejects": 1000, "single": 300, "k-list": 500}
ASSUMPTIONS = ["single matrices per name and iteration are decided by C16 to C19; this check decides their selection and stacking"]
NT = ["EQUID", "LEGENDRE", "CHEBY-1", "CHEBY-2", "CHEBY-3", "CHEBY-4"]
QT = ["GAUSS", "RADAU-LEFT", "RADAU-RIGHT", "LOBATTO"]
ANY = ["PIC", "Picard", "Exact", "EXACT", "QPar", "Qpar", "Qdiag", "GS", "GaussSeidel", "MIN_SR_NS", "MIN-SR-NS", "MIN_GT", "Jumper", "JUMPER", "FB", "FlexJumper",
       "FLEX-JUMPER", "FB2", "DNODES", "DNODES-1", "DNODES2", "DNODES-2", "DNODES3", "DNODES-3", "DNODES4", "DNODES-4", "DNODES5", "DNODES-5",
       "BE", "IE", "FE", "EE", "TRAP", "CN", "BEPAR", "IEpar", "TRAPAR"]
COLL = ["LU", "LU2", "MIN-SR-S", "MIN_SR_S", "MIN-SR-FLEX", "MIN_SR_FLEX", "SOE", "LeapFrog", "LF"]
KDEP = ["Jumper", "JUMPER", "FB", "FlexJumper", "FLEX-JUMPER", "FB2"]
FORMS = [None, "Z2N", "N2N"]


def cases(tier, seed):
    rng = core.rng_of("C20", tier, seed)
    for i in range(400 if tier == "quick" else 8000):
        n = int(rng.integers(2, 8))
        yield dict(kind="coll", cfg=(n, NT[i % 6], QT[int(rng.integers(4))]), src=["qGen", "explicit"][int(rng.integers(2))], i=i)
    for i in range(30 if tier == "quick" else 600):
        yield dict(kind="rk", name=str(rng.choice(["RK4", "SDIRK2", "BE", "ESDIRK43", "HEUN", "CashKarp", "ARK4EDIRK", "GAUSS-LG", "RK4-38"])), i=i)


def run_case(mon, case):
    from qmat import QDELTA_GENERATORS, Q_GENERATORS, genQDeltaCoeffs
    rng = core.rng_of("C20", mon.seed, case)
    if case["kind"] == "rk":
        if case["name"] not in Q_GENERATORS:
            return
        c = Q_GENERATORS[case["name"]]()
        if c.nodes.size > 1 and (np.diff(c.nodes) <= 0).any():
            names = ["PIC", "Exact", "QPar", "GS", "Jumper", "FlexJumper", "DNODES-3", "MIN-SR-NS"]
        else:
            names = list(ANY)
        params = dict(qGen=c)
    else:
        c = Q_GENERATORS["Collocation"](*case["cfg"])
        names = ANY + COLL
        if case["src"] == "explicit":
            params = dict(Q=c.Q, nodes=c.nodes, nNodes=c.nNodes, nodeType=c.nodeType, quadType=c.quadType, tLeft=0)
        else:
            params = dict(qGen=c)
    n = c.nodes.size
    cache = {}

    def ref(name, k, form):
        key = (name, k, form)
        if key not in cache:
            g = QDELTA_GENERATORS[name](**params)
            cache[key] = g.getSDelta(k) if form == "N2N" else g.getQDelta(k)
            cache[name] = g.dTau
        return cache[key]

    for rep in range(12):
        form, dt = FORMS[int(rng.integers(3))], bool(rng.integers(2))
        how = str(rng.choice(["list", "list+count", "one+count", "one", "single-list", "single-list+count"]))
        L = int(rng.integers(2, 6))
        sel = [str(v) for v in rng.choice(names, L)]
        if rng.random() < 0.6:
            sel[int(rng.integers(L))] = str(rng.choice(KDEP))
        if rng.random() < 0.3:
            sel[-1] = sel[0]
        count = None
        if how.startswith("one"):
            arg = sel[0]
            seq = [sel[0]]
        else:
            arg = seq = sel[:1] if how.startswith("single") else sel
        if how.endswith("count"):
            count = len(seq) + int(rng.choice([0, 0, 1, 2, 3, 7]))
        total = count if count is not None else len(seq)
        expected = list(seq) + [seq[-1]] * (total - len(seq))
        kw = dict(params)
        if form is not None:
            kw["form"] = form
        if dt or rng.random() < 0.2:
            kw["dTau"] = dt
        arg = list(arg) if isinstance(arg, list) else arg
        keep = copy.copy(arg)
        before = {k: np.array(v) for k, v in params.items() if isinstance(v, np.ndarray)}
        pos = rng.random() < 0.3
        if count is not None and pos:
            out = mon.call("genQDeltaCoeffs", genQDeltaCoeffs, arg, count, **kw)
        elif count is not None:
            out = mon.call("genQDeltaCoeffs", genQDeltaCoeffs, arg, nSweeps=count, **kw)
        else:
            out = mon.call("genQDeltaCoeffs", genQDeltaCoeffs, arg, **kw)
        what = f"{keep} nSweeps={count} form={form} dTau={dt} ({case.get('cfg', case.get('name'))})"
        mon.check("arguments", arg == keep, f"{what}: list of names modified to {arg}")
        for k, v in before.items():
            mon.same("arguments", params[k], v, f"{what}: {k} modified")
        if dt:
            if not mon.check("first-dTau", isinstance(out, (list, tuple)) and len(out) == 2, f"{what}: matrices and dTau expected"):
                continue
            out, d = out
        if how == "one":
            mon.shape("shape", out, (n, n), what)
            mon.same("single", out, ref(expected[0], None, form), f"{what}")
        else:
            mon.shape("shape", out, (total, n, n), what)
            for k, name in enumerate(expected):
                mon.same("slice", out[k], ref(name, k + 1, form), f"{what}: sweep {k + 1} is not {name} for iteration {k + 1}")
        if dt:
            ref(expected[0], 1, form)
            mon.same("first-dTau", d, cache[expected[0]], f"{what}: dTau is not that of {expected[0]}")
        if how != "one" and total > 1:
            # the stack is an ordinary array: writing one sweep leaves the others alone
            rest = out[1:].copy()
            out[0] += 1.0
            mon.same("independent", out[1:], rest, f"{what}: sweeps share memory")

    # iteration lists on generator objects
    for rep in range(4):
        name = str(rng.choice(names)) if rep % 2 else str(rng.choice(KDEP + (["MIN-SR-FLEX"] if case["kind"] == "coll" else [])))
        form, dt = FORMS[int(rng.integers(3))], bool(rng.integers(2))
        ks = [int(v) for v in rng.integers(1, 9, int(rng.integers(1, 7)))]
        arg = [ks, tuple(ks), np.array(ks), ks][int(rng.integers(4))]
        g = mon.call("generator", QDELTA_GENERATORS[name], **params)
        out = mon.call("genCoeffs", g.genCoeffs, arg, **(dict(form=form) if form else {}), **(dict(dTau=True) if dt else {}))
        what = f"{name}.genCoeffs({arg!r}, form={form}, dTau={dt})"
        mon.same("arguments", np.array(arg), np.array(ks), f"{what}: iteration list modified")
        if dt:
            if not mon.check("first-dTau", isinstance(out, (list, tuple)) and len(out) == 2, f"{what}: matrices and dTau expected"):
                continue
            out, d = out
        mon.shape("shape", out, (len(ks), n, n), what)
        for j, k in enumerate(ks):
            mon.same("k-list", out[j], ref(name, k, form), f"{what}: entry {j} is not iteration {k}")
        if dt:
            ref(name, 1, form)
            mon.same("first-dTau", d, cache[name], f"{what}: dTau")

    # invalid requests
    bad = (ValueError, AssertionError)
    a, b = str(rng.choice(names)), str(rng.choice(names))
    for ns in (0, -1, -5, 2.0, 1.5, "2", [2], "auto"):
        mon.rejects("genQDeltaCoeffs", bad, genQDeltaCoeffs, a, ns, **params)
        mon.rejects("genQDeltaCoeffs", bad, genQDeltaCoeffs, [a], nSweeps=ns, **params)
        mon.rejects("genQDeltaCoeffs", bad, genQDeltaCoeffs, [a, b], nSweeps=ns, **params)
    L = int(rng.integers(2, 6))
    for ns in range(1, L):
        lst = [a, b] * L
        mon.rejects("genQDeltaCoeffs", bad, genQDeltaCoeffs, lst[:L], ns, **params)
    mon.rejects("genQDeltaCoeffs", bad, genQDeltaCoeffs, [], **params)
    mon.rejects("genQDeltaCoeffs", bad, genQDeltaCoeffs, [], 3, **params)
    for lst in (["nope"], ["nope", a], [a, "nope"], [a, b, "be"], [a, ""]):
        keep = list(lst)
        mon.rejects("genQDeltaCoeffs", bad, genQDeltaCoeffs, lst, **params)
        mon.rejects("genQDeltaCoeffs", bad, genQDeltaCoeffs, lst, len(lst) + 2, **params)
        mon.check("arguments", lst == keep, "list of names modified by a rejected call")
    for t in (None, 3, 1.5, dict(BE=1)):
        mon.rejects("genQDeltaCoeffs", bad, genQDeltaCoeffs, t, **params)
    mon.rejects("genQDeltaCoeffs", bad, genQDeltaCoeffs, "nope", 2, **params)
    mon.rejects("genQDeltaCoeffs", bad, genQDeltaCoeffs, [a, b], form="ZZZ", **params)
    mon.sample(dict(case=case))
