"""C14: zero-to-node and node-to-node forms, optional outputs."""
import itertools
import numpy as np
from qmon import core, exact

RULE = ("One case = one generator object (base coefficients or approximation, any configuration); non-trivial = both forms, transfer matrices and every combination of "
        "optional outputs observed and compared.")
ROUNDS = dict(quick=8)
REQUIRED = {"N2N": 500, "transfer": 100, "attributes": 200, "hCoeffs": 200, "Q-options": 400, "QDelta-options": 500, "rejects": 100, "k-list": 200}
ASSUMPTIONS = ["node-to-node collocation matrices are integrated separately by the library: compared within the integration bound of C04, others to 4 ulp"]
NT = ["EQUID", "LEGENDRE", "CHEBY-1", "CHEBY-2", "CHEBY-3", "CHEBY-4"]
QT = ["GAUSS", "RADAU-LEFT", "RADAU-RIGHT", "LOBATTO"]
QD = ["PIC", "Exact", "LU", "LU2", "QPar", "GS", "LDU", "MIN", "MIN3", "MIN_VDHS", "MIN_SR_NS", "MIN_SR_S", "MIN_SR_FLEX", "Jumper", "FlexJumper",
      "DNODES", "DNODES2", "DNODES3", "DNODES4", "DNODES5", "BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE"]
U = exact.U


def cases(tier, seed):
    from qmat.qcoeff import Q_GENERATORS
    rng = core.rng_of("C14", tier, seed)
    for name in Q_GENERATORS:
        for pad in ((None,) if name in ("coll", "Collocation") else (None, "LEFT", "RIGHT", "BOTH")):
            yield dict(kind="Q", name=name, pad=pad)
    for i in range(60 if tier == "quick" else 600):
        yield dict(kind="Q", name="user", pad=None, i=i)
    for i, n in enumerate((16, 31, 33, 41, 64, 65, 100, 129) if tier == "quick" else (16, 31, 32, 33, 41, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 256, 257)):
        yield dict(kind="Q", name="user", pad=None, i=-1 - i, n=n)
        yield dict(kind="Q", name="Collocation", cfg=(min(n, 65), NT[i % 6 if n < 33 else 1 + i % 5], QT[i % 4]), iv=None)
        for qd in [str(q) for q in rng.permutation([q for q in QD if q not in ("MIN", "MIN3", "MIN_VDHS", "MIN_SR_S", "MIN_SR_FLEX", "LDU", "LU", "LU2", "SOE")])[:3 if tier == "quick" else 17]]:
            yield dict(kind="D", qd=qd, name="user", n=n)
    for n in range(1, 9 if tier == "quick" else 21):
        for nt in NT:
            for qt in QT:
                if n == 1 and qt in ("LOBATTO", "RADAU-LEFT"):
                    continue
                a, w = float(rng.normal()), float(10.0**rng.uniform(-2, 2))
                iv = [None, (a, a + w)][int(rng.integers(2))]
                yield dict(kind="Q", name="Collocation", cfg=(n, nt, qt), iv=iv)
                if n <= 5:
                    for qd in QD:
                        if qd in ("MIN3", "MIN_VDHS") and not (nt == "LEGENDRE" and qt == "RADAU-RIGHT" and (n in (3, 4) if qd == "MIN_VDHS" else n >= 2)):
                            continue
                        if qd == "LDU" and qt in ("LOBATTO", "RADAU-LEFT") or qd == "MIN" and (qt in ("LOBATTO", "RADAU-LEFT") or n > 3):
                            continue
                        if rng.random() < (0.35 if tier == "quick" else 1.0):
                            yield dict(kind="D", qd=qd, cfg=(n, nt, qt), iv=iv if qd in ("BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE", "LU", "GS", "QPar", "Exact") else None)


def tmat(n):
    T = np.eye(n)
    for i in range(1, n):
        T[i, i - 1] = -1
    return T


def run_case(mon, case):
    (base if case["kind"] == "Q" else approx)(mon, case)


def make(case):
    from qmat.qcoeff import Q_GENERATORS, QGenerator
    if case.get("name") == "user":                      # user-defined base method: any nodes, in any order, possibly repeated
        rng = core.rng_of("C14 user", case)
        n = case.get("n") or int(rng.integers(1, 8))
        x = np.sort(rng.uniform(-0.2, 1.2, n)) if rng.random() < 0.5 or case["kind"] == "D" else rng.permutation(np.linspace(0, 1, n) if n > 1 else np.array([0.5]))
        if case["kind"] == "D":
            pass
        elif n > 1 and rng.random() < 0.5:
            x[rng.integers(n)] = x[rng.integers(n)]
        if rng.random() < 0.3:
            x[rng.integers(n)] = 1.0
        Q, b, b2 = rng.normal(size=(n, n)) * 10.0 ** rng.integers(-9, 9), rng.normal(size=n), rng.normal(size=n)
        ns = dict(nodes=property(lambda s: x), Q=property(lambda s: Q), weights=property(lambda s: b), order=property(lambda s: 1))
        if rng.random() < 0.5:
            ns["weightsEmbedded"] = property(lambda s: b2)
        return type("User", (QGenerator,), ns)()
    if "cfg" in case:
        return Q_GENERATORS["Collocation"](*case["cfg"], *(case["iv"] or ()))
    if case["name"] in ("coll", "Collocation"):
        return Q_GENERATORS[case["name"]].getInstance()
    return Q_GENERATORS[case["name"]](padding=case["pad"])


def base(mon, case):
    from qmat.qcoeff import genQCoeffs
    g = mon.call("generator", make, case)
    Q, S, T, Ti, x, w = (mon.get(k, g, k) for k in ("Q", "S", "T", "Tinv", "nodes", "weights"))
    n = x.size
    name = str(case)
    for lab, v, sh in (("Q", Q, (n, n)), ("S", S, (n, n)), ("T", T, (n, n)), ("Tinv", Ti, (n, n)), ("nodes", x, (n,)), ("weights", w, (n,))):
        mon.shape("shape", v, sh, f"{name} {lab}")
    mon.same("transfer", T, tmat(n), f"{name}: transfer matrix")
    mon.same("transfer", Ti, np.tril(np.ones((n, n))), f"{name}: inverse transfer matrix")
    mon.same("transfer", T @ Ti, np.eye(n), f"{name}: T times its inverse")
    mon.same("transfer", Ti @ T, np.eye(n), f"{name}: inverse times T")
    dQ = np.vstack([Q[:1], np.diff(np.asarray(Q, dtype=float), axis=0)])
    tol = 4 * U * (np.abs(Q) + np.vstack([0 * Q[:1], np.abs(Q[:-1])]))
    coll = hasattr(g, "tLeft")
    if coll:
        a = g.tLeft
        t1 = exact.tol_integrals(x, [(a, t) for t in x])
        tol = tol + 2 * t1 + 2 * np.vstack([t1[:1], t1[:-1]])
    mon.close("N2N", S, dQ, tol, f"{name}: S is the difference of rows of Q")
    mon.close("N2N", Ti @ S, Q, np.tril(np.ones((n, n))) @ (tol + 4 * n * U * np.abs(S)), f"{name}: Tinv S is Q")
    mon.check("attributes", mon.get("nNodes", g, "nNodes") == n, f"{name}: nNodes is {g.nNodes}")
    mon.check("attributes", bool(mon.get("rightIsNode", g, "rightIsNode")) == bool(x[-1] == (g.tRight if coll else 1)), f"{name}: rightIsNode is {g.rightIsNode}", nodes=x)
    try:
        w2 = g.weightsEmbedded
        emb = (False, True)
    except NotImplementedError:
        emb = (False,)
        mon.rejects("genCoeffs", NotImplementedError, g.genCoeffs, embedded=True)
    h = mon.get("hCoeffs", g, "hCoeffs")
    mon.shape("shape", h, (n,), f"{name} hCoeffs")
    if not coll:                                    # values at the end of the step of the Lagrange basis of the distinct nodes
        v = np.unique(np.asarray(x, dtype=float))
        P = exact.Lagrange(v).values([1.0]) if n <= 65 else None
        if n <= 65 and np.abs(P).sum() * exact.weight_delta(v) < 1e-3:
            mon.close("hCoeffs", np.array([[h[x == t].sum() for t in v]]), P, exact.tol_values(v, P), f"{name}: hCoeffs", nodes=x)
            mon.check("hCoeffs", all((h[x == t] != 0).sum() <= 1 for t in v), f"{name}: hCoeffs of a repeated node on several columns", nodes=x, h=h)
    params = dict(zip(("nNodes", "nodeType", "quadType"), case["cfg"])) if "cfg" in case else \
        dict(nNodes=4, nodeType="LEGENDRE", quadType="RADAU-RIGHT") if coll else dict(padding=case["pad"])
    if case.get("iv"):
        params.update(tLeft=case["iv"][0], tRight=case["iv"][1])
    for form, hc, e in itertools.product(("Z2N", "N2N"), (False, True), emb):
        M = Q if form == "Z2N" else S
        expect = [x, np.vstack([w, w2]) if e else w, M] + ([h] if hc else [])
        calls = [lambda: g.genCoeffs(form=form, hCoeffs=hc, embedded=e), lambda: g.genCoeffs(form, hc, e)]
        if case["name"] != "user":
            calls.append(lambda: genQCoeffs(case["name"], form=form, hCoeffs=hc, embedded=e, **params))
        if form == "Z2N":
            calls.append(lambda: g.genCoeffs(hCoeffs=hc, embedded=e))
        for fn in calls:
            out = mon.call("genCoeffs", fn, nontrivial=False)
            if mon.check("Q-options", len(out) == len(expect), f"{name}: {len(out)} outputs for form {form}, hCoeffs {hc}, embedded {e}"):
                for o, r, lab in zip(out, expect, ("nodes", "weights", "matrix", "hCoeffs")):
                    mon.same("Q-options", o, r, f"{name}: {lab} for form {form}, hCoeffs {hc}, embedded {e}")
    mon.distinct.add(core.digest((name, Q)))
    for bad in ("z2n", "S", "", None, "N2Z"):
        mon.rejects("genCoeffs", ValueError, g.genCoeffs, form=bad)
    if case["name"] != "user":
        mon.rejects("genQCoeffs", ValueError, genQCoeffs, case["name"], form="NODES", **params)
    mon.sample(name)


def approx(mon, case):
    from qmat.qdelta import QDELTA_GENERATORS, genQDeltaCoeffs
    c = make(case)
    n = c.nodes.size
    name = str(case)
    g = mon.call("generator", QDELTA_GENERATORS[case["qd"]], qGen=c)
    kdep = bool(mon.call("isKDependent", g.isKDependent))
    mon.check("k-dependent", kdep == (case["qd"] in ("MIN_SR_FLEX", "Jumper", "FlexJumper")), f"{name}: isKDependent is {kdep}")
    mon.check("size", g.size == n, f"{name}: size {g.size}")
    d = mon.get("dTau", g, "dTau")
    mon.shape("shape", d, (n,), f"{name} dTau")
    T = tmat(n)
    mats = {}
    for k in (None, 1, 2, 3, n, n + 1, 7):
        Q = mon.call("getQDelta", g.getQDelta, k, nontrivial=False); mon.shape("shape", Q, (n, n), f"{name} k={k}")
        S = mon.call("getSDelta", g.getSDelta, k, nontrivial=False); mon.shape("shape", S, (n, n), f"{name} k={k}")
        mats[k] = (Q, S)
        mon.distinct.add(core.digest((case["qd"], k, Q)))
        ref = np.vstack([Q[:1], np.diff(Q, axis=0)])
        mon.close("N2N", S, ref, 4 * U * (np.abs(T) @ np.abs(Q)), f"{name} k={k}: SDelta is the difference of rows of QDelta")
        mon.close("N2N", c.Tinv @ S, Q, 4 * n * U * (np.tri(n) @ (np.abs(T) @ np.abs(Q))), f"{name} k={k}: Tinv SDelta is QDelta")
        mon.same("getQDelta", mon.call("getQDelta", g.getQDelta, k=k, copy=False, nontrivial=False), Q, f"{name} k={k}: without copy")
        if not kdep:
            mon.same("k-independent", Q, mats[None][0], f"{name}: depends on k={k}")
    mon.same("default-k", mats[None][0], mats[1][0], f"{name}: default k is the first iteration")
    for form, dt, k in itertools.product(("Z2N", "N2N"), (False, True), (None, 1, 2, n + 1)):
        M = mats[k][form == "N2N"]
        calls = [lambda: g.genCoeffs(k=k, form=form, dTau=dt), lambda: g.genCoeffs(k, form, dt)]
        if k is None:
            calls += [lambda: g.genCoeffs(form=form, dTau=dt), lambda: genQDeltaCoeffs(case["qd"], form=form, dTau=dt, qGen=c)]
        for fn in calls:
            options(mon, name, mon.call("genCoeffs", fn, nontrivial=False), M, d, dt, f"form {form}, dTau {dt}, k {k}")
    for form, dt, ks in itertools.product(("Z2N", "N2N"), (False, True), ([1], [1, 2, 3], [3, 1, 2], (2, 2), np.array([1, 3]), range(1, 4), [n + 1, 1])):
        M = np.array([mats[int(k)][form == "N2N"] for k in ks])
        out = mon.call("genCoeffs", g.genCoeffs, k=ks, form=form, dTau=dt, nontrivial=False)
        options(mon, name, out, M, d, dt, f"form {form}, dTau {dt}, k {ks!r}")
        mon.oracles["k-list"] += 1
    for bad in ("z2n", None, "", "S"):
        mon.rejects("genCoeffs", ValueError, g.genCoeffs, form=bad)
        mon.rejects("genQDeltaCoeffs", ValueError, genQDeltaCoeffs, case["qd"], form=bad, qGen=c)
    mon.sample(name)


def options(mon, name, out, M, d, dt, what):
    if dt:
        if mon.check("QDelta-options", isinstance(out, (tuple, list)) and len(out) == 2, f"{name}: matrix and dTau expected for {what}"):
            mon.same("QDelta-options", out[0], M, f"{name}: matrix for {what}")
            mon.same("QDelta-options", out[1], d, f"{name}: dTau for {what}")
    else:
        if mon.check("QDelta-options", isinstance(out, np.ndarray), f"{name}: array expected for {what}, got {type(out).__name__}"):
            mon.same("QDelta-options", out, M, f"{name}: matrix for {what}")
