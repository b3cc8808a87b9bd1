"""C24: SDC solver, its monitors and its error helper."""
import numpy as np
from qmon import core
from qmon.checks.c23 import solve, supplied, NT, QT

RULE = ("One case = one pair of base / approximation matrices with random problems (lambda, u0, tEnd, nSteps, nSweeps, weights, monitors); non-trivial = every step value and every monitored "
        "residual and error compared with an independent extended precision sweep, entrywise running error bound.")
ROUNDS = dict(quick=2)
REQUIRED = {"values": 3000, "residuals": 800, "errors": 800, "monitor-neutral": 800, "underlying": 200, "error": 1500, "supplied": 800, "rejects": 300, "arguments": 3000}
ASSUMPTIONS = ["steps whose accumulated error bound exceeds the size of the values are not compared", "coefficients themselves are decided by C09-C20"]
U = 2.0**-53
LD, CLD = np.longdouble, np.clongdouble


def cases(tier, seed):
    rng = core.rng_of("C24", tier, seed)
    reps = 12 if tier == "quick" else 60
    names = ["BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE", "LU", "LU2", "GS", "PIC", "Exact", "MIN-SR-NS", "MIN-SR-FLEX", "MIN-SR-S", "DNODES", "QPar", "Jumper", "LDU"]
    for n in range(1, 7 if tier == "quick" else 13):
        for nt in NT:
            for qt in QT:
                if n == 1 and qt in ("LOBATTO", "RADAU-LEFT"):
                    continue
                pick = [names[int(i)] for i in rng.permutation(len(names))[:4 if tier == "quick" else 12]]
                for name in pick:
                    yield dict(kind="coll", cfg=(n, nt, qt), name=name, reps=reps)
    for i in range(300 if tier == "quick" else 4000):
        yield dict(kind="random", i=i, reps=reps)


def sweeps(z, lamt, u, Q, QDs, w, dz, eu):
    """One step in extended precision; returns new value, its bound, and node values / bounds per sweep."""
    M = len(Q)
    aQ = np.abs(Q)
    az = float(abs(z))
    un = np.full(M, u, dtype=CLD); e = np.full(M, eu)
    hist = [(un, e)]
    c = 4 * (M + 6) * U
    for QD in QDs:
        aD = np.abs(QD)
        P = np.eye(M) - z * QD.astype(LD)
        with np.errstate(all="ignore"):
            aP = np.abs(np.linalg.inv(P.astype(complex)))
        fP = np.eye(M) + az * aD              # entries of P are differences of these
        b = u + z * ((Q.astype(LD) - QD.astype(LD)) @ un)
        au = np.abs(un).astype(float)
        new = solve(P, b)
        an = np.abs(new).astype(float)
        eb = eu + az * (np.abs(Q - QD) @ e) + c * (float(abs(u)) + az * ((aQ + aD) @ (au + e)))
        # solve: componentwise part, plus the norm-wise part of a pivoted (or inverted) system
        e = aP @ eb + 2 * c * (aP @ (fP @ an) + aP @ np.full(M, fP.max() * an.max()) + aP @ (fP @ (aP @ np.abs(b).astype(float))))
        # values may fall below the smallest normal number
        e = e * (1 + 1e-6) + aP @ np.full(M, 5e-322 * (1 + az * (aQ + aD).sum()))
        un = new
        hist.append((un, e))
    if w is None:
        return un[-1], e[-1], hist
    au = np.abs(un).astype(float)
    aw = np.abs(w)
    return u + z * (w.astype(LD) @ un), eu + az * (aw @ e) + c * (float(abs(u)) + az * (aw @ (au + e))) + 5e-322 * (1 + az * aw.sum()), hist


def run_case(mon, case):
    from qmat.utils.sdc import solveDahlquistSDC, errorDahlquistSDC
    from qmat import Q_GENERATORS, genQDeltaCoeffs
    rng = core.rng_of("C24", mon.seed, case)
    gen = None
    if case["kind"] == "coll":
        gen = Q_GENERATORS["Collocation"](*case["cfg"])
        Q, b = np.array(gen.Q), np.array(gen.weights)
    else:
        M = int(rng.integers(1, 7)) if case["i"] % 10 else int(rng.choice([7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 48]))
        Q = rng.normal(size=(M, M)) * 0.6 * min(1.0, 2 / M**0.5)
        if rng.random() < 0.3:
            Q = np.tril(Q)
        b = rng.normal(size=M)
    M = len(Q)
    sc = 1.0
    if case["kind"] == "random":                       # coefficients of any magnitude
        sc = [1.0, 1.0, 10.0 ** rng.uniform(-12, 0), 10.0 ** rng.uniform(0, 9)][case["i"] % 4]
        Q, b = Q * sc, b * sc
    for rep in range(case["reps"] if M < 7 or gen is not None else 4):
        nSw = int(rng.integers(0, 7))
        ns = int([1, 2, 3, 5, 12, 40][int(rng.integers(6))])
        many = rng.random() < 0.04 and M < 7
        if many:
            ns, nSw = int(rng.choice([64, 65, 99, 100, 101, 127, 128, 129, 150, 200, 256, 257])), min(nSw, 3)
        T = [1, 1.0, float(10.0**rng.uniform(-3, 2)), np.pi, float(10.0**rng.uniform(-60, 60))][int(rng.integers(5))]
        if rep % 5 == 3:
            T = -T                                     # backward in time
        kind = int(rng.integers(6))
        z0 = [1j * rng.normal(), rng.normal(), rng.normal() + 1j * rng.normal(), -10.0**rng.uniform(0, 3), 0.0, 3j * rng.normal() - 1][kind]
        lam = z0 * (1.0 if many else ns) / T / (sc if rep % 2 else 1.0)
        if kind == 1 and rng.random() < 0.3:
            lam = int(rng.integers(-3, 4))
        u0 = [1, 1.0, -2.5, complex(rng.normal(), rng.normal()), 0.0, 3e5 + 1j, 1e-17 + 1e-16j, 1e-150, 1e120j][int(rng.integers(9))]
        per = rng.random() < 0.5
        if case["kind"] == "coll":
            if per and nSw:
                QD = np.array(genQDeltaCoeffs(case["name"], nSweeps=nSw, qGen=gen))
            else:
                per = False
                QD = np.array(genQDeltaCoeffs(case["name"], qGen=gen))
        else:
            QD = rng.normal(size=(nSw, M, M) if per else (M, M)) * 0.6 * min(1.0, 2 / M**0.5)
            how = ["full", "lower", "strict", "diagonal", "nearly-strict", "nearly-diagonal", "nearly-lower", "upper", "zero", "same-as-Q", "equal", "nearly-equal", "zero-diagonal-entry"][int(rng.integers(13))]
            small = 10.0 ** rng.uniform(-13, -7)
            eye = np.eye(M)
            if how in ("lower", "nearly-lower"):
                QD = np.tril(QD) + (small * QD if how != "lower" else 0)
            elif how in ("strict", "nearly-strict"):
                QD = np.tril(QD, -1) + (small * QD if how != "strict" else 0)
            elif how in ("diagonal", "nearly-diagonal"):
                QD = QD * eye + (small * QD if how != "diagonal" else 0)
            elif how == "upper":
                QD = np.triu(QD)
            elif how == "zero":
                QD = 0 * QD
            elif how == "same-as-Q":
                QD = np.broadcast_to(Q / sc, QD.shape).copy()
            elif how in ("equal", "nearly-equal") and per and nSw:
                QD = np.broadcast_to(QD[0], QD.shape) + (small * QD if how != "equal" else 0)
            elif how == "zero-diagonal-entry":
                QD = np.tril(QD); QD[..., M // 2, M // 2] = 0
            QD = QD * sc
        QDs = list(QD) if per else [QD] * nSw
        if not all(np.isfinite(q).all() for q in QDs):
            continue
        zd = complex(lam) * T / ns
        with np.errstate(all="ignore"):
            if not all(np.linalg.cond(np.eye(M) - zd * q) < 1e10 for q in QDs[:nSw]):
                mon.notes["ill-conditioned sweeps skipped"] += 1
                continue
        w = None if rng.random() < 0.5 else (b.copy() if rng.random() < 0.7 else [rng.normal(size=M), np.zeros(M), np.ones(M), Q[-1].copy(), np.eye(M)[-1]][int(rng.integers(5))])
        args = dict(lam=lam, u0=u0, tEnd=T, nSteps=ns, nSweeps=nSw, Q=Q.copy(), QDelta=[q.copy() for q in QDs] if per and rng.random() < 0.3 and nSw else QD.copy())
        if w is not None:
            args["weights"] = w.copy()
        sel = [None, ["residuals"], ["errors"], ["residuals", "errors"], ("errors", "residuals"), []][int(rng.integers(6))]
        what = f"M={M} {case.get('cfg', '')} {case.get('name', '')} lam={lam} u0={u0} tEnd={T} nSteps={ns} nSweeps={nSw} per-sweep={per} weights={w is not None} monitors={sel}"
        # reference
        dt = LD(T) / LD(ns)
        z = CLD(lam) * dt
        cur, e = CLD(u0), 0.0
        nodes = Q.astype(LD).sum(axis=1)
        enode = (M + 2) * U * np.abs(Q).sum(axis=1)
        steps, over = [], False
        for i in range(ns):
            nxt, en, hist = sweeps(z, None, cur, Q, QDs, w, None, e)
            if not np.isfinite(en) or not np.isfinite(complex(nxt)) or any(not he.max() <= 1e-3 * (1e-6 + float(abs(hu).max())) or not float(abs(hu).max()) < 1e250 for hu, he in hist[1:]):
                mon.notes["steps beyond the useful error bound"] += 1
                over = True                        # nothing is known about the rest: it may overflow
                break
            steps.append((cur, e, nxt, en, hist))
            cur, e = nxt, en
        t = np.linspace(0, T, ns + 1)
        exT = CLD(u0) * np.exp(CLD(lam) * t.astype(LD))
        overx = not (np.abs(np.exp(CLD(lam) * t.astype(LD))) < 1e280).all() or not (np.abs(exT) < 1e280).all()
        u = mon.call_unless(over, "solveDahlquistSDC", solveDahlquistSDC, **args)
        if u is None:
            continue
        mon.shape("shape", u, (ns + 1,), what)
        mons = None
        if sel is not None:
            r = mon.call_unless(over or overx, "solveDahlquistSDC(monitors)", solveDahlquistSDC, **args, monitors=sel)
            if r is None:
                continue
            if sel:
                if not mon.check("shape", isinstance(r, tuple) and len(r) == 2 and set(r[1]) == set(sel), f"{what}: returned monitors {getattr(r[1], 'keys', lambda: r[1])() if isinstance(r, tuple) else type(r)}"):
                    continue
                u2, mons = r
                for key in sel:
                    mon.shape("shape", mons[key], (nSw + 1, ns, M), f"{what} {key}")
            else:
                u2 = r
                mon.check("shape", isinstance(u2, np.ndarray), f"{what}: no monitors, but returned {type(u2)}")
            m = len(steps) + 1
            with np.errstate(all="ignore"):
                mon.close("monitor-neutral", u2[:m], u[:m], np.array([0.0] + [2 * q[3] + 1e-300 for q in steps]), f"{what}: monitors change the solution")
                mon.check("monitor-neutral", (np.isfinite(u2[m:]) == np.isfinite(u[m:])).all() or over, f"{what}: monitors change the solution")
        mon.check("arguments", core.identical(args["Q"], Q) and core.identical(np.array(args["QDelta"]), np.array(QDs) if isinstance(args["QDelta"], list) else QD)
                  and (w is None or core.identical(args["weights"], w)), f"{what}: arguments modified")
        mon.check("initial", u[0] == u0, f"{what}: starts with {u[0]}")
        for i, (cur, e, nxt, en, hist) in enumerate(steps):
            mon.close("values", u[i + 1:i + 2], np.array([nxt], dtype=CLD).astype(complex), en + 1e-300, f"{what}: step {i + 1}")
            if mons:
                tn = (LD(i) * dt + dt * nodes)
                for k, (hu, he) in enumerate(hist):
                    if "residuals" in mons:
                        ref = cur + z * (Q.astype(LD) @ hu) - hu
                        au = np.abs(hu).astype(float) + he
                        tol = e + float(abs(z)) * (np.abs(Q) @ he) + he + 4 * (M + 6) * U * (float(abs(cur)) + au + float(abs(z)) * (np.abs(Q) @ au))
                        mon.close("residuals", mons["residuals"][k, i], ref.astype(complex), tol + 1e-300, f"{what}: residuals[{k}, {i}]")
                    if "errors" in mons:
                        ex = CLD(u0) * np.exp(CLD(lam) * tn)
                        rel = 8 * U * (2 + float(abs(lam)) * (np.abs(tn).astype(float) + abs(T))) + 2 * float(abs(z)) * enode
                        tol = he + np.abs(ex).astype(float) * rel + 4 * U * np.abs(hu).astype(float)
                        with np.errstate(all="ignore"):
                            if (rel < 0.01).all() and (np.abs(np.exp(CLD(lam) * tn)) < 1e300).all() and np.isfinite(ex.astype(complex)).all():
                                mon.close("errors", mons["errors"][k, i], (hu - ex).astype(complex), tol + 1e-300, f"{what}: errors[{k}, {i}]")
        # error helper
        eargs = {k: v for k, v in args.items()}
        for which in range(2):
            v = u if which == 0 else supplied(rng, ns, u, exT)
            arg = v.copy()
            err = mon.call_unless(over or overx, "errorDahlquistSDC", errorDahlquistSDC, **eargs, **({"uNum": arg} if which else {}))
            if which:
                mon.same("arguments", arg, v, f"{what}: supplied solution modified")
            if err is None:
                continue
            dev = np.abs(v - exT).astype(float)
            bnd = (8 * U * (2 + float(abs(lam)) * np.abs(t)) * np.abs(exT).astype(float) + 4 * U * np.abs(v)).max()
            if np.isfinite(dev).all() and np.isfinite(bnd) and (np.abs(np.exp(CLD(lam) * t.astype(LD))) < 1e300).all():
                mon.close("supplied" if which else "error", np.asarray(err), dev.max(), 4 * bnd + 1e-300, f"{what}: error helper")
        # the exact approximation: one sweep gives the underlying method
        if gen is not None and rep % 3 == 0:
            kappa = np.linalg.cond(np.eye(M) - complex(z) * Q)
            if kappa < 1e6 and float(abs(z)) * max(1.0, np.abs(Q).max()) < 1e3 and not over:
                a = mon.call("solveDahlquistSDC", solveDahlquistSDC, lam, u0, T, ns, 1 + rep % 2, Q, Q, weights=b)
                ref = mon.call("solveDahlquist", gen.solveDahlquist, lam, u0, T, ns)
                with np.errstate(all="ignore"):
                    g = max(1.0, float(np.abs(ref[1] / u0)) if u0 else 1.0)
                    bnd = np.abs(ref).max() * kappa * (1 + float(abs(z))) * ns * 200 * (M + 2) * U * g
                if np.isfinite(bnd) and np.isfinite(ref).all():
                    mon.close("underlying", a, ref, bnd + 1e-300, f"{what}: exact approximation against the underlying method")
        # invalid calls
        if rep % 4 == 0:
            bad = dict(args)
            ch = int(rng.integers(4))
            if ch == 0:
                bad["QDelta"] = np.zeros((M + 1, M + 1))
            elif ch == 1:
                bad["QDelta"] = np.zeros((nSw + 1, M, M))
            elif ch == 2:
                bad["QDelta"] = np.zeros((M, M + 1))
            else:
                bad["monitors"] = [["residual"], ["errors", "stuff"], ["Residuals"]][int(rng.integers(3))]
            mon.rejects("solveDahlquistSDC", (AssertionError, ValueError, KeyError), solveDahlquistSDC, **bad)
    mon.sample(str(case))
