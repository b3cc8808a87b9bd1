"""C29: the Timer reports the elapsed wall time and never disturbs what it measures."""
import contextlib, io, re, time
import numpy as np
from qmon import core

RULE = ("One case = a sequence of timers (plain, context manager, nested, reused, raising bodies) around measured pauses; non-trivial = reported wall time enclosed by an independent clock read just "
        "inside and just outside, and printed lines compared with the reported values.")
ROUNDS = dict(quick=3)
REQUIRED = {"enclosed": 200, "enclosed-tightly": 20, "printed": 200, "transparent": 40}
ASSUMPTIONS = ["the system clock is not set during the run (3 ms slack; without slack if several measurements of a sequence are outside)"]


class Boom(Exception):
    pass


def cases(tier, seed):
    for i in range(24 if tier == "quick" else 200):
        yield dict(kind="sequence", i=i, n=16)
        yield dict(kind="interleaved", i=i, n=6)


def interleaved(mon, case, rng):
    """Several timers running at once: any order of starts and stops, in one thread or in two."""
    import threading
    from qmat.utils import Timer
    clock, slack = time.time, 3e-3
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        n = int(rng.integers(2, 5))
        ts = [Timer(f"job {i}", scale=float([1, 1.9, 2, 0.5, 0.3, 10.0 ** rng.uniform(-3, 3)][int(rng.integers(6))])) for i in range(n)]
        todo = []
        for i in range(n):
            todo.append(i); todo.append(i)
        order = [int(v) for v in rng.permutation(todo)]
        if case["i"] % 3 == 0:
            order = list(range(n)) + list(range(n))[::-1]           # properly nested
        b0, b1, running, seen = {}, {}, set(), {}
        for i in order:
            time.sleep(float([0, 1e-3, 4e-3, 8e-3][int(rng.integers(4))]))
            if i not in running:
                b0[i] = clock(); mon.call("start", ts[i].start); b1[i] = clock()
                running.add(i)
            else:
                e0 = clock(); mon.call("stop", ts[i].stop); e1 = clock()
                seen[i] = (e0 - b1[i], e1 - b0[i])
        for i, (lo, hi) in seen.items():                            # also after the others have stopped
            w = ts[i].tWall * ts[i].scale
            mon.check("enclosed", lo - slack <= w <= hi + slack, f"timer {i} of {n} started and stopped in the order {order}: reported {w}, elapsed between {lo} and {hi}")
        # context managers inside each other
        with Timer("outer") as o:
            a0 = clock(); time.sleep(2e-3)
            inner = Timer("inner")
            with inner:
                c0 = clock(); time.sleep(float(rng.choice([1e-3, 6e-3]))); c1 = clock()
            time.sleep(5e-3); a1 = clock()
        a2 = clock()
        mon.check("enclosed", c1 - c0 - slack <= inner.tWall <= a1 - a0 + slack, f"inner timer reported {inner.tWall}, elapsed {c1 - c0}")
        if o is not None:
            mon.check("enclosed", a1 - a0 - slack <= o.tWall <= a2 - a0 + slack, f"outer timer reported {o.tWall}, elapsed {a1 - a0}")
        else:
            outer = Timer("outer")
            with outer:
                a0 = clock(); time.sleep(2e-3)
                with Timer("inner"):
                    time.sleep(1e-3)
                time.sleep(6e-3); a1 = clock()
            a2 = clock()
            mon.check("enclosed", a1 - a0 - slack <= outer.tWall <= a2 - a0 + slack, f"outer timer reported {outer.tWall}, elapsed {a1 - a0}")
        # two threads
        res = {}

        def work(i, pause):
            t = Timer(f"thread {i}")
            s0 = clock(); t.start(); s1 = clock(); time.sleep(pause); s2 = clock(); t.stop(); s3 = clock()
            res[i] = (s2 - s1, t.tWall, s3 - s0)
        ths = [threading.Thread(target=work, args=(i, 3e-3 + 8e-3 * i)) for i in range(2)]
        ths[1].start(); time.sleep(2e-3); ths[0].start()
        [t.join() for t in ths]
    for i, (lo, w, hi) in res.items():
        mon.check("enclosed", lo - slack <= w <= hi + slack, f"timer in thread {i}: reported {w}, elapsed between {lo} and {hi}")
    mon.distinct.add(core.digest((case["i"], order)))


ODD = ["", "{0}", "case {M=3}", "{", "100 % %s %d", "%(name)s", 7, 0, ("a", 1), "Δt ✓", "x" * 300, "a\tb", " padded ", "work\\n", b"bytes"]


def run_case(mon, case):
    from qmat.utils import Timer
    if case["kind"] == "interleaved":
        return [interleaved(mon, case, core.rng_of("C29", mon.seed, case, j)) for j in range(case["n"])] and None
    rng = core.rng_of("C29", mon.seed, case)
    clock = time.time
    tight = [0, 0, ""]

    def body(pause):
        if pause is not None:
            time.sleep(pause)

    def once(depth=0):
        name = f"work {rng.integers(100)}" if rng.random() < 0.6 else ODD[int(rng.integers(len(ODD)))]
        scale = [None, 1, 2, 0.5, 1000, 7, 1.9, 2.5, 1e-3, float(10.0 ** rng.uniform(-4, 4)), np.float64(3.3), np.int64(3), -1, -2.5][int(rng.integers(14))]
        descr = [None, "tWall", "time per step", "{0} {t} %s", "", "Δt [µs]", "tStart"][int(rng.integers(7))]
        kw = {}
        if scale is not None:
            kw["scale"] = scale
        if descr is not None:
            kw["descr"] = descr
        t = mon.call("Timer", Timer, name, **kw)
        s = scale or 1
        for use in range(int(rng.integers(1, 3))):
            pause = [None, None, 0, 1e-4, 2e-3, 1e-2, float(10.0 ** rng.uniform(-5, -2))][int(rng.integers(7))]
            how = int(rng.integers(3))
            out = io.StringIO()
            reuse = 3e-3
            with contextlib.redirect_stdout(out):
                t0 = clock()
                if how == 0:
                    mon.call("start", t.start)
                    t1 = clock(); body(pause); t2 = clock()
                    mon.call("stop", t.stop)
                elif how == 1:
                    mon.events["with"] += 1
                    with t:
                        t1 = clock(); body(pause); t2 = clock()
                else:
                    mon.events["with"] += 1
                    caught = None
                    boom = [Boom, ValueError, KeyError, StopIteration, KeyboardInterrupt, SystemExit, GeneratorExit, AssertionError, ZeroDivisionError][int(rng.integers(9))]("why", 3)
                    try:
                        with t:
                            t1 = clock(); body(pause); t2 = clock()
                            raise boom
                    except BaseException as e:
                        caught = e
                t3 = clock()
            if how == 2:
                mon.check("transparent", caught is boom and caught.args == ("why", 3) and caught.__cause__ is None and caught.__context__ is None, f"the context manager turned {boom!r} into {caught!r}")
            w = mon.get("tWall", t, "tWall")
            mon.check("enclosed", t2 - t1 - reuse <= w * s <= t3 - t0 + reuse, f"reported {w}, elapsed between {t2 - t1} and {t3 - t0}, scale {s}")
            tight[0] += 1
            if not t2 - t1 - 5e-6 <= w * s <= t3 - t0 + 5e-6:       # no slack: a change of the system clock can only explain single ones
                tight[1] += 1; tight[2] = f"reported {w} for an elapsed time between {t2 - t1} and {t3 - t0}, scale {s}"
            lines = out.getvalue().splitlines()
            mon.check("printed", len(lines) == 2 and str(name) in lines[0] and ("tWall" if descr is None else descr) in lines[1], f"printed {lines} for {name!r}, {descr!r}")
            if len(lines) == 2:
                num = re.findall(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?", lines[1].replace("tWall" if descr is None else descr, "", 1))
                mon.check("printed", len(num) == 1 and abs(float(num[0]) - w) <= 0.006 * abs(w) + 1e-12, f"printed {lines[1]!r} for {w}")
            mon.distinct.add(core.digest((case["i"], name, s, how, use, pause)))
        if depth < 2 and rng.random() < 0.3:
            outer = Timer("outer")
            with contextlib.redirect_stdout(io.StringIO()):
                with outer:
                    pass
            once(depth + 1)
    for _ in range(case["n"]):
        once()
    mon.check("enclosed-tightly", tight[1] < 3, f"{tight[1]} of {tight[0]} measurements outside the enclosing clock readings, the last one {tight[2]}")
    mon.sample(str(case))
