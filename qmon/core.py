"""Event recorder, workload runner, verdicts, evidence."""
import os
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
import sys
sys.dont_write_bytecode = True
import collections, hashlib, importlib, json, multiprocessing as mp, resource, signal, time, traceback, warnings
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QMON_REPO", "/repo")


def use_repo():
    """Import qmat from the working tree under test (and from nowhere else)."""
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import qmat
    f = os.path.realpath(qmat.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"qmat imported from {f}, not from {REPO}")
    return qmat


class Rejected(Exception):
    """A call raised; carries the exception (only seen by code using Monitor.attempt)."""


MEMORY = 3500 * 2**20                            # address space of one worker


class CaseTimeout(BaseException):
    """A case did not come back."""


class CaseAbort(Exception):
    """The case cannot continue (a violation has been recorded)."""


def digest(x, h=None):
    """64-bit digest of call arguments (arrays by content)."""
    top = h is None
    if top:
        h = hashlib.blake2b(digest_size=8)
    if isinstance(x, np.ndarray):
        h.update(b"A"); h.update(str((x.dtype.str, x.shape)).encode()); h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, dict):
        h.update(b"D")
        for k in sorted(x, key=str):
            digest(str(k), h); digest(x[k], h)
    elif isinstance(x, (list, tuple)):
        h.update(b"L")
        for v in x:
            digest(v, h)
    elif isinstance(x, (str, int, float, complex, bool, type(None), np.generic)):
        h.update(repr(x).encode())
    else:
        h.update(type(x).__name__.encode())
        for a in ("nodes", "Q", "points"):
            try:
                v = getattr(x, a)
            except Exception:
                continue
            if isinstance(v, np.ndarray):
                digest(v, h)
    if top:
        return int.from_bytes(h.digest(), "little")


def short(x, n=300):
    if isinstance(x, np.ndarray):
        s = np.array2string(x, precision=17, threshold=40, max_line_width=10**6).replace("\n", "")
    else:
        s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


class Monitor:
    """Observes calls at the public boundary and records the verdicts of the oracles."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.events = collections.Counter()      # observed calls per operation
        self.oracles = collections.Counter()     # oracle decisions per oracle
        self.distinct = set()                    # digests of distinct non-trivial calls
        self.violations = []                     # dicts
        self.notes = collections.Counter()
        self.maxratio = {}                       # worst observed error / bound per oracle
        self.samples = []
        self.case = None
        self.layout = 0                          # memory layout / type of array arguments (equal values), one per case
        self.narrow = False                      # narrow and unsigned integer types as well

    @property
    def quick(self):
        return self.tier == "quick"

    # -- events ---------------------------------------------------------------
    def call(self, op, fn, *args, nontrivial=True, **kwargs):
        """Observe a call that must succeed: any exception is a violation (and ends the case)."""
        self.events[op] += 1
        if nontrivial:
            self.distinct.add(digest((op, args, kwargs) if args else (op, self.case, kwargs)))
        back = []
        if self.layout:
            args = tuple(self.relayout(a, back) for a in args)
            kwargs = {k: self.relayout(a, back) for k, a in kwargs.items()}
        try:
            out = fn(*args, **kwargs)
            for new, old in back:                # a modified argument stays visible to the caller's oracles
                if not identical(new, old):
                    old[...] = new
            return out
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
            self.fail("accepts", f"{op} raised {type(e).__name__}: {e} [{where}]",
                      args=short(args), kwargs=short(kwargs))
            raise CaseAbort()

    def call_unless(self, exempt, op, fn, *args, **kwargs):
        """Like call, but when `exempt` holds (overflowing problems) a numerical error may be reported: returns None then."""
        if exempt:
            self.events[op] += 1
            try:
                return fn(*args, **kwargs)
            except (ValueError, ArithmeticError, np.linalg.LinAlgError):
                self.notes["overflowing problems refused by the code"] += 1
                return None
        return self.call(op, fn, *args, **kwargs)

    def relayout(self, a, back):
        """Same values in another memory layout (strided, reversed, Fortran ordered or read-only)."""
        if type(a) is not np.ndarray or a.ndim == 0 or not a.flags.writeable or a.dtype.hasobject:
            return a
        if self.layout == 1:                     # every second entry of a larger array
            big = np.empty(tuple(2 * n for n in a.shape), dtype=a.dtype)
            big[...] = 97 if a.dtype.kind in "iu" else np.nan if a.dtype.kind in "fc" else 0
            new = big[tuple(slice(None, None, 2) for _ in a.shape)]
            new[...] = a
        elif self.layout == 2:                   # negative strides
            new = np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])[tuple(slice(None, None, -1) for _ in a.shape)]
        elif self.layout == 3:
            new = np.array(a, order="F")
        elif self.layout == 5:                   # other byte order, or a fitting integer type for integer values
            t = a.dtype.newbyteorder() if a.dtype.kind in "iufc" else a.dtype
            if a.size and a.dtype.kind in "fi" and (np.abs(a) < 2**31).all() and (a == np.round(a)).all() and not np.signbit(a[a == 0]).any():
                t = [t, np.int64, np.int32, np.int16 if np.abs(a).max() < 2**15 and self.narrow else np.int64, np.uint64 if a.min() >= 0 and self.narrow else np.int64][a.size % 5]
            new = a.astype(t)
        else:
            new = a.copy()
            new.flags.writeable = False
        self.notes[f"array arguments given as {('', 'strided', 'reversed', 'Fortran', 'read-only', 'other type')[self.layout]} arrays"] += 1
        if self.layout != 4:
            back.append((new, a))
        return new

    def get(self, op, obj, attr):
        """Observe an attribute read that must succeed."""
        return self.call(op, lambda o: getattr(o, attr), obj)

    def rejects(self, op, exc, fn, *args, **kwargs):
        """Observe a call that must be rejected with one of the given exceptions."""
        self.events[op] += 1
        self.distinct.add(digest((op, "reject", args, kwargs)))
        self.oracles["rejects"] += 1
        try:
            out = fn(*args, **kwargs)
        except exc:
            return True
        except Exception as e:
            self._fail("rejects", f"{op} raised {type(e).__name__} ({e}) instead of {exc}", None,
                       dict(args=short(args), kwargs=short(kwargs)))
            return False
        self._fail("rejects", f"{op} accepted an invalid call", None,
                   dict(args=short(args), kwargs=short(kwargs), result=short(out)))
        return False

    # -- oracles --------------------------------------------------------------
    def check(self, oracle, ok, msg="", key=None, **witness):
        self.oracles[oracle] += 1
        if not bool(ok):
            self._fail(oracle, msg, key, {k: short(v) for k, v in witness.items()})
        return bool(ok)

    def fail(self, oracle, msg, key=None, **witness):
        self.oracles[oracle] += 1
        self._fail(oracle, msg, key, {k: short(v) for k, v in witness.items()})

    def _fail(self, oracle, msg, key, witness):
        if len(self.violations) < 400 or key is not None:
            self.violations.append(dict(oracle=oracle, msg=str(msg)[:600], key=key, witness=witness, case=self.case, seed=self.seed))
        else:
            self.notes["violations beyond the first 400 not stored"] += 1

    def shape(self, oracle, x, shape, msg=""):
        ok = isinstance(x, np.ndarray) and x.shape == tuple(shape)
        if not self.check(oracle, ok, f"{msg}: expected array of shape {tuple(shape)}, got "
                          f"{type(x).__name__} {getattr(x, 'shape', '')}"):
            raise CaseAbort()
        return True

    def close(self, oracle, got, ref, tol, msg="", key=None, **witness):
        """Entrywise |got - ref| <= tol (tol: scalar or array); non-finite results never pass."""
        got = np.asarray(got); ref = np.asarray(ref)
        self.oracles[oracle] += 1
        if got.shape != ref.shape:
            self._fail(oracle, f"{msg}: shape {got.shape} instead of {ref.shape}", key, {k: short(v) for k, v in witness.items()})
            return False
        if got.size == 0:
            return True
        try:
            with np.errstate(all="ignore"):
                err = np.abs(got - ref)
        except TypeError:
            self._fail(oracle, f"{msg}: non-numeric result {short(got)}", key, {})
            return False
        tol = np.broadcast_to(np.asarray(tol, dtype=float), err.shape)
        with np.errstate(all="ignore"):
            ratio = np.where(err == 0, 0.0, err / np.maximum(tol, 1e-320))
        ratio = np.where(np.isnan(ratio), np.inf, ratio)
        worst = float(ratio.max())
        if worst > self.maxratio.get(oracle, -1.0):
            self.maxratio[oracle] = worst
        if worst > 1:
            idx = np.unravel_index(int(np.argmax(ratio)), ratio.shape)
            w = {k: short(v) for k, v in witness.items()}
            w.update(index=str(tuple(int(i) for i in idx)), got=short(got[idx]), expected=short(ref[idx]), bound=short(tol[idx]))
            self._fail(oracle, f"{msg}: entry {tuple(int(i) for i in idx)} is {got[idx]!r}, expected {ref[idx]!r} "
                       f"(bound {tol[idx]:.2e})", key, w)
            return False
        return True

    def same(self, oracle, a, b, msg="", key=None, **witness):
        """Equal arrays (or nested lists/tuples of arrays): bitwise for data that is only handed on, up to rounding where the
        two sides are computed separately (a BLAS call may round differently from one buffer to the next)."""
        self.oracles[oracle] += 1
        if not (identical(a, b) if oracle in STRICT else equal(a, b)):
            self._fail(oracle, f"{msg}: {short(a)} != {short(b)}", key, {k: short(v) for k, v in witness.items()})
            return False
        return True

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(str(s)[:300])

    # -- merging --------------------------------------------------------------
    def export(self):
        return dict(events=self.events, oracles=self.oracles, distinct=self.distinct, violations=self.violations,
                    notes=self.notes, maxratio=self.maxratio, samples=self.samples)

    def merge(self, d):
        self.events.update(d["events"]); self.oracles.update(d["oracles"]); self.distinct |= d["distinct"]
        self.violations += d["violations"]; self.notes.update(d["notes"])
        for k, v in d["maxratio"].items():
            self.maxratio[k] = max(v, self.maxratio.get(k, -1.0))
        for s in d["samples"]:
            self.sample(s)


STRICT = {"arguments", "unmodified", "base-unmodified", "points-kept", "class-tables", "inner-block", "unit-rows", "first-row", "zero-columns",
          "transfer", "Picard", "Exact", "diagonal", "lower", "zero-dTau", "no-padding", "LU-first-column"}


def equal(a, b, rtol=1e-10):
    """Identical up to rtol times the largest entry of b."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y, rtol) for x, y in zip(a, b))
    if identical(a, b):
        return True
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys() and all(equal(a[k], b[k], rtol) for k in a)
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype.kind not in "fc" or b.dtype.kind not in "fc":
        return False
    m = np.isfinite(b)
    return bool((np.isfinite(a) == m).all() and identical(a[~m], b[~m]) and np.abs(a[m] - b[m]).max(initial=0) <= rtol * np.abs(b[m]).max(initial=0))


def identical(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(identical(a[k], b[k]) for k in a)
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fc" or b.dtype.kind in "fc":
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


# ---------------------------------------------------------------------------------------------------------------------
def rng_of(*parts):
    """Deterministic numpy generator from any sequence of printable parts."""
    h = hashlib.blake2b(repr(parts).encode(), digest_size=16)
    return np.random.default_rng(int.from_bytes(h.digest(), "little"))


def load_check(pid):
    return importlib.import_module(f"qmon.checks.{pid.lower()}")


def run_case(mod, mon, case):
    mon.case = case
    mon.layout = int(rng_of("layout", mon.seed, case).integers(-4, 6)) if getattr(mod, "LAYOUTS", True) else 0
    mon.layout = max(mon.layout, 0)
    mon.narrow = getattr(mod, "NARROW", False)
    # identical warning behaviour in every case (deprecation warnings are events of their own oracle)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore") if getattr(mod, "SILENT", True) else np.errstate():
                mod.run_case(mon, case)
    except CaseAbort:
        pass
    except MemoryError:
        mon.notes["cases skipped: the code needs more memory than allowed"] += 1
    except CaseTimeout as e:
        mon.fail("returns", str(e))
    except (KeyboardInterrupt, OSError):
        raise
    except Exception as e:
        # The oracle could not even interpret what the call returned
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:])
        mon.fail("interpretable", f"observed result cannot be interpreted: {type(e).__name__}: {e} [{where}]")
    finally:
        mon.case = None


_W = {}

def _winit(pid, tier, seed):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    use_repo()
    _W.update(pid=pid, tier=tier, seed=seed, mod=load_check(pid))

def _wrun(cases):
    mon = Monitor(_W["pid"], _W["tier"], _W["seed"])
    for seed, c in cases:
        mon.seed = seed
        guarded(_W["mod"], mon, c)
    return mon.export()


def guarded(mod, mon, case):
    """One case under a watchdog: cases take seconds, one that does not come back in minutes never will."""
    limit = 200 if mon.quick else 2400

    def expired(*_):
        raise CaseTimeout(f"case did not finish in {limit} s")
    old = signal.signal(signal.SIGALRM, expired)
    signal.alarm(limit)
    try:
        run_case(mod, mon, case)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def known_findings(pid):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        data = json.load(f)
    return {k["key"]: k for k in data["findings"] if k["property"] == pid and k["status"] == "known"}


def run_property(pid, tier, seed, procs=None, replay=None, budget=None):
    t0 = time.time()
    use_repo()
    mod = load_check(pid)
    mon = Monitor(pid, tier, seed)
    if replay is not None:
        cases = [(seed, replay)]
    else:
        # several rounds of the random workload, each with its own seed
        rounds = int(os.environ.get("QMON_ROUNDS") or getattr(mod, "ROUNDS", {}).get(tier, 1))
        seeds = [seed] + [int(rng_of("round", seed, r).integers(10**6, 10**9)) for r in range(1, rounds)]
        cases = [(s, c) for s in seeds for c in mod.cases(tier, s)]
    procs = procs or min(8, os.cpu_count() or 1)
    inconclusive = []
    if replay is not None or procs == 1 or getattr(mod, "SERIAL", False):
        for s, c in cases:
            mon.seed = s
            run_case(mod, mon, c)
        mon.seed = seed
    else:
        cost = getattr(mod, "cost", lambda c: 1.0)
        order = sorted(range(len(cases)), key=lambda i: -cost(cases[i][1]))
        # heavy cases first, in chunks of similar cost
        total = sum(cost(c) for _, c in cases)
        limit = total / (procs * 12)
        chunks, cur, acc = [], [], 0.0
        for i in order:
            cur.append(cases[i]); acc += cost(cases[i][1])
            if acc >= limit or len(cur) >= 200:
                chunks.append(cur); cur, acc = [], 0.0
        if cur:
            chunks.append(cur)
        deadline = t0 + (budget or (760 if tier == "quick" else 6 * 3600))
        ctx = mp.get_context("fork")
        pool = ctx.Pool(procs, _winit, (pid, tier, seed), maxtasksperchild=None)
        try:
            it = pool.imap_unordered(_wrun, chunks)
            for i in range(len(chunks)):
                try:
                    mon.merge(it.next(timeout=max(1.0, deadline - time.time())))
                except mp.TimeoutError:
                    # the verdict is about what was explored; the floors below decide whether that is enough
                    mon.notes[f"stopped at the time limit after {i} of {len(chunks)} parts of the workload"] += 1
                    if i < len(chunks) / 2:
                        inconclusive.append(f"only {i} of {len(chunks)} parts of the workload finished in time")
                    break
        finally:
            pool.terminate(); pool.join()
    if replay is None and hasattr(mod, "finish"):
        run_case(type("M", (), dict(run_case=staticmethod(lambda m, c: mod.finish(m)))), mon, {"kind": "finish"})
    # -- verdict ----------------------------------------------------------
    known = known_findings(pid)
    seen, viol = {}, []
    for v in mon.violations:
        if v["key"] is not None and v["key"] in known:
            seen.setdefault(v["key"], v)
        else:
            viol.append(v)
    if replay is None:
        for op, least in getattr(mod, "REQUIRED", {}).items():
            n = mon.events.get(op, 0) + mon.oracles.get(op, 0)
            if n < least:
                inconclusive.append(f"monitor '{op}' reached {n} times (needs {least})")
    wall = time.time() - t0
    out = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=int(sum(mon.events.values())),
            distinct_nontrivial=len(mon.distinct),
            rule=getattr(mod, "RULE", ""),
            samples=mon.samples or [json.dumps(c, default=str)[:300] for _, c in cases[:3]],
            cases=len(cases),
            observed_calls=dict(sorted(mon.events.items())),
            oracle_decisions=dict(sorted(mon.oracles.items())),
            worst_error_over_bound={k: float(f"{v:.3g}") if np.isfinite(v) else str(v) for k, v in sorted(mon.maxratio.items())},
            notes=dict(mon.notes),
            known_findings_observed=sorted(seen),
            inconclusive=inconclusive,
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 2),
        violations=len(viol),
    )
    if replay is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(out, f, indent=1, default=str)
    return out, viol, seen, known, inconclusive
