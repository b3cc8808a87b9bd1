"""C15: names, aliases, registries."""
import json, os, subprocess, sys
import numpy as np
from qmon import core

with open(os.path.join(core.VERIF, "ref", "rk_tables.json")) as f:
    RK = json.load(f)
QDELTA = {'PIC': ['Picard'], 'Exact': ['EXACT'], 'LU': [], 'LU2': [], 'QPar': ['Qpar', 'Qdiag'], 'GS': ['GaussSeidel'], 'LDU': [], 'MIN': ['MIN-Speck'],
          'MIN3': ['Magic_Numbers'], 'MIN_VDHS': ['VDHS'], 'MIN_SR_NS': ['MIN-SR-NS', 'MIN_GT'], 'MIN_SR_S': ['MIN-SR-S'], 'MIN_SR_FLEX': ['MIN-SR-FLEX'],
          'Jumper': ['JUMPER', 'FB'], 'FlexJumper': ['FLEX-JUMPER', 'FB2'], 'DNODES': ['DNODES-1'], 'DNODES2': ['DNODES-2'], 'DNODES3': ['DNODES-3'],
          'DNODES4': ['DNODES-4'], 'DNODES5': ['DNODES-5'], 'BE': ['IE'], 'FE': ['EE'], 'TRAP': ['CN'], 'BEPAR': ['IEpar'], 'TRAPAR': [],
          'SOE': ['LeapFrog', 'LF']}
MODULES = {**{k: "algebraic" for k in ('PIC', 'Exact', 'LU', 'LU2', 'QPar', 'GS', 'LDU')}, **{k: "timestepping" for k in ('BE', 'FE', 'TRAP', 'BEPAR', 'TRAPAR', 'SOE')}}
Q = {**{k: v["aliases"] for k, v in RK.items()}, "Collocation": ["coll"]}
DEFAULT = dict(nNodes=4, nodeType="LEGENDRE", quadType="RADAU-RIGHT")
RULE = ("One case = one name or alias (or a batch of unknown names); non-trivial = registry entry resolved and coefficients compared across all interfaces.")
ROUNDS = dict(quick=6)
REQUIRED = {"interfaces": 200, "unknown": 500, "resolves": 90, "registry": 3, "import": 20}


def cases(tier, seed):
    for name, al in Q.items():
        for a in [name] + al:
            yield dict(kind="Q", name=name, alias=a)
    for name, al in QDELTA.items():
        for a in [name] + al:
            yield dict(kind="D", name=name, alias=a)
    yield dict(kind="registry")
    for k in range(10 if tier == "quick" else 100):
        yield dict(kind="unknown", k=k)
    for k in range(5 if tier == "quick" else 60):
        yield dict(kind="import", k=k)


def run_case(mon, case):
    import qmat, importlib
    from qmat.utils import getClasses
    from qmat.qcoeff.butcher import RK_SCHEMES
    kind = case["kind"]
    if kind == "registry":
        for reg, exp, what in ((qmat.Q_GENERATORS, Q, "Q_GENERATORS"), (RK_SCHEMES, {k: v for k, v in Q.items() if k != "Collocation"}, "RK_SCHEMES"),
                               (qmat.QDELTA_GENERATORS, QDELTA, "QDELTA_GENERATORS")):
            names = [n for k, v in exp.items() for n in [k] + v]
            mon.check("registry", set(names) <= set(reg), f"{what} misses {sorted(set(names) - set(reg))}")
            cls = mon.call("getClasses", getClasses, reg)
            vals = list(cls.values())
            mon.check("registry", len(set(map(id, vals))) == len(vals) and {id(v) for v in vals} == {id(v) for v in reg.values()},
                      f"getClasses({what}) does not list every class once")
            mon.check("registry", set(exp) <= set(cls), f"getClasses({what}) misses {sorted(set(exp) - set(cls))}")
            for n, c in reg.items():
                mon.check("registry", n == c.__name__ or n in (getattr(c, "aliases", None) or []), f"{what}[{n!r}] is {c.__name__}, which does not have that name")
        import qmat.qcoeff, qmat.qdelta
        mon.check("same-registry", qmat.qcoeff.Q_GENERATORS is qmat.Q_GENERATORS and qmat.qdelta.QDELTA_GENERATORS is qmat.QDELTA_GENERATORS, "registries differ between packages")
        return
    if kind == "unknown":
        return unknown(mon, case)
    if kind == "import":
        return imports(mon, case)
    name, alias = case["name"], case["alias"]
    if kind == "Q":
        reg = qmat.Q_GENERATORS
        if not mon.check("resolves", alias in reg and name in reg and reg[alias] is reg[name] and reg[alias].__name__ == name,
                         f"Q_GENERATORS[{alias!r}] is {reg.get(alias)!r}, not {name}"):
            return
        cls = reg[alias]
        if name != "Collocation":
            mon.check("resolves", RK_SCHEMES.get(alias) is cls, f"RK_SCHEMES[{alias!r}] is {RK_SCHEMES.get(alias)!r}")
        mod = importlib.import_module("qmat.qcoeff." + ("collocation" if name == "Collocation" else "butcher"))
        mon.check("resolves", getattr(mod, name, None) is cls, f"{mod.__name__}.{name} is not the registered class")
        par = DEFAULT if name == "Collocation" else {}
        a = mon.call("genQCoeffs", qmat.genQCoeffs, alias, **par)
        objs = [mon.call("class", cls, **par), mon.call("class", getattr(mod, name), **par), mon.call("class", reg[name].getInstance)]
        for g in objs:
            mon.same("interfaces", list(a), list(mon.call("genCoeffs", g.genCoeffs)), f"{alias}: function and object")
            mon.same("interfaces", list(a), [g.nodes, g.weights, g.Q], f"{alias}: function and properties")
        mon.same("interfaces", list(a), list(mon.call("genQCoeffs", qmat.genQCoeffs, qType=name, **par)), f"{alias}: alias and name")
        mon.same("interfaces", list(mon.call("genQCoeffs", qmat.genQCoeffs, alias, "N2N", **par)), list(objs[0].genCoeffs("N2N")), f"{alias}: node-to-node")
    else:
        reg = qmat.QDELTA_GENERATORS
        if not mon.check("resolves", alias in reg and name in reg and reg[alias] is reg[name] and reg[alias].__name__ == name,
                         f"QDELTA_GENERATORS[{alias!r}] is {reg.get(alias)!r}, not {name}"):
            return
        cls = reg[alias]
        mod = importlib.import_module("qmat.qdelta." + MODULES.get(name, "diag"))
        mon.check("resolves", getattr(mod, name, None) is cls, f"{mod.__name__}.{name} is not the registered class")
        for cfg in (DEFAULT, dict(nNodes=3, nodeType="LEGENDRE", quadType="RADAU-RIGHT"), dict(nNodes=2, nodeType="LEGENDRE", quadType="RADAU-RIGHT")):
            if name == "MIN_VDHS" and cfg["nNodes"] == 2:      # not tabulated
                continue
            c = qmat.Q_GENERATORS["Collocation"](**cfg)
            a = mon.call("genQDeltaCoeffs", qmat.genQDeltaCoeffs, alias, dTau=True, qGen=c)
            for how in (lambda: cls(qGen=c), lambda: reg[name](qGen=c), lambda: getattr(mod, name)(Q=c.Q, nodes=c.nodes, tLeft=c.tLeft, **cfg)):
                g = mon.call("class", how)
                mon.same("interfaces", list(a), list(mon.call("genCoeffs", g.genCoeffs, dTau=True)), f"{alias}: function and object, {cfg}")
                mon.same("interfaces", a[0], mon.call("getQDelta", g.getQDelta), f"{alias}: function and getQDelta, {cfg}")
            mon.same("interfaces", list(a), list(mon.call("genQDeltaCoeffs", qmat.genQDeltaCoeffs, name, dTau=True, qGen=c)), f"{alias}: alias and name")
            mon.same("interfaces", mon.call("genQDeltaCoeffs", qmat.genQDeltaCoeffs, [alias, name], 3, qGen=c),
                     mon.call("genQDeltaCoeffs", qmat.genQDeltaCoeffs, name, 3, qGen=c), f"{alias}: alias and name in lists")
    mon.sample(dict(case))


def unknown(mon, case):
    import qmat
    rng = core.rng_of("C15", mon.seed, case)
    good = [n for d in (Q, QDELTA) for k, v in d.items() for n in [k] + v]
    bad = ["", " ", "foo", "None", "Q", "QGenerator", "RK", "QDeltaGenerator", "TimeStepping", "FromTable", "aliases", "__class__", "DNODES6", "DNODES-0", "RK5"]
    for n in rng.permutation(good)[:25]:
        n = str(n)
        i = int(rng.integers(len(n)))
        bad += [n.lower(), n.upper(), n + " ", " " + n, n[:i] + n[i + 1:], n[:i] + "x" + n[i:], n.replace("-", "_"), n.replace("_", "-"), n[::-1]]
    c = qmat.Q_GENERATORS["Collocation"](**DEFAULT)
    qn, dn = {n for k, v in Q.items() for n in [k] + v}, {n for k, v in QDELTA.items() for n in [k] + v}
    for b in bad:
        if b not in qn:
            mon.rejects("genQCoeffs", ValueError, qmat.genQCoeffs, b); mon.oracles["unknown"] += 1
        if b not in dn:
            mon.rejects("genQDeltaCoeffs", ValueError, qmat.genQDeltaCoeffs, b, qGen=c); mon.oracles["unknown"] += 1
            mon.rejects("genQDeltaCoeffs", ValueError, qmat.genQDeltaCoeffs, b, nSweeps=2, qGen=c)
            mon.rejects("genQDeltaCoeffs", ValueError, qmat.genQDeltaCoeffs, ["BE", b], qGen=c)
            mon.rejects("genQDeltaCoeffs", ValueError, qmat.genQDeltaCoeffs, [b, "BE"], 4, qGen=c)
    for b in (None, 1, 2.5, ("BE",), {"BE": 1}):
        mon.rejects("genQDeltaCoeffs", ValueError, qmat.genQDeltaCoeffs, b, qGen=c)
    for b in (None, 1, 2.5, ("BE",)):
        mon.rejects("genQCoeffs", ValueError, qmat.genQCoeffs, b)


IMPORTS = """
import sys, json, importlib
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
order = %r
errors = []
for m in order:
    try:
        importlib.import_module(m)
    except BaseException as e:
        errors.append(f"{m}: {type(e).__name__}: {e}")
import qmat
from qmat.qcoeff.butcher import RK_SCHEMES
json.dump(dict(errors=errors, file=qmat.__file__, regs=[{n: c.__name__ for n, c in r.items()} for r in (qmat.Q_GENERATORS, RK_SCHEMES, qmat.QDELTA_GENERATORS)]), sys.stdout)
"""


def imports(mon, case):
    """Registries of a new interpreter, whatever module is imported first."""
    import qmat
    from qmat.qcoeff.butcher import RK_SCHEMES
    root = os.path.dirname(os.path.dirname(os.path.abspath(qmat.__file__)))
    rng = core.rng_of("C15", mon.seed, case)
    mods = []
    for d, subs, files in os.walk(os.path.join(root, "qmat")):
        subs[:] = [s for s in subs if s not in ("scripts", "__pycache__")]
        for f in files:
            if f.endswith(".py"):
                mods.append(os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, ".").removesuffix(".__init__"))
    mods.sort()
    order = [str(m) for m in rng.permutation(mods)]
    first = mods[int(rng.integers(len(mods)))]
    order.remove(first); order.insert(0, first)
    flags = [[], ["-O"], ["-Wdefault"]][int(rng.integers(3))]
    p = subprocess.run([sys.executable, "-B", *flags, "-c", IMPORTS % (root, order[:int(rng.integers(1, len(order) + 1))])], capture_output=True, text=True, timeout=200,
                       env=dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 10**6)))), cwd="/")
    what = f"import of {order[:4]}... first (flags {flags})"
    mon.events["import"] += 1
    mon.distinct.add(core.digest((order, flags)))
    if not mon.check("import", p.returncode == 0, f"{what} failed: {p.stderr[-300:]}"):
        return
    out = json.loads(p.stdout)
    mon.check("import", not out["errors"], f"{what}: {out['errors']}")
    for reg, got, lab in zip((qmat.Q_GENERATORS, RK_SCHEMES, qmat.QDELTA_GENERATORS), out["regs"], ("Q", "RK", "QDelta")):
        ref = {n: c.__name__ for n, c in reg.items()}
        mon.check("import", got == ref, f"{what}: {lab} registry misses {sorted(set(ref) - set(got))}, has more {sorted(set(got) - set(ref))}, differs for {[n for n in ref if n in got and got[n] != ref[n]]}")
