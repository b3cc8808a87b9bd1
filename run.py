#!/opt/venv/bin/python
"""usage: run.py PROPERTY [--tier quick|thorough] [--seed N] [--procs N] | run.py --replay FILE"""
import argparse, json, os, sys
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from qmon import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--procs", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    case, pid, tier, seed = None, a.property, a.tier, a.seed
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        pid, tier, seed, case = r["property"], r["tier"], r["seed"], r["case"]
    out, viol, seen, known, inconclusive = core.run_property(pid, tier, seed, procs=a.procs, replay=case)
    cov = out["coverage"]
    print(f"{pid} [{tier}, seed {seed}]: {cov['evaluations']} observed calls ({cov['distinct_nontrivial']} distinct), "
          f"{sum(cov['oracle_decisions'].values())} oracle decisions, {out['wall_s']} s")
    if a.v:
        print(json.dumps(cov, indent=1, default=str))
    for k in sorted(seen):
        print(f"KNOWN-FINDING: property={pid} {known[k]['what']}")
    for k in sorted(set(known) - set(seen)):
        if case is None:
            print(f"NOTE: listed finding not observed in this run: {k}")
    if viol:
        d = os.path.join(core.VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        shown = {}
        for v in viol:
            shown.setdefault((v["oracle"], (v["case"] or {}).get("kind") if isinstance(v["case"], dict) else None), v)
        for i, v in enumerate(list(shown.values())[:8]):
            path = os.path.join(d, f"{pid}-{i}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, tier=tier, seed=v["seed"], case=v["case"], oracle=v["oracle"], message=v["msg"],
                               witness=v["witness"]), f, indent=1, default=str)
            print(f"  {v['oracle']}: {v['msg']}  case={json.dumps(v['case'], default=str)[:300]}")
            print(f"VIOLATION property={pid} replay={path}")
        print(f"{len(viol)} violations in total")
        return 1
    if inconclusive:
        print("INCONCLUSIVE: " + "; ".join(inconclusive))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
