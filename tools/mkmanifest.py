#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("runtime monitor: orthogonal-polynomial oracle on observed nodes", "every node count up to 130 (quick) or 400 (thorough) plus sampled counts up to thousands, all 24 distributions; backward error of each node decided in extended precision; trusts numpy longdouble"),
 "C02": ("runtime monitor: analytic recurrence oracle", "all distributions and many lengths exactly; evaluation on random coefficients and shapes in extended precision"),
 "C03": ("runtime monitor: exact rational Lagrange oracle with conditioning bounds", "randomised points (10 distributions x scales x offsets x orders), every weight option; the bound follows from the conditioning of the problem"),
 "C04": ("runtime monitor: exact rational integration oracle", "randomised points and intervals, all three internal rules"),
 "C05": ("runtime monitor: exact rational differentiation oracle", "randomised points, both orders, all options"),
 "C06": ("runtime monitor: reference multiset model and metamorphic comparison", "random multiplicities, orders, shapes; invalid calls must be rejected"),
 "C07": ("runtime monitor: nearest-stencil oracle in exact arithmetic", "random grids, orders, periods; ties between equidistant stencils accept every nearest choice"),
 "C08": ("runtime monitor: exactness invariants of the observed rule", "every size up to several hundred and sampled larger ones; moments in extended precision"),
 "C09": ("runtime monitor: exact rational collocation oracle", "all configurations up to 12 (30) nodes, Legendre up to 128 (257), random intervals of many scales, offsets and scalar types"),
 "C10": ("runtime monitor: Taylor coefficients of the observed stability function", "every registered generator and alias, collocation up to 30 nodes; coefficients in exact or extended arithmetic"),
 "C11": ("runtime monitor: rooted-tree order conditions and reference tables", "every scheme; reference values transcribed once from the pinned tables after checking them against the order conditions"),
 "C12": ("runtime monitor: bicoloured-tree order conditions", "every shipped pair, every coupling condition of the declared order"),
 "C13": ("runtime monitor: structural and step-equivalence oracle", "every scheme and padding, nonlinear random problems integrated with padded and unpadded tables"),
 "C14": ("runtime monitor: metamorphic relation between observed forms", "every generator, form and option combination, random parameters"),
 "C15": ("runtime monitor: name table oracle and cross-interface comparison", "every documented name; random unknown names must be rejected"),
 "C16": ("runtime monitor: independent scheme marching", "random node vectors (non-uniform, integer, shifted), left bounds and right-hand sides"),
 "C17": ("runtime monitor: definitional oracle with elimination error bounds", "collocation, Runge-Kutta, random and large product matrices (up to 129/257), each way of passing them"),
 "C18": ("runtime monitor: formula oracle, reference tables and spectral radius", "random nodes and iterations; every listed and many unlisted configurations"),
 "C19": ("runtime monitor: nilpotency of observed sweep matrices", "every configuration up to the size at which the published solver converges, FLEX also after n sweeps"),
 "C20": ("runtime monitor: sweep-expansion model against observed stacks", "random name lists, counts, forms, iteration lists; argument preservation"),
 "C21": ("runtime monitor: metamorphic comparison of parameter passing", "every approximation with every kind of base generator and way of passing parameters"),
 "C22": ("runtime monitor: history / thread-schedule checker against pristine-process replays", "random call histories with overwritten results, eight threads with injected yields, fresh processes, process-wide state compared before and after"),
 "C23": ("runtime monitor: extended precision stability function with running error bound", "random problems for every generator, every returned value decided"),
 "C24": ("runtime monitor: independent extended precision sweeps", "random matrices, problems, sweeps, monitors; every value and every monitored residual and error decided"),
 "C25": ("runtime monitor: Taylor coefficients of the observed SDC step by contour sampling", "all configurations up to 6 (10) nodes and all sweep counts around the attained order; 97 recorded findings are listed by configuration"),
 "C26": ("runtime monitor: exact and extended precision oracles", "random data, matrices, nodes, times, degrees, and scalar types of the arguments"),
 "C27": ("runtime monitor: registry model checked after every registration of random histories", "valid and invalid classes of all three kinds in random order in pristine processes"),
 "C28": ("runtime monitor: stability invariants of observed steps", "dense sample of the imaginary axis and left half-plane for every documented scheme and collocation size"),
 "C29": ("runtime monitor: enclosing clock readings", "random uses, scales, names and bodies; each report enclosed between clock readings"),
}

def main():
    checks = []
    for pid, (tech, note) in T.items():
        checks.append(dict(property=pid, quick_cmd=f"/opt/venv/bin/python -B run.py {pid}", thorough_cmd=f"/opt/venv/bin/python -B run.py {pid} --tier thorough",
                           evidence_file=f"evidence/{pid}.json", technique=tech, level="exploration", level_note=note + "; only what was executed is decided"))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python -B -c \"import numpy, scipy, json; json.load(open('known_findings.json'))\"", checks=checks, not_applicable=[],
             notes="qmat is pure Python without own native code, threads or I/O: no compiler sanitizer applies. The checks observe the public boundary of the code in /repo's working tree; no hooks are needed in /repo.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")

main()
