#!/usr/bin/env python3
"""Writes known_findings.json (run by hand, never by a check): repaired defects, and recorded ones with the exact key of the failing input."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from qmon import core

FIXED = """
C09 6298b27 Collocation moved inner nodes close to a bound onto the bound
C09 5390ae5 Collocation hCoeffs / rightIsNode used 1 instead of tRight
C13 4004035 padding a Runge-Kutta scheme did not pad the embedded weights
C03 95b3abd interpolation weights wrong for unsorted points
C20 1451ecf genQDeltaCoeffs extended the list of names given by the caller
C22 1451ecf genQDeltaCoeffs extended the list of names given by the caller
C22 51909c9 genCoeffs returned the internally cached matrix
C22 9b62476 Runge-Kutta generators exposed the class tables (overwriting one changed all)
C16 4d989cc BEPAR and TRAPAR ignored the left bound
C16 b914bf2 SOE ignored the left bound
C16 196dbdf left bound not taken from a base generator on another interval
C21 196dbdf left bound not taken from a base generator on another interval
C16 b3bb0aa integer nodes truncated the coefficients
C03 c811393 overflow / underflow in the barycentric weights
C03 ca1732c CHEBFUN weights failed for a single point
C07 6ccd4fa sparse interpolation reused the line of another stencil (its tolerance adjusted in 94490ff)
C07 c64b229 periodic sparse interpolation wrong for grids not starting at zero or far away
C07 21be3db sparse interpolation with integer points
C01 4e1e73b Radau / Lobatto nodes failed for more than about 1000 nodes
C11 d9fcde1 RK53 table entry 3/16
C27 4e219bb rejected registration left names registered
C26 1a989d0 extrapolation matrix: integer overflow and squared condition number
C04 487ccf2 integration over intervals given as unsigned or narrow integers (differences wrapped around)
C07 99e77e5 sparse interpolation with unsigned or narrow integer points (differences wrapped around)
C26 58e814b numericalOrder computed in the precision of the numbers of steps (half, single) given
C09 ff4337d collocation over intervals whose bounds are narrow or unsigned integers (length wrapped around)
C03 ad1bb14 interpolation far from the points lost all digits or returned non-finite entries (sum of the barycentric formula cancels)
C07 ad1bb14 sparse interpolation far from the points lost all digits or returned non-finite entries
C27 5405d1c tables whose embedded weights have another shape than the weights were registered
C17 c8ff87b LU approximation lost the permutation of a pivoted factorization
"""
KNOWN = [
    ("C10", "embedded:ARK548L2SAESDIRK:5:-1.77e-08", "embedded weights of ARK548L2SAESDIRK miss the declared embedded order by a coefficient error of 1.8e-8 (truncated published digits; the class docstring warns about it)"),
    ("C11", "embedded-conditions:ARK548L2SAESDIRK:5((),(),(),()):1.3e-04;5((),(),((),)):6.6e-05;5((),((),())):4.4e-05;5((),(((),),)):2.2e-05;5:3.3e-05;5:-1.1e-07;5:-5.3e-08;5:-3.5e-08;5:-1.8e-08",
     "embedded weights of ARK548L2SAESDIRK reach order 4, declared 5 (the tests pin the declared value)"),
    ("C11", "tree-conditions:ARK343ERK:4((),(),()):4.7e-02;4((),((),)):7.3e-02;4(((),()),):3.8e-02", "ARK343ERK declares order 4, its table (Ascher, Ruuth, Spiteri) has nonlinear order 3 (4 only for linear problems; the tests pin 4)"),
    ("C11", "tree-conditions:RK32:3((),()):1.7e-01", "RK32 declares order 3, attained only for linear problems (the code has a TODO, the tests pin 3)"),
    ("C16", "SOE dTau is constant", "SOE.dTau returns the same constant for every node, whereas leap-frog needs it in the first step only (the tests pin the value)"),
    ("C28", "ssp:RK32-SSP:0", "the scheme registered under the alias RK32-SSP is not strong stability preserving (radius of absolute monotonicity 0)"),
]


def main():
    out = []
    for line in FIXED.strip().splitlines():
        pid, commit, what = line.split(" ", 2)
        out.append(dict(property=pid, key="", status="fixed", what=f"fixed: property={pid} {commit} {what}", commit=commit))
    for pid, key, what in KNOWN:
        out.append(dict(property=pid, key=key, status="known", what=what, commit=""))
    core.use_repo()
    json.dump(dict(findings=out), open(os.path.join(HERE, "known_findings.json"), "w"))
    r, viol, *_ = core.run_property("C25", "quick", 1)
    for key in sorted({v["key"] for v in viol if v["oracle"] == "never-overstated"}):
        out.append(dict(property="C25", key=key, status="known", commit="",
                        what=f"getOrderSDC predicts a bonus order that is not attained asymptotically: {key.split(':', 1)[1]} (predicted > attained; the tests pin the predicted value)"))
    with open(os.path.join(HERE, "known_findings.json"), "w") as f:
        json.dump(dict(findings=out), f, indent=1); f.write("\n")
    print(len(out), "entries")


if __name__ == "__main__":
    main()
