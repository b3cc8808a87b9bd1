#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(qtext.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    P.append(d)

L, N = "qmat/lagrange.py", "qmat/nodes.py"
QC, CO, BU = "qmat/qcoeff/__init__.py", "qmat/qcoeff/collocation.py", "qmat/qcoeff/butcher.py"
QD, AL, TS, DI, MC = ("qmat/qdelta/__init__.py", "qmat/qdelta/algebraic.py", "qmat/qdelta/timestepping.py",
                      "qmat/qdelta/diag.py", "qmat/qdelta/mincoeffs.py")
UT, NU, SD = "qmat/utils/__init__.py", "qmat/utils/num.py", "qmat/utils/sdc.py"

prop("C01", "Quadrature nodes are those of the requested distribution, for every count",
     """For each of the six node distributions, four quadrature types and every admissible count (up to thousands), exactly that
     many strictly increasing nodes in [-1, 1] are produced, and -1 / +1 are nodes, bit-exactly, precisely when the quadrature type
     prescribes them.  Equidistant nodes are uniformly spaced; all others are, to rounding, the zeros of the degree-n polynomial
     orthogonal for the distribution's weight function (modified only so as to vanish at the prescribed bounds).  Unknown
     distribution or quadrature names, and counts too small for the type, are rejected with a value error.""",
     ["inputs", "configurations"],
     "all (distribution, quadrature type, number of nodes) triples, and invalid names and counts",
     """Tests look at 2..8 nodes and mostly at spacing, symmetry and bounds; nothing checks the values against the defining
     polynomial, nor any large count.""",
     [N], [("Jacobi-matrix eigenvalues with modified last rows", N + ":NodesGenerator.getNodes"),
           ("Radau/Lobatto modification", N + ":NodesGenerator.getTridiagCoefficients")],
     ["NodesGenerator.getNodes"])

prop("C02", "Three-term recurrences are those of the distribution's orthogonal polynomials",
     """The recurrence coefficients returned for a distribution and any length are those of the monic polynomials orthogonal for
     its weight (Legendre; Chebyshev of 1st to 4th kind; first beta equal to the total weight).  Evaluating the recurrence at any
     scalar or array of points, for any coefficient arrays, returns the two highest monic polynomials with the shape of the
     points and leaves its inputs untouched.  The coefficients of the Jacobi matrix used for n nodes differ from the recurrence
     only in the entries needed to make the prescribed bounds exact eigenvalues.""",
     ["inputs", "configurations"],
     "all distributions, all lengths, all evaluation points and coefficient arrays",
     "Tests use the recurrence only indirectly through a handful of small node sets.",
     [N], [("analytic coefficients", N + ":getOrthogPolyCoefficients"), ("recurrence evaluation", N + ":evalOrthogPoly"),
           ("modified coefficients", N + ":getTridiagCoefficients")],
     ["getOrthogPolyCoefficients", "evalOrthogPoly", "getTridiagCoefficients"])

prop("C03", "Interpolation matrices evaluate the Lagrange interpolant through the points",
     """For any distinct points (any number, order, scale and offset) and any evaluation times, entry (i, j) of the interpolation
     matrix is the j-th Lagrange basis polynomial at time i, up to rounding amplified only by the conditioning of the problem;
     rows sum to one and a time that equals a point yields that point's value exactly.  No entry is ever non-finite when the exact value is
     representable.  The result does not depend on the weight algorithm, weight scaling or scaling reference selected
     (within the range where the non-default product formula is documented to be usable).""",
     ["inputs", "configurations"],
     "all point sets, all evaluation times, all weight options",
     """Tests interpolate random polynomials on 2..20 node grids in [-1,1]-like intervals; other scales, offsets, orderings,
     large counts, extrapolation and near-coincident times are never exercised.""",
     [L], [("barycentric weights with fallback", L + ":LagrangeApproximation.__init__"),
           ("second barycentric formula", L + ":getInterpolationMatrix")],
     ["LagrangeApproximation.getInterpolationMatrix", "LagrangeApproximation.weights"])

prop("C04", "Integration matrices integrate the Lagrange interpolant exactly",
     """For any distinct points and any list of intervals (inside, across or outside the points, reversed or empty), entry (i, j) of
     the integration matrix is the integral of the j-th Lagrange basis polynomial over interval i, up to conditioning-amplified
     rounding.  This holds identically for each of the three internal quadrature rules and for odd and even numbers of points; an
     unknown rule is rejected.  Consequently matrices are additive over adjacent intervals and change sign when an interval is reversed.""",
     ["inputs", "configurations"],
     "all point sets, interval lists, internal quadrature rules and weight options",
     "Tests use a few node sets and [(-1, node)]-like intervals; odd/even counts per rule, offsets and outside intervals are unsampled.",
     [L], [("Fejer / Gauss-Legendre integration of the interpolant", L + ":getIntegrationMatrix"),
           ("Fejer rule", L + ":computeFejerRule")],
     ["LagrangeApproximation.getIntegrationMatrix"])

prop("C05", "Derivative matrices differentiate the Lagrange interpolant exactly",
     """For any distinct points, the first and second order derivative matrices contain the first and second derivatives of each
     Lagrange basis polynomial at each point, up to conditioning-amplified rounding, so their rows sum to zero and they are exact
     on every polynomial of degree below the number of points.  Requesting one order or all of them gives the same
     matrices, for every weight option; any other order is rejected, and the deprecated name behaves identically (with a warning).""",
     ["inputs", "configurations"],
     "all point sets, derivative orders and weight options",
     "Tests differentiate a few polynomials on small fixed grids; scale, ordering, size and option combinations are unsampled.",
     [L], [("barycentric differentiation formulas", L + ":getDerivativeMatrix")],
     ["LagrangeApproximation.getDerivativeMatrix", "LagrangeApproximation.getDerivationMatrix"])

prop("C06", "Duplicated points and call-style evaluation use the documented values",
     """With duplicated points, every matrix has one column per original point: the first (or last, as selected) occurrence of each value
     carries the column of the distinct-point problem, all other occurrences are exactly zero, and asking to ignore duplicates returns the
     distinct-point matrix.  Calling the approximation as a function returns, for scalars and arrays of any shape, exactly the
     matrix-vector product with values in that shape, using call-time values in preference to stored ones.  Unknown strategies, values of the wrong shape and missing
     values are rejected.""",
     ["inputs", "configurations"],
     "all multisets of points (any order and multiplicity), both strategies, all matrix kinds, all evaluation shapes",
     "Tests duplicate one or two points in a few patterns; arbitrary multiplicities, orders and shapes are unsampled.",
     [L], [("column scattering", L + ":_handleDuplicates, _setupDuplicates"), ("functional evaluation", L + ":__call__")],
     ["LagrangeApproximation(...)", "LagrangeApproximation.__call__"])

prop("C07", "Sparse interpolation uses the nearest points and is exact for its order",
     """Row i of the sparse interpolation matrix has entries only on the p input points nearest to output point i (p the requested order),
     equal to their Lagrange basis values there, so polynomials of degree below p are reproduced exactly, whatever the scale and
     offset of the grids.  With a positive period, distances and values wrap: the row depends only on the points modulo
     the period, for output points any number of periods away and for grids starting anywhere.  An order larger than the number of input points is rejected.""",
     ["inputs", "configurations"],
     "all input/output grids, orders and periods",
     "Tests use equispaced or a few small grids near the origin with unit-like scale.",
     [L], [("nearest stencil selection and line reuse", L + ":getSparseInterpolationMatrix")],
     ["getSparseInterpolationMatrix"])

prop("C08", "The Fejer rule is the interpolatory rule on Chebyshev points for every size",
     """For every n >= 1 the Fejer rule returns n strictly increasing Chebyshev points of the first kind, symmetric about zero, and positive symmetric
     weights that sum to two and integrate exactly every polynomial of degree below n.""",
     ["inputs"], "all rule sizes n >= 1 (odd, even, prime, power of two; up to thousands)",
     "Tests touch the rule only for sizes up to about twenty.",
     [L], [("DFT construction", L + ":computeFejerRule")], ["computeFejerRule"])

prop("C09", "Collocation coefficients are the exact integrals on any time interval",
     """For every node count, distribution, quadrature type and interval [tLeft, tRight], the nodes are the standard nodes mapped
     affinely (bounds included exactly when prescribed, and only then); Q, the weights and the node-to-node matrix hold the integrals of the nodes' Lagrange
     polynomials from tLeft to each node, over the whole interval, and between consecutive nodes.  The extrapolation coefficients are the
     Lagrange values at the right end of the interval, and the right end is reported as a node exactly when it is one.""",
     ["inputs", "configurations"],
     "all node counts, distributions, quadrature types and time intervals (any scale, offset)",
     "Tests use 2..4 nodes on the unit interval only; tLeft / tRight are never varied.",
     [CO, QC, L], [("affine node map and integration matrices", CO + ":Collocation.__init__"), ("hCoeffs, S", CO)],
     ["Collocation.{nodes,weights,Q,S,hCoeffs,rightIsNode}", "genQCoeffs('Collocation')"])

prop("C10", "Every generator attains its declared order on linear problems",
     """For every coefficient generator and every alias, the number declared as its order is attained by one step on a linear problem: the stability function agrees with exp(z) through that power of z.  For collocation this holds for every node count, distribution and
     quadrature type, and the weights integrate polynomials up to that degree; embedded weights reach the declared embedded order in the same sense.""",
     ["inputs", "configurations"],
     "all registered generators; all collocation configurations with any node count",
     """Tests estimate the order by regression for a single problem and 2..4 nodes; larger node counts are never checked.""",
     [QC, CO, BU], [("order property", CO + ":order"), ("order per scheme", BU)],
     ["Q_GENERATORS[*]().order", "orderEmbedded"])

prop("C11", "Runge-Kutta tables hold the published coefficients and order conditions",
     """Every named Runge-Kutta scheme returns the coefficients of the method it is named after, with stage times equal to the row sums of
     its matrix, and satisfies the complete nonlinear (rooted-tree) order conditions up to its declared order; the embedded weights do so up to the
     declared embedded order.  Explicit schemes are strictly lower triangular, diagonally implicit ones lower triangular, singly diagonal ones with
     a constant implicit diagonal.""",
     ["configurations"],
     "all registered Runge-Kutta schemes, all their order conditions",
     """Tests run only the scalar linear problem, which never uses the stage times and sees one condition per order.""",
     [BU], [("tables", BU)], ["RK_SCHEMES[*]"])

prop("C12", "Additive (IMEX) Runge-Kutta pairs are mutually consistent",
     """For each implicit/explicit pair shipped under a common name, both parts share the same stage times and satisfy all coupled additive
     order conditions up to their common declared order (and up to the embedded order with their embedded weights),
     so that splitting any right-hand side between the two parts keeps the order.""",
     ["configurations", "inputs"],
     "all shipped pairs, all bicoloured-tree order conditions",
     "Tests integrate each part separately on a linear problem; coupling is never examined.",
     [BU], [("ARK tables", BU)], ["RK_SCHEMES['ARK*']"])

prop("C13", "Padding a Runge-Kutta table never changes the method",
     """For every Runge-Kutta scheme, left, right or double padding adds stages at the left end (explicit copy of the initial value) and/or
     right end (a copy of the step update), with consistent shapes for nodes, weights, embedded weights and matrix, leaving the original table as an inner block.
     Every step of the padded scheme, on any problem and with either weight set, equals that of the
     unpadded scheme, and the right padded stage value equals the step update.""",
     ["configurations", "inputs"], "all schemes, all paddings, all right-hand sides and step sizes",
     "Tests check shapes/values of a padded scheme on one problem and never its embedded weights.",
     [BU], [("padding", BU + ":RK.__init__")], ["RK(padding=...)"])

prop("C14", "Zero-to-node and node-to-node forms are equivalent everywhere",
     """For every generator of base coefficients and of approximations, the node-to-node form is the difference of consecutive rows of the zero-to-node form,
     the transfer matrix and its inverse are exact inverses that convert one into the other, and switching form changes neither nodes, weights nor dTau.
     Optional outputs (extrapolation coefficients, embedded weights, dTau) are appended in the documented order and shapes for every combination of options; an unknown form is rejected.
     The number of nodes, and whether the right bound is a node, are reported as the nodes say.""",
     ["configurations"], "all generators x forms x option combinations x iteration lists",
     "Tests compare forms for default parameters of some generators and few option combinations.",
     [QC, QD], [("S, T, Tinv, genCoeffs", QC), ("getSDelta, genCoeffs", QD)],
     ["QGenerator.genCoeffs/S/T/Tinv", "QDeltaGenerator.genCoeffs/getSDelta"])

prop("C15", "Every documented name reaches its method, and both interfaces agree",
     """Every class name and alias is registered, refers to exactly one implementation, and yields identical coefficients through the generic function,
     the registry, the class itself, and repeated construction.  Unknown names raise a value error (never a wrong method), and the registries list every
     shipped class once per name, whichever part of the package a process imports first.""",
     ["configurations"], "all names and aliases in both registries and the Runge-Kutta registry; arbitrary unknown names",
     "Tests iterate over the registry's own content, so a lost or redirected alias goes unnoticed.",
     [QC, QD, BU, UT], [("registries", QC + ":register"), ("registries", QD + ":register"), ("storeClass", UT)],
     ["genQCoeffs", "genQDeltaCoeffs", "Q_GENERATORS", "QDELTA_GENERATORS", "RK_SCHEMES"])

prop("C16", "Time-stepping approximations reproduce their scheme between the nodes",
     """For any increasing nodes and any left bound, applying the approximation (together with its dTau term for the initial
     value) to any right-hand side gives exactly the node values obtained by marching its scheme: backward Euler, forward Euler and trapezoidal from node
     to node starting at the left bound, their parallel variants from the left bound directly to each node, and two-step leap-frog.
     Explicit ones are strictly lower, implicit ones lower triangular, parallel ones diagonal.""",
     ["inputs", "configurations"], "all node vectors (non-uniform, integer-valued, starting at or after the left bound), all left bounds, all schemes",
     "Tests check row sums for unit-interval nodes; a non-zero left bound, integer nodes and the matrix entries are unsampled.",
     [TS], [("QDelta assembly", TS + ":BE,FE,TRAP,BEPAR,TRAPAR,SOE"), ("node differences", TS + ":TimeStepping.__init__")],
     ["getQDelta", "dTau", "genQDeltaCoeffs"])

prop("C17", "Algebraic approximations are the stated function of the base matrix",
     """For any square base matrix: Picard gives zero, Exact the matrix itself, the diagonal and lower-triangular variants exactly those parts,
     LU the lower-triangular matrix whose inverse times the base matrix is unit upper triangular (so the stiff sweep matrix is nilpotent), LU2 twice it, and LDU the diagonal of the triangular factorisation.  LU and LDU are understood for matrices with non-zero leading minors (apart from a zero first row for LU), and the base matrix is never modified.""",
     ["inputs", "configurations"], "all base matrices: collocation of every type and size, Runge-Kutta tables, random matrices",
     "Tests only check convergence for a few collocation matrices; the factorisations themselves are unchecked.",
     [AL, NU], [("LU trick", AL + ":LU"), ("LDU", NU + ":lduFactorization")], ["QDELTA_GENERATORS['LU'|...]"])

prop("C18", "Diagonal approximations have the documented diagonal for every iteration",
     """Node-based diagonal approximations divide the nodes by their documented divisor (number of nodes, fixed divisor, or the iteration-dependent one) for any
     nodes and any iteration; non-positive iterations are rejected.  Tabulated ones return the published coefficients for the listed configurations (whose stiff spectral radius does not exceed the published one) and report any other as not implemented.  The optimised one is diagonal, with a spectral radius of the stiff sweep matrix never larger than for its starting guess (nearly zero for at most two nodes).""",
     ["inputs", "configurations"], "all nodes, iterations, tabulated and non-tabulated configurations",
     "Tests check convergence for small unit-interval cases and a few iterations.",
     [DI, MC], [("diagonal formulas", DI), ("tables", MC)], ["QDELTA_GENERATORS['DNODES*'|'Jumper'|'MIN*'...]"])

prop("C19", "MIN-SR sweeps are nilpotent in their limit for every collocation method",
     """For every node count, distribution and quadrature type, the MIN-SR-NS approximation makes the non-stiff sweep matrix nilpotent, the MIN-SR-S one makes the
     stiff sweep matrix nilpotent (on the non-zero nodes, which keep an increasing positive diagonal), and the product of the MIN-SR-FLEX stiff sweep matrices over the first iterations (one per node) vanishes, with MIN-SR-S used afterwards.""",
     ["inputs", "configurations"], "all node counts (within the solver's range), distributions, quadrature types and iteration numbers",
     "Tests check nilpotency for a few small sizes only.",
     [DI], [("nilpotency system", DI + ":MIN_SR_S"), ("flex", DI + ":MIN_SR_FLEX"), ("NS", DI + ":MIN_SR_NS")],
     ["QDELTA_GENERATORS['MIN-SR-*']"])

prop("C20", "Multi-sweep generation stacks exactly the per-iteration matrices",
     """Asking for several sweeps, by a count, a list of names, or both, returns one matrix per sweep in order: sweep k uses iteration number k of the k-th named approximation, the
     last name filling the remaining sweeps, in either form and with the first approximation's dTau on request.  A single name without a count gives one
     matrix; iteration lists given to a generator object give the corresponding stack.  Invalid counts or names are rejected, and the arguments passed in are never modified.""",
     ["inputs", "configurations"], "all name lists, sweep counts, iteration lists, forms, parameters",
     "Tests cover a few lists; k-dependence across mixed lists, completion and argument preservation are unsampled.",
     [QD], [("sweep expansion", QD + ":genQDeltaCoeffs"), ("k lists", QD + ":genCoeffs")], ["genQDeltaCoeffs", "QDeltaGenerator.genCoeffs"])

prop("C21", "Parameters taken from a base generator equal explicitly given ones",
     """Building any approximation from a base-method object gives the same result as passing the corresponding nodes, matrix, left bound or collocation description explicitly, positionally or by keyword;
     explicitly given parameters override the extracted ones, and unrelated extra parameters have no effect.  The
     deprecated keyword behaves as the new one with a warning, giving both is rejected, and objects of the wrong kind are rejected.""",
     ["inputs", "configurations"], "all approximations x all base generators (collocation on any interval, Runge-Kutta) x ways of passing parameters",
     "Tests compare a few combinations on the unit interval.",
     [UT, QD, TS, DI], [("parameter extraction", UT + ":useQGen"), ("extractParams", QD + "," + TS + "," + DI)],
     ["QDELTA_GENERATORS[*](qGen=...)", "genQDeltaCoeffs(qGen=...)"])

prop("C22", "Results depend only on the arguments, never on history, aliasing or threads",
     """Any call returns the same result (to rounding) whatever was called before, in whatever order, from however many threads, on fresh or reused objects, and in a fresh process. Overwriting arrays returned by generation calls never changes later results, of the same or any other object, nor process-wide tables (arrays read from the attributes of a base-method object, or returned with copying switched off, belong to that object). No call ever modifies its array or list arguments.""",
     ["histories", "schedules"], "all interleavings of public calls, in-place edits of returned arrays, thread schedules",
     "Tests call each function once on fresh objects and never mutate results, reorder calls or use threads.",
     [QC, QD, BU, CO, L], [("cached matrices with copies", QD + ":getQDelta"), ("class-level tables", BU + ":RK")],
     ["every public generator"])

prop("C23", "The Dahlquist solver applies the method's stability function every step",
     """For every generator, complex or real coefficient, initial value, final time and step count, the solver returns nSteps+1 values starting with
     the initial value, each the previous one times R(lambda dt) of the method (main or, on request, embedded weights).  The
     error helper is the maximum deviation from the exact exponential over all those times, computing the solution itself or using the one supplied.""",
     ["inputs", "configurations"], "all generators, lambda, u0, tEnd, step counts, weight choices",
     "Tests use a single lambda and a few step counts.",
     [QC], [("stage solve and update", QC + ":solveDahlquist"), ("error norm", QC + ":errorDahlquist")],
     ["QGenerator.solveDahlquist/errorDahlquist"])

prop("C24", "The SDC solver performs exactly the preconditioned sweeps it is given",
     """For any base and approximation matrices (one for all sweeps or one per sweep), the SDC solver starts each step from the copied step value, performs exactly the requested number of preconditioned sweeps in order and updates
     with the last node value or with the given weights.  The monitors hold residual and error of every sweep, step and node as defined, without
     changing the solution; shapes that do not fit are rejected.  With the exact approximation one sweep yields the underlying method, and the error helper is the maximum deviation from the exponential.""",
     ["inputs", "configurations"], "all matrices, lambda, u0, tEnd, step and sweep counts, weights, monitor selections",
     "Tests only look at convergence orders for lambda = 1j and at shapes of monitors.",
     [SD], [("sweep loop", SD + ":solveDahlquistSDC"), ("error", SD + ":errorDahlquistSDC")],
     ["solveDahlquistSDC", "errorDahlquistSDC"])

prop("C25", "The predicted SDC order is attained asymptotically",
     """For the documented collocation types, time-stepping approximations, sweep counts and step-update choices, the order predicted for SDC never exceeds the order attained by one step, i.e. the power of lambda dt through which its Taylor series agrees with that of the exponential, whatever the number of nodes, distribution and sweep count. For the time-stepping approximations with two to four nodes it is exactly that order, and for any number of nodes never less than one per sweep (two for a first trapezoidal sweep, one for a quadrature update, capped by the order of the collocation method).""",
     ["inputs", "configurations"], "all collocation configurations, approximations, sweep counts and updates",
     "Tests fit slopes for 2..4 nodes with hand-picked step counts, whose tolerance hides an order.",
     [SD], [("order formula and special cases", SD + ":getOrderSDC")], ["getOrderSDC", "solveDahlquistSDC"])

prop("C26", "Numerical utilities compute what they state for every input",
     """The numerical order is the least-squares slope of log error against log step size with its root mean square residual; the LDU factorisation returns unit lower, diagonal and unit upper factors
     whose product is the input (any matrix with non-zero leading minors); the extrapolation matrix maps node values to the values of their least-squares polynomial of the requested degree
     (interpolating by default), so it reproduces polynomials up to that degree.""",
     ["inputs"], "all data sizes, matrices, nodes, times, degrees",
     "Tests use a handful of fixed inputs.",
     [NU], [("regression", NU + ":numericalOrder"), ("elimination", NU + ":lduFactorization"), ("normal equations", NU + ":getExtrapolationMatrix")],
     ["numericalOrder", "lduFactorization", "getExtrapolationMatrix"])

prop("C27", "User-defined generators are validated and registered all-or-nothing",
     """Registering a user-defined class makes it available under its name and all aliases through every generic interface, exactly like a shipped one.  A class that misses a required member, constructor convention or default
     parameters, has inconsistent table shapes, or whose name or alias is already taken is rejected with an error, and the rejected attempt leaves all registries and all existing names unchanged.""",
     ["histories", "programs"], "all sequences of valid and invalid registrations",
     "Tests try a few invalid classes and never inspect the registries afterwards.",
     [QC, QD, BU, UT], [("checks", UT + ":checkOverriding,checkGenericConstr,storeClass"), ("register", QC + "," + QD + "," + BU)],
     ["register", "registerRK", "registries"])

prop("C28", "Methods have the stability they are documented for",
     """Implicit Runge-Kutta schemes presented as A-, S- or L-stable or stiffly accurate are so (padded or not): one step never amplifies a solution for any lambda on the imaginary axis or in the left half-plane, damps it
     completely in the stiff limit where L-stability is stated, and ends with the step update where stiff accuracy is stated.  The same holds for Legendre collocation of every size (Gauss and Lobatto A-stable and Radau-right L-stable;
     Gauss and Radau-right algebraically stable), and collocation on symmetric nodes conserves the modulus on the imaginary axis.  Explicit schemes named strong stability preserving have a positive radius of absolute monotonicity.""",
     ["inputs", "configurations"], "all documented schemes, all collocation sizes, all lambda in the closed left half-plane",
     "Tests only integrate with lambda = 1j and moderate steps; no stiff or left half-plane value is ever used.",
     [BU, CO, QC], [("tables", BU), ("collocation", CO), ("stage solve", QC + ":solveDahlquist")], ["QGenerator.solveDahlquist", "Q_GENERATORS[*].Q/weights"])

prop("C29", "The timer reports the elapsed wall time and disturbs nothing",
     """Started and stopped by hand or as a context manager, nested or reused, the timer reports the wall time between start and stop divided by the requested scale, and prints the name at the start and the described value at the end.
     Exceptions raised in the timed block propagate unchanged, the time being reported all the same.""",
     ["histories", "inputs"], "all sequences of uses, scales, descriptions and bodies",
     "The only test checks a lower bound of one pause and an empty context manager.",
     [UT], [("Timer", UT + ":Timer")], ["Timer"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
