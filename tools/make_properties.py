"""Writes properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Closed-form certificates are exact identities",
 "Whenever the closed-form (structural) solver answers a polynomial inequality with a certificate, that certificate, with its cyclic sums and products expanded and named constraints substituted back, is identically equal to the polynomial that was asked about. This holds for every number of variables, degree, symmetry, coefficient field and constraint set the solver accepts, homogeneous or not. The solver never answers a well-formed problem with an ill-defined expression (NaN, infinity, zero for a nonzero polynomial) or an exception.",
 ["inputs"], "every polynomial with rational coefficients (and every constraint list) handed to the closed-form solver, in particular every one of the several hundred case distinctions on coefficients inside it",
 "The solver asserts equality instead of verifying it, and none of its roughly 15000 lines of closed formulas is executed by a passing test; correctness is a polynomial identity per branch that must hold for all coefficients reaching the branch.",
 ["triples/core/structsos/structsos.py", "triples/core/structsos/solution.py", "triples/core/structsos/nvars.py", "triples/core/structsos/sparse.py", "triples/core/structsos/utils.py", "triples/core/structsos/ternary", "triples/core/structsos/quarternary", "triples/core/structsos/pivoting", "triples/core/structsos/constrained"],
 [("StructuralSOS", "triples/core/structsos/structsos.py"), ("SolutionStructural", "triples/core/structsos/solution.py"), ("StructuralSOSSolver per arity/degree", "triples/core/structsos/*/solver.py")])

prop("C02", "Linear-programming certificates are exact identities",
 "Whenever the linear (LP) solver returns a certificate, numerator and denominator are rational expressions in the variables and the given names whose quotient is identically equal to the requested polynomial after exact rational correction (equality constraints being free of repeated factors), and every free coefficient in it is a nonnegative rational multiplying squares, constraints or their products. This holds for every choice of tangents, symmetry, multiplier degree limits and named constraints, and for non-homogeneous problems. Problems it accepts never make it raise.",
 ["inputs", "configurations"], "every polynomial, constraint list and solver configuration (tangent lists, symmetry groups, multiplier options, preordering options)",
 "No passing test executes the linear solver; the correctness lies in converting a floating point LP vertex into an exact identity, for arbitrary inputs.",
 ["triples/core/linsos/linsos.py", "triples/core/linsos/correction.py", "triples/core/linsos/solution.py", "triples/core/linsos/updegree.py", "triples/core/linsos/tangents.py"],
 [("LinearSOS", "triples/core/linsos/linsos.py"), ("linear_correction", "triples/core/linsos/correction.py"), ("create_linear_sol_from_y_basis", "triples/core/linsos/solution.py")])

prop("C03", "Semidefinite-programming certificates are exact identities",
 "Whenever the SDP-based solver returns a certificate, it is identically equal to the requested polynomial, after rational rounding of the numerical solution, for every constraint list (equality constraints being free of repeated factors), symmetry group, multiplier, and facial-reduction option. Its Gram matrices are exactly positive semidefinite. Turning optional reductions on or off never turns a correct certificate into an incorrect one. Problems it accepts never make it raise.",
 ["inputs", "configurations"], "every polynomial, inequality/equality constraint list, symmetry group and option set accepted by the SDP solver",
 "No passing test executes it; exactness after rounding of a floating-point interior-point solution must hold for all inputs and for every solver outcome.",
 ["triples/core/sdpsos/sdpsos.py", "triples/core/sdpsos/solution.py", "triples/core/sdpsos/manifold.py"],
 [("SDPSOS / SOSProblem", "triples/core/sdpsos/sdpsos.py"), ("create_solution_from_M", "triples/core/sdpsos/solution.py"), ("RootSubspace", "triples/core/sdpsos/manifold.py")])

prop("C04", "Symmetry-reduction changes of variables are lossless",
 "The change of variables used to prove symmetric and cyclic inequalities on the nonnegative orthant represents the polynomial faithfully: substituting the new variables back reproduces the original polynomial (times the stated denominator), and the inverse transformation undoes the forward one. New variables are nonnegative whenever the old ones are, in every permitted direction. A certificate obtained through it is identically equal to the original polynomial.",
 ["inputs"], "every symmetric or cyclic polynomial in three variables and every symmetric polynomial in more variables, with any homogeneous degree, and every choice of output variables",
 "Two doctests exercise one polynomial each; a change of variables must be lossless for all polynomials and all variable orders.",
 ["triples/core/symsos/representation.py", "triples/core/symsos/symmetric.py", "triples/core/symsos/basic.py", "triples/core/symsos/symsos.py", "triples/core/symsos/solution.py", "triples/utils/expression/pqr.py"],
 [("sym_representation / sym_representation_inv", "triples/core/symsos/representation.py"), ("SymmetricTransform subclasses", "triples/core/symsos/symmetric.py"), ("pqr_sym / pqr_cyc", "triples/utils/expression/pqr.py")])

prop("C05", "A returned certificate is a visible proof; false inequalities get none",
 "Every certificate returned by any solver is visibly nonnegative on the feasible set: it is built only from nonnegative constants, even powers, nonnegative products and sums, and the declared inequality (nonnegative) and equality (zero) constraints, with a denominator of the same kind. Consequently a polynomial that is negative at a feasible point never gets a certificate whose denominator is nonzero at that point. Certificates rely only on constraints that the user declared.",
 ["inputs"], "every polynomial, true or false, and every constraint set, through each proof method",
 "An inequality's truth on an infinite feasible set is not sampled by any passing test; each formula branch guards itself with sign conditions on coefficients that must imply nonnegativity for all coefficients.",
 ["triples/core/sum_of_squares.py", "triples/core/structsos", "triples/core/linsos", "triples/core/sdpsos", "triples/core/symsos"],
 [("sum_of_squares", "triples/core/sum_of_squares.py"), ("sign guards in closed-form rules", "triples/core/structsos"), ("LinearBasis / preordering", "triples/core/linsos/basis.py")])

prop("C06", "The driver answers the problem that was posed",
 "The top-level prover tries the methods in the requested order with their own configurations and returns the first certificate found, or nothing, and the returned object carries the original problem, constraints, method and an equality flag that is true exactly when the certificate equals the problem. Equivalent ways of posing a problem - expression or polynomial, constraints as a list or as a dictionary of names, scaled or squared constraints, extra variables, homogeneous or not - all yield certificates valid for exactly the posed problem, written with exactly the given names. Unprovable or degenerate problems (zero, constants, unused variables) are handled cleanly.",
 ["inputs", "configurations"], "every problem statement in every accepted input form, with every method order and method configuration",
 "The passing tests never call the prover; the space of equivalent problem statements is unbounded.",
 ["triples/core/sum_of_squares.py", "triples/core/shared.py", "triples/utils/expression/solution.py"],
 [("sum_of_squares", "triples/core/sum_of_squares.py"), ("sanitize_input / sanitize_output", "triples/core/shared.py"), ("SolutionSimple.is_equal", "triples/utils/expression/solution.py")])

prop("C07", "Problem normalisation preserves the problem",
 "Normalising a problem keeps its meaning: reduced inequality constraints have the same sign everywhere and reduced equality constraints the same zero set as the given ones, with the attached name carrying exactly the factor removed (for an equality constraint with repeated factors the name enters through a root, determined up to sign or branch); homogenising and then setting the new variable to one gives the original back; duplicates removed by symmetry are exactly images of ones that are kept. Every symmetry group that is inferred really maps the polynomial and each set of constraints to itself.",
 ["inputs"], "all polynomials, constraint lists with repeated/negative/scaled factors, and variable permutations",
 "The doctests shown in the code are not runnable as written; sign bookkeeping over all factorisations and invariance under all permutations are universally quantified.",
 ["triples/core/shared.py"],
 [("homogenize / homogenize_expr_list", "triples/core/shared.py"), ("identify_symmetry_from_lists, clear_polys_by_symmetry", "triples/core/shared.py"), ("constraint standardisation and wrapping", "triples/core/shared.py")])

prop("C08", "Cyclic sums and products mean their expansion over the group",
 "A cyclic sum (product) always denotes the sum (product) of the images of its body over all elements of its permutation group, and every algebraic operation on it - automatic evaluation, expansion, simplification, together, substitution, exact replacement, factor extraction, powers, polynomial conversion, number evaluation - has the value that the same operation has on the expansion. Two expressions that differ by a group element have the same value and the same canonical form.",
 ["inputs", "histories"], "every body expression, symbol tuple and permutation group, and every sequence of operations on the resulting object",
 "The five passing tests check fixed expressions over the default group; equality with the expansion must hold for all bodies, groups and operation sequences.",
 ["triples/utils/expression/cyclic.py"],
 [("CyclicExpr, CyclicSum, CyclicProduct", "triples/utils/expression/cyclic.py")])

prop("C09", "Rewriting symmetric notation preserves the value",
 "Rewriting an expression with respect to a permutation group never changes its value, and afterwards every cyclic sum or product left in it is over the requested variables and group, so that short notation without an explicit group is unambiguous. Restricting a group to a subset of variables yields exactly the permutations of that subset induced by the group.",
 ["inputs"], "every expression containing nested cyclic sums/products over arbitrary groups, and every target group",
 "One doctest covers one group projection; the rewriting is heuristic and must be value preserving for all expressions.",
 ["triples/utils/expression/cyclic.py", "triples/utils/expression/solution.py"],
 [("rewrite_symmetry, _project_perm_group", "triples/utils/expression/cyclic.py"), ("Solution.rewrite_symmetry", "triples/utils/expression/solution.py")])

prop("C10", "Solution objects and their printed forms denote the same certificate",
 "Splitting a certificate into numerator and denominator, putting it together, expanding, collecting, replacing and dehomogenising it keep its value, and the numerator over the denominator always equals it. Plain-text, formatted and LaTeX renderings, with cyclic sums read over the intended group, parse back to the same certificate; rendering is repeatable, does not alter the solution object, and marks a certificate as exact only when it is.",
 ["inputs", "histories"], "every certificate expression and every sequence of rendering and transformation calls",
 "No passing test renders a solution; printing depends on global print switches, sign extraction and operator precedence over unbounded expressions.",
 ["triples/utils/expression/solution.py", "triples/utils/expression/cyclic.py"],
 [("SolutionSimple.as_fraction / to_string / str_*", "triples/utils/expression/solution.py"), ("_print_str", "triples/utils/expression/solution.py"), ("CyclicExpr printers", "triples/utils/expression/cyclic.py")])

prop("C11", "Typed inequalities are parsed as written",
 "Parsing a typed inequality - juxtaposed coefficients and variables, powers, fractions, roots, LaTeX, cyclic sum and product shorthands over the chosen variables and group - yields exactly the polynomial or fraction that the notation denotes, in every requested output form. Reading a list of inequalities treats each item as it would be treated alone. Text that is not a polynomial is rejected rather than turned into a different polynomial.",
 ["inputs"], "every text in the accepted notation, over any ordered variables and permutation group",
 "The passing doctest covers only degree extraction; agreement with a reference reading must hold for every text of the grammar.",
 ["triples/utils/text_process.py"],
 [("preprocess_text / pl / cycle_expansion / delatex", "triples/utils/text_process.py"), ("PolyReader, short_constant_parser, degree_of_zero", "triples/utils/text_process.py")])

prop("C12", "Written-out polynomials read back as themselves",
 "Every textual or tabular form the system produces from a polynomial - sorted standard form, cyclic standard form, factored form, LaTeX table or triangle of coefficients, coefficient triangle for the interface - contains exactly the polynomial's coefficients at the right monomials. Reading a produced text form back gives the identical polynomial.",
 ["inputs"], "every homogeneous or inhomogeneous polynomial with rational or algebraic coefficients, every variable order and group",
 "Only a round trip over all coefficient patterns (zeros, signs, ones, fractions, long names) decides it; nothing passing covers it.",
 ["triples/utils/expression/form.py", "triples/utils/text_process.py", "triples/utils/roots/grid.py"],
 [("poly_get_standard_form / poly_get_factor_form / latex_coeffs", "triples/utils/expression/form.py"), ("coefficient_triangle, coefficient_triangle_latex, wrap_desmos", "triples/utils/text_process.py"), ("GridPoly.save_coeffs", "triples/utils/roots/grid.py")])

prop("C13", "Coefficient vectors represent polynomials faithfully",
 "Converting a polynomial to a coefficient vector and back is the identity, for every number of variables, degree, homogeneous or not, and for symmetric polynomials also when the vector is compressed by a permutation group. The numerical and exact vectors agree, every monomial has exactly one slot, permutations of variables act on vectors as they do on polynomials, and the index maps are mutually inverse.",
 ["inputs"], "all polynomials, all arities and degrees, all permutation groups",
 "The doctests fix one polynomial; the index arithmetic must be right for every arity, degree and group.",
 ["triples/utils/monomials.py"],
 [("MonomialManager", "triples/utils/monomials.py"), ("arraylize_np / arraylize_sp / invarraylize", "triples/utils/monomials.py")])

prop("C14", "Polynomial classification and coefficient access are exact",
 "Degree, homogeneity, cyclicity and full symmetry are reported exactly as defined for every polynomial; coefficient views support arithmetic, cyclic rotation, rescaling and removal of monomial factors consistently with the polynomials they stand for; rewriting in elementary symmetric variables substitutes back to the original; and the convex hull of exponents contains exactly the right vertices.",
 ["inputs"], "all polynomials in any variables and all coefficient views derived from them by sequences of operations",
 "Two doctests show single polynomials; classification decides which closed formula is applied and must be right on every input.",
 ["triples/utils/polytools.py", "triples/utils/expression/coeff.py", "triples/utils/expression/pqr.py"],
 [("deg, verify_hom_cyclic, verify_is_symmetric, convex_hull_poly", "triples/utils/polytools.py"), ("Coeff", "triples/utils/expression/coeff.py"), ("pqr_sym, pqr_cyc", "triples/utils/expression/pqr.py")])

prop("C15", "Fast exact matrix arithmetic is exact",
 "Fast matrix products, bilinear forms, row reductions, null spaces and linear system solutions over the rationals give exactly the result of rational arithmetic for every size and magnitude of entries, including entries at and beyond machine-integer range. Solving a linear system yields a particular solution and a basis that together describe the complete solution set, and inconsistency is reported rather than ignored.",
 ["inputs"], "all rational matrices and all splits of computations between machine-integer and big-number paths",
 "No passing test covers it; overflow guards matter only at specific magnitudes that samples do not hit.",
 ["triples/sdp/arithmetic.py"],
 [("matmul, matmul_multiple, symmetric_bilinear(_multiple)", "triples/sdp/arithmetic.py"), ("solve_undetermined_linear, solve_nullspace, solve_csr_linear, solve_column_separated_linear", "triples/sdp/arithmetic.py")])

prop("C16", "Matrix certificates of semidefiniteness are exact",
 "The exact congruence decomposition succeeds if and only if the symmetric rational matrix is positive semidefinite, and then reproduces the matrix exactly with nonnegative weights. Packing symmetric matrices into vectors and unpacking them is lossless, and assembling matrices from an affine parametrisation gives exactly the affine combination. Rounding a numerical solution to rationals accepts only matrices that are exactly semidefinite and exactly feasible.",
 ["inputs"], "all symmetric rational matrices (definite, singular, indefinite, zero-diagonal), all affine matrix families and all numerical points",
 "Nothing passing covers it; an if-and-only-if over all matrices cannot be sampled by a handful.",
 ["triples/sdp/utils.py", "triples/sdp/rationalize.py"],
 [("congruence, congruence_with_perturbation, Mat2Vec, S_from_y, decompose_matrix", "triples/sdp/utils.py"), ("rationalize_and_decompose, RationalizeWithMask, RationalizeSimultaneously, IdentityRationalizer", "triples/sdp/rationalize.py")])

prop("C17", "Solved semidefinite programs are exactly feasible through all reductions",
 "When a semidefinite problem solved in its default exact mode reports success, the stored rational point is exactly feasible: every matrix equals the affine family at the stored parameters, is exactly positive semidefinite, and equals its stored decomposition. This also holds in every problem linked to it by reductions (subspaces, nullspaces, zero diagonals, equal entries, symmetry, masking, deparametrisation), whatever sequence of reductions was applied. A reduction never cuts off a feasible point it promises to keep, and infeasible problems are never reported as solved.",
 ["inputs", "histories", "configurations"], "all primal and dual problems, all sequences of reductions, all rounding methods, objectives and extra constraints, and all available numerical back ends",
 "Nothing passing solves a semidefinite program; the property quantifies over histories of reductions whose back-propagation must compose.",
 ["triples/sdp/abstract.py", "triples/sdp/dual.py", "triples/sdp/primal.py", "triples/sdp/transform.py", "triples/sdp/backend"],
 [("SDPProblem, SDPPrimal", "triples/sdp/dual.py, triples/sdp/primal.py"), ("SDPTransformation subclasses", "triples/sdp/transform.py"), ("solve_numerical_dual_sdp / primal back ends", "triples/sdp/backend")],
 state=[("y, S, decompositions", "rational solution kept on each linked problem", "triples/sdp/abstract.py")])

prop("C18", "Zeros of a polynomial constrain its squares correctly",
 "The subspace constraints derived from the zeros of a polynomial (and from derivatives at zeros on the boundary) are satisfied by every sum-of-squares representation of it: coefficient vectors returned for a zero are orthogonal to every polynomial that vanishes there to the required order. Newton-polytope and monomial reductions never remove a monomial that some representation needs. Gram-matrix equations describe exactly the representations of the polynomial.",
 ["inputs"], "all polynomials with known zeros (interior, boundary, irrational, multiple) multiplied by any constraints, with and without symmetry",
 "Nothing passing covers it; validity must hold for every zero and every representation.",
 ["triples/core/sdpsos/manifold.py", "triples/core/sdpsos/sdpsos.py"],
 [("RootSubspace, _compute_diff_orders, _bilinear", "triples/core/sdpsos/manifold.py"), ("SOSProblem construction", "triples/core/sdpsos/sdpsos.py")])

prop("C19", "Tabulated basis vectors match the basis polynomials",
 "Every building block offered to the linear solver has a coefficient vector (numeric and exact) equal to that of the polynomial it denotes, whichever cached, accelerated or generic route produced it, with or without a symmetry group and regardless of what was generated before. Generated families contain every building block of the requested degree, and conversion to even-power form keeps the polynomial. Building blocks are nonnegative wherever the constraints in them are.",
 ["inputs", "histories"], "all tangents, constraints, degrees, arities, symmetry groups and orders of requests to the caches",
 "Nothing passing covers it; accelerated routes and caches must agree with the definition in every history.",
 ["triples/core/linsos/basis.py", "triples/core/linsos/updegree.py"],
 [("LinearBasis, LinearBasisTangent, LinearBasisTangentEven", "triples/core/linsos/basis.py"), ("quad_diff caches and lifting", "triples/core/linsos/basis.py")],
 state=[("basis caches", "matrices cached per arity, degree and symmetry", "triples/core/linsos/basis.py")])

prop("C20", "Rational approximations keep their promises",
 "Rounding a number to a rational stays within the promised tolerance, one-sided bounds lie on the promised side, isolated real roots are exactly all real roots with one per interval, sign intervals of univariate polynomials are correct, and points returned for a region bounded by conics lie in that region. Rounding an exactly representable value returns that value.",
 ["inputs"], "all floats, tolerances, directions, univariate rational polynomials and pairs of conics",
 "Nothing passing covers it; one-sidedness and completeness are universally quantified.",
 ["triples/utils/roots/rationalize.py"],
 [("rationalize, rationalize_array, rationalize_bound, square_perturbation, cancel_denominator", "triples/utils/roots/rationalize.py"), ("nroots, univariate_intervals, rationalize_quadratic_curve, common_region_of_conics", "triples/utils/roots/rationalize.py")])

prop("C21", "Root objects compute exactly with the point they denote",
 "A root object - rational, radical or algebraic - gives the exact value of any polynomial, derivative vector, monomial vector, cyclic sum and cyclic invariants at the point it denotes, whichever of its specialised representations is used and in whatever order values are requested. Normalising, approximating or reconstructing a root denotes the same point (up to the documented scaling and rotation). The spanned space of derivative vectors contains exactly those of its conjugates.",
 ["inputs", "histories"], "all points in rational, quadratic and algebraic number fields, all polynomials, derivative orders, and orders of queries",
 "Nothing passing covers it; specialised modular shortcuts have to agree with direct evaluation for every point and history.",
 ["triples/utils/roots/roots.py", "triples/utils/roots/rootsinfo.py"],
 [("Root, RootTernary, RootRational, RootAlgebraic*", "triples/utils/roots/roots.py"), ("RootsInfo", "triples/utils/roots/rootsinfo.py")])

prop("C22", "Reported zeros are real zeros and tangents pass through them",
 "Every point reported as a zero or extremum of a polynomial under constraints is feasible and satisfies what is claimed about it (it nearly vanishes, or solves the stated stationarity system), and zeros planted in the interior or boundary of the feasible region are found when the solver claims completeness. Every tangent expression suggested for a set of zeros vanishes at those zeros.",
 ["inputs"], "all polynomials with known zeros, constraint sets and variable counts",
 "Nothing passing covers it; the search is numerical and its filters must hold for every input.",
 ["triples/utils/roots/findroot.py", "triples/utils/roots/tangents.py", "triples/utils/roots/rootsinfo.py", "triples/core/linsos/tangents.py"],
 [("findroot, findroot_resultant, kkt, find_nearest_root", "triples/utils/roots/findroot.py"), ("RootTangent, root_tangents", "triples/utils/roots/tangents.py, triples/core/linsos/tangents.py")])

prop("C23", "Branch-and-bound optima are feasible and optimal within tolerance",
 "The global optimiser over a box returns a point inside the box satisfying every constraint up to the tolerance, with the objective value it reports, and no feasible point of the box beats it by more than the tolerance. Problems without feasible points are reported as such. The decomposition into monotone parts it uses equals the polynomial and is monotone in each part.",
 ["inputs"], "all polynomials, constraint polynomials and boxes (including negative bounds)",
 "Nothing passing covers it; optimality compares against every point of the box.",
 ["triples/utils/roots/monotonic_opt.py"],
 [("rpa_monotonic, rpa_gmop, rpa_polyopt, poly_as_dm", "triples/utils/roots/monotonic_opt.py")])

prop("C24", "Plots show the polynomial's values",
 "The value table behind the contour plot equals the polynomial evaluated at the barycentric grid points (up to the documented scaling), whatever size and evaluation route is used; reported local minima on the grid are exactly the grid points below their neighbours; and the picture has one pixel per grid cell with distinct colours for positive, zero and negative values.",
 ["inputs", "configurations"], "all homogeneous ternary polynomials, grid sizes and evaluation methods",
 "Nothing passing covers it; integer and floating evaluation routes must agree for every polynomial and size.",
 ["triples/utils/roots/grid.py", "triples/gui/visualize.py"],
 [("GridRender, GridPoly", "triples/utils/roots/grid.py")])

prop("C25", "Batch runs report every problem faithfully",
 "A batch run returns exactly one row per nonempty problem, in order, whose status is the truth about that problem alone: invalid text, no proof found, error, or a proof with its method and degree. One failing or malformed problem never affects the rows of the others, saved files contain the same rows, and the caller's configuration objects are left unchanged.",
 ["inputs", "histories"], "all lists of texts and polynomials mixing valid, malformed and failing problems, and sequences of batch calls",
 "Nothing passing covers it; independence of rows quantifies over all mixes and orders.",
 ["triples/core/sum_of_squares.py", "triples/utils/text_process.py"],
 [("sum_of_squares_multiple, _process_records", "triples/core/sum_of_squares.py"), ("PolyReader", "triples/utils/text_process.py")])

prop("C26", "The interactive front ends report the typed problem consistently",
 "For every typed problem the interface layer answers with one consistent picture: the same polynomial in its standard text, degree, coefficient triangle, LaTeX table and value grid, zeros that belong to it, and a certificate text equal to it. The web service answers every request it accepts with a well-formed result or an error report, and does not evaluate typed text as program code.",
 ["inputs", "histories"], "all request payloads and sequences of requests, well-formed or not",
 "No test exercises the front ends; the property covers arbitrary typed text and request sequences.",
 ["triples/gui/sos_manager.py", "web_main.py", "gradio.app.py"],
 [("SOS_Manager", "triples/gui/sos_manager.py"), ("Flask/SocketIO handlers", "web_main.py")])

prop("C27", "Calls are pure: no history dependence, no mutated arguments",
 "Public operations never modify the arguments given to them (problems, constraint lists and dictionaries, configuration dictionaries, default values) and their results do not depend on which other problems were processed before in the same process. Repeating a call with equal arguments gives an equal result.",
 ["histories"], "all sequences of calls to the public operations within one process, with shared argument objects and with different orders",
 "Tests run one call each; hidden caches, class-level switches and mutable defaults show only in particular call histories.",
 ["triples/core/sum_of_squares.py", "triples/core/linsos/basis.py", "triples/core/shared.py", "triples/utils/text_process.py", "triples/utils/expression/cyclic.py", "triples/utils/expression/solution.py", "triples/utils/monomials.py", "triples/utils/roots"],
 [("module- and class-level caches", "triples/core/linsos/basis.py, triples/utils/monomials.py"), ("mutable default arguments", "triples/core/sum_of_squares.py, triples/utils/text_process.py"), ("class-level print switches", "triples/utils/expression/cyclic.py")])

prop("C28", "Univariate positivity certificates",
 "The univariate prover answers over the half-line, any bounded or unbounded interval and the whole line. Whatever it returns is an exact identity of the documented shape: nonnegative weights, squares, and the multipliers 1, x, (x-a), (b-x) or (x-a)(b-x) belonging to the interval and parity, both in the raw and in the expression form. It returns none for a polynomial that is negative somewhere on the interval, and it finds a certificate for rational polynomials of moderate degree lying well inside the cone of nonnegative ones; the positivity test agrees with the sign of the polynomial.",
 ["inputs"], "all univariate polynomials with rational or quadratic irrational coefficients, all intervals and working precisions",
 "No passing test calls the prover; it rounds numerical root factorizations to exact matrices, and whether the rounding is right depends on accidental cancellations between coefficients.",
 ["triples/core/structsos/pivoting/univariate.py"],
 [("prove_univariate, prove_univariate_interval, check_univariate", "triples/core/structsos/pivoting/univariate.py")])

pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))
