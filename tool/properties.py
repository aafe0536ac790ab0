NUM_LEVEL = "Static: every instantiated operation is summarised over all its paths and the enclosure is derived by rounding-direction, monotonicity and sign rules (counts of derived/undecided obligations are in the evidence). Undecided obligations are neither claimed nor reported; an alarm needs a representative argument on which the derived summary excludes the exact result."
TESTS_NUM = "The tests evaluate each operation on a handful of argument values, mostly in double precision; the guarantee is for every argument, sign pattern, rounding direction and overload (several hundred mixed-class overloads exist and most are never called by a test)."
P("N01", "Interval arithmetic encloses the exact result",
  "Every arithmetic or elementary operation that returns a lower/upper-bounds number returns bounds containing the exact mathematical result for every choice of real numbers represented by its operands. This holds for unary, binary and in-place forms and for all mixed operand types, in both floating-point precisions, for built-in integer operands that fit the working precision.",
  ["inputs"], "all operand values, all sign patterns, all overloads and both precisions", TESTS_NUM,
  ["source/numeric/float_bounds.hpp", "source/numeric/float_bounds.tpl.hpp", "source/numeric/float_bounds.cpp", "source/numeric/arithmetic.hpp"],
  [("interval arithmetic on directed-rounding primitives", "source/numeric/float_bounds.hpp"), ("mixed-type dispatch", "source/numeric/arithmetic.hpp")],
  "abstract interpretation (value numbering) + rounding-direction/monotonicity inference", NUM_LEVEL)
P("N02", "Ball arithmetic encloses the exact result",
  "Every arithmetic or elementary operation that returns a value-plus-radius number returns a ball containing the exact mathematical result for every choice of real numbers represented by its operands. The radius accounts for both the operands' radii and the rounding of the returned value.",
  ["inputs"], "all operand values and radii, all overloads and both precisions (including mixed value/error precision)", TESTS_NUM,
  ["source/numeric/float_ball.hpp", "source/numeric/float_ball.tpl.hpp", "source/numeric/float_ball.cpp"],
  [("midpoint-radius arithmetic", "source/numeric/float_ball.hpp"), ("conversion from bounds", "source/numeric/float_ball.tpl.hpp")],
  "abstract interpretation (value numbering) + rounding-error monomial cover", NUM_LEVEL)
P("N03", "One-sided bounds and errors stay on their side",
  "An operation returning a lower bound never returns a value above the exact result, and an operation returning an upper bound or an error bound never returns a value below it, for all real numbers its operands stand for. This includes the positive-restricted variants and in-place updates.",
  ["inputs"], "all operand values, all overloads and both precisions", TESTS_NUM,
  ["source/numeric/float_lower_bound.hpp", "source/numeric/float_upper_bound.hpp", "source/numeric/float_error.hpp", "source/numeric/positive.hpp"],
  [("monotone operations on one-sided information", "source/numeric/float_upper_bound.hpp"), ("error arithmetic", "source/numeric/float_error.hpp")],
  "abstract interpretation (value numbering) + rounding-direction/monotonicity inference", NUM_LEVEL)
P("N04", "Conversions between number representations are outward",
  "Converting an exact or inexact number into a bounds, ball, lower-bound, upper-bound or error number, or changing its precision, yields an object that still represents every real number the source represented. Rounding during conversion is always away from the enclosed value.",
  ["inputs"], "all source values, all source/target class pairs, all target precisions", "The tests convert a few exactly representable or lucky values; whether the rounding direction of each of the many converting constructors is outward only shows for values that are inexact at the target precision.",
  ["source/numeric/float_bounds.tpl.hpp", "source/numeric/float_ball.tpl.hpp", "source/numeric/float_lower_bound.tpl.hpp", "source/numeric/float_upper_bound.tpl.hpp", "source/numeric/float_error.hpp"],
  [("converting constructors", "source/numeric/float_bounds.tpl.hpp"), ("precision-changing constructors", "source/numeric/float_upper_bound.hpp")],
  "abstract interpretation (value numbering) + rounding-direction inference", NUM_LEVEL)
P("N05", "Comparisons of inexact numbers never give a wrong definite answer",
  "A comparison involving an inexact number answers definitely true or definitely false only if that answer is correct for every choice of real numbers the operands represent. The information-order predicates (refines, models, consistent, common refinement) agree with containment and intersection of the represented sets.",
  ["inputs"], "all operand values, all comparison operators and operand class pairs", "The tests compare a few well separated or identical numbers; touching and overlapping endpoint configurations for each operator and class pair are not enumerated.",
  ["source/numeric/float_bounds.hpp", "source/numeric/float_ball.hpp", "source/numeric/float_lower_bound.hpp", "source/numeric/float_upper_bound.hpp", "source/numeric/arithmetic.hpp"],
  [("validated comparison operators", "source/numeric/float_bounds.hpp"), ("mixed-type comparisons", "source/numeric/arithmetic.hpp")],
  "abstract interpretation (value numbering) + order closure of branch facts", NUM_LEVEL)

P("N06", "Machine-number primitives round in the requested direction",
  "Every basic operation on a double- or multiple-precision machine number that is asked for a rounding direction returns a value on the requested side of the exact result (not below it for upward, not above it for downward, nearest for to-nearest), whatever rounding mode happens to be in force when it is called. Operations documented as exact, and comparisons between machine numbers and exact numbers, return exactly the mathematical answer.",
  ["inputs"], "all operand values, the three rounding directions, every rounding mode in force on entry, both precisions", "Whether a rounding direction is honoured only shows for results that are inexact at the working precision, and whether the mode in force leaks in only shows when the caller runs in a non-default mode; tests call the primitives in the default mode on few values.",
  ["source/numeric/floatdp.hpp", "source/numeric/floatdp.cpp", "source/numeric/floatmp.hpp", "source/numeric/floatmp.cpp", "source/numeric/double.cpp", "source/numeric/float_operations.hpp"],
  [("hardware rounding wrappers", "source/numeric/floatdp.hpp"), ("MPFR wrappers", "source/numeric/floatmp.cpp")],
  "abstract interpretation to normal forms per rounding direction and entry mode", "Static: every primitive is summarised for each direction x entry mode and its normal form compared with the named operation rounded in that direction; undecided summaries are counted in the evidence. The polynomial kernels inside double.cpp are treated as rounded primitives here.")
P("N07", "Number operations restore the rounding mode",
  "A number, algebra, geometry or symbolic operation that changes the floating-point rounding mode internally (hardware or multiple-precision default) has restored it to the value found on entry whenever it returns normally. A caller's own rounding mode is therefore never disturbed by calling the library's numeric operations.",
  ["inputs", "histories"], "all normally returning paths of all functions that can reach a mode change, for any mode in force on entry", "Tests run in the default mode and would only notice a leaked mode through a later, unrelated operation being rounded differently in the last bit.",
  ["source/numeric/rounding.hpp", "source/numeric/floatdp.cpp", "source/numeric/floatmp.cpp", "source/numeric/floatdp.hpp", "source/numeric/double.cpp"],
  [("save/set/restore of the hardware mode", "source/numeric/floatdp.hpp"), ("save/set/restore of the MPFR mode", "source/numeric/floatmp.cpp")],
  "interprocedural typestate dataflow analysis", "Static typestate analysis over all paths; functions whose state cannot be tracked are undecided and counted, not claimed.")

P("L01", "Logical values follow Kleene's three-valued tables",
  "Connectives, queries and conversions of the logical types follow Kleene's three-valued tables: a definite answer is given only when it is implied by the operands, and it is given whenever the result type can express it. One-sided types never claim the other side, and effective predicates, infinite disjunctions and conjunctions, and nondeterministic choice answer definitely only on definite evidence.",
  ["inputs"], "all operand values, connectives and logical classes, every effort", "The tests sample a few connective/class/value combinations; there are several hundred combinations of class, operator and operand value, and a wrong indeterminate case looks like an ordinary answer.",
  ["source/numeric/logical.hpp", "source/numeric/logical.decl.hpp", "source/numeric/logical.cpp", "source/numeric/sequence.hpp"],
  [("validated logical values", "source/numeric/logical.hpp"), ("effective predicates", "source/numeric/logical.cpp")],
  "exhaustive constant propagation over the finite logical domain", "Static: every operation is interpreted abstractly for every combination of finite operand values; infinitary operations by a guarded-return rule over all their paths.")

P("E01", "Exact numbers compute exactly",
  "Arithmetic, lattice, comparison, rounding-to-integer and conversion operations on integers, dyadic, rational and decimal numbers return exactly the mathematical result, for every finite operand and for infinite operands where the result is defined, and rationals are always left in lowest terms. Interval and ball numbers with exact ends enclose every possible result and answer comparisons definitely only when the answer holds for every value they represent.",
  ["inputs"], "all operand values including zero, negative, huge and infinite ones, all overloads and mixed operand types", "The tests evaluate each operation on a few small positive numbers; infinite, negative, extreme built-in and mixed-class operands and unreduced fractions are hardly sampled.",
  ["source/numeric/integer.hpp", "source/numeric/integer.cpp", "source/numeric/dyadic.hpp", "source/numeric/dyadic.cpp", "source/numeric/rational.hpp", "source/numeric/rational.cpp", "source/numeric/decimal.hpp", "source/numeric/decimal.cpp", "source/numeric/extended.hpp"],
  [("rational arithmetic and comparison", "source/numeric/rational.cpp"), ("dyadic arithmetic", "source/numeric/dyadic.cpp"), ("integer construction and division", "source/numeric/integer.cpp")],
  "abstract interpretation to exact terms, decided on order/sign/special-value patterns", "Static: every operation is summarised as exact terms over its operands and compared with the named mathematical operation on every order, sign and special-value pattern; calls to other public operations are replaced by their own obligations.")

P("T01", "Taylor-model algebra encloses the exact functions",
  "Adding, subtracting, negating and multiplying Taylor models, adding or multiplying by a number, creating constants, and sweeping or simplifying a model (under any sweeping policy) give a model whose polynomial and error bound enclose the exact operation on every function the operands enclose. Every rounding of a coefficient, every discarded term and every cross term with an operand's error is added to the recorded error, and the norm of a model bounds every function it encloses on the unit box.",
  ["inputs", "histories"], "all polynomials (any number of terms and variables), error bounds and scalars, every sweeping decision, both precisions", "The tests compare a handful of small models with hand-computed results; an unaccounted rounding or cross term is of the order of the last bit or needs an operand with a non-zero error, so the sampled enclosures still contain the expected values.",
  ["source/function/taylor_model.hpp", "source/function/taylor_model.tpl.hpp", "source/algebra/sweeper.hpp"],
  [("coefficient arithmetic with error accumulation", "source/function/taylor_model.tpl.hpp"), ("product of models", "source/function/taylor_model.tpl.hpp"), ("sweepers", "source/function/taylor_model.tpl.hpp")],
  "abstract interpretation with inductive loop summaries over an algebraic ledger domain", "Static: loops over terms are summarised by induction, so the result holds for any number of terms; the obligations are the coefficient helpers, sweepers, ring operations, constants and the norm. One recorded finding (scaling by a bounded number).")

SYM_ASSUME = "values are compared at sample points of the free symbols of the derived terms (random evaluation of an identity between closed-form terms), not by an algebraic decision procedure"
SYM_FILES = ["source/symbolic/expression.cpp", "source/symbolic/expression.tpl.hpp", "source/symbolic/templates.tpl.hpp", "source/function/formula.cpp", "source/function/formula.tpl.hpp", "source/numeric/operators.hpp"]
SYM_LEVEL = "Static: one obligation per tree class, entry point and root operator; recursive calls on subtrees are replaced by their own obligation (structural induction), so the result holds for trees of any size. The resulting closed-form terms are compared with the mathematical operation by evaluating the identity at sample points on every path."
P("S01", "Symbolic differentiation gives the derivative",
  "The derivative of a symbolic expression or formula with respect to a variable or coordinate, taken at any point where the expression is differentiable, equals the mathematical derivative of the function that the expression denotes. This holds for every operator and every nesting, and non-smooth operators (absolute value, maximum, minimum) are refused rather than differentiated wrongly.",
  ["inputs"], "all expression trees of all coefficient types, all variables, all points of differentiability", "The tests differentiate a few polynomials and compare the resulting trees; most elementary operators and mixed constant/subtree forms are never differentiated.",
  SYM_FILES, [("differentiation rules by operator", "source/symbolic/templates.tpl.hpp"), ("operator derivatives", "source/numeric/operators.hpp"), ("derivative of an expression", "source/symbolic/expression.cpp"), ("derivative of a formula", "source/function/formula.tpl.hpp")],
  "abstract interpretation by structural induction over tree constructors", SYM_LEVEL)
P("S02", "Rewriting a symbolic expression preserves its value",
  "Simplifying an expression or formula, eliminating its common subexpressions, substituting for a variable or coordinate, and converting an expression to a formula over a space give a result which, wherever the original has a value, has that same value (for substitution: the value of the original with the variable taking the substituted value). Two expressions are reported identical only if they have the same value everywhere, and the ordering used to look up common subexpressions never confuses different expressions.",
  ["inputs"], "all expression trees of all coefficient types and all values of their variables", "The tests rewrite a handful of trees; a rewrite that is wrong only for negative, zero or special constant arguments or for a rarely used operator is not sampled.",
  SYM_FILES, [("simplification rules", "source/symbolic/templates.tpl.hpp"), ("substitution", "source/symbolic/templates.tpl.hpp"), ("common subexpressions", "source/symbolic/expression.tpl.hpp"), ("conversion to formulae", "source/symbolic/expression.cpp")],
  "abstract interpretation by structural induction over tree constructors", SYM_LEVEL)
P("S03", "Structural queries on expressions are never wrongly affirmative",
  "When an expression or formula is reported to be constant in, affine in, polynomial in or additive in given variables or coordinates, the function it denotes really has that form. A negative answer may be conservative.",
  ["inputs"], "all expression trees and all sets of variables", "The tests query a few polynomials; wrong affirmative answers for rarely combined operators (powers, quotients, lattice operations, constants on the left) are not sampled, and callers silently drop terms on a wrong answer.",
  ["source/symbolic/templates.tpl.hpp", "source/symbolic/expression.cpp", "source/function/formula.cpp"], [("is_constant_in / is_affine_in / is_polynomial_in", "source/symbolic/templates.tpl.hpp"), ("is_additive_in", "source/symbolic/expression.cpp")],
  "abstract interpretation by structural induction, judged in a polynomial-degree domain", SYM_LEVEL)
P("S04", "Expressions denote and evaluate to the operations they are built from",
  "Applying an arithmetic, elementary, comparison or logical operation to expressions or formulae (including mixed constant and in-place forms) builds an expression which, when evaluated at a point, gives that operation applied to the values of the arguments, whichever evaluation route is used. The indicator of a predicate is positive where the predicate holds and negative where it fails (the reverse for the negative indicator), and predicates are reported opposite only if each is the negation of the other.",
  ["inputs"], "all expression trees, all operators and operand forms, all evaluation points", "The tests evaluate a few expressions at one or two points, where many wrong operators or operand orders give the same or no noticeable difference, and most operand-type combinations are never built.",
  SYM_FILES + ["source/algebra/operations.hpp", "source/function/formula.hpp"], [("expression builders", "source/symbolic/expression.cpp"), ("formula builders", "source/algebra/operations.hpp"), ("evaluation", "source/symbolic/templates.tpl.hpp"), ("indicator", "source/symbolic/expression.cpp")],
  "abstract interpretation by structural induction over tree constructors", SYM_LEVEL)

P("P01", "Compiled procedures compute and invert the formula they come from",
  "A straight-line procedure compiled from one or several formulae gives, when evaluated, the values of the formulae, and its reverse-mode gradient is the gradient of the formula. Reducing a box of arguments by back-propagating a bound on the result never discards a point of the box whose value satisfies the bound, whatever operators the procedure contains.",
  ["inputs"], "all formulae, all operators and operand forms (including constants on the left, powers and repeated operands), all points and boxes", "The tests compile two or three polynomials; most operators are never back-propagated or differentiated in reverse, and a reduction that is too tight only shows for points on another branch of the inverse.",
  ["source/function/procedure.tpl.hpp", "source/function/procedure.hpp", "source/function/procedure.cpp", "source/function/formula.hpp", "source/numeric/operators.hpp"],
  [("conversion from formulae", "source/function/procedure.tpl.hpp"), ("execution", "source/function/procedure.tpl.hpp"), ("reverse differentiation", "source/function/procedure.tpl.hpp"), ("domain reduction", "source/function/procedure.cpp")],
  "abstract interpretation per instruction with opaque operands (induction over the instruction list)", "Static: one obligation per instruction kind, operator and number class, plus the driving loops; both argument evaluation orders are considered for the conversion.")

P("G02", "Interval extensions of functions enclose every value",
  "An arithmetic, lattice or elementary operation applied to over-approximating intervals (or to an interval and a number) gives an interval containing the operation of every pair of values of its arguments at which the operation is defined, at both precisions. Comparisons between such intervals are definite only if they hold for every pair of values.",
  ["inputs"], "all interval ends including negative, zero, straddling, unbounded and degenerate ones, both precisions, all operand forms", "The tests check a few intervals with friendly ends; an end rounded inward or a missing sign case shows only in the last bit or for particular sign patterns.",
  ["source/geometry/interval.hpp", "source/geometry/interval.inl.hpp", "source/geometry/interval.cpp", "source/numeric/float_bounds.hpp"],
  [("interval operations", "source/geometry/interval.cpp"), ("mixed operands", "source/geometry/interval.hpp")],
  "abstract interpretation (value numbering) + rounding/monotonicity/sign rules", NUM_LEVEL)

P("G01", "Interval and box predicates and set operations have their meaning",
  "The predicates relating intervals, boxes and points (equality, emptiness, membership, subset, inside, covers, disjoint, intersects, separated, overlaps) say exactly what they mean for the sets of real numbers their ends describe, whatever kind of number the ends are, and a definite answer is only given for over- or under-approximating ends if it holds. Constructors, hull, intersection, product, projection, splitting, midpoint, radius, width, volume, widening and the conversions between kinds of box give the interval or box they stand for.",
  ["inputs"], "all nonempty intervals and boxes (every weak ordering of the ends, including degenerate and infinite ones), all kinds of end, dimensions 0 to 3", "The tests compare a few pairs of intervals of one or two kinds; a strict comparison that should not be strict, or one dimension or end left out, only shows for touching sets or in particular orderings.",
  ["source/geometry/interval.hpp", "source/geometry/interval.inl.hpp", "source/geometry/interval.cpp", "source/geometry/box.hpp", "source/geometry/box.inl.hpp", "source/geometry/box.tpl.hpp", "source/geometry/box.cpp"],
  [("interval predicates", "source/geometry/interval.inl.hpp"), ("boxes", "source/geometry/box.hpp"), ("widening", "source/geometry/interval.cpp")],
  "abstract interpretation over opaque ends; comparison summaries decided on all weak orderings of the ends", "Static: every instantiated predicate, operation and query is summarised over opaque ends; the summaries contain order comparisons only, and the finitely many orderings decide them.")

P("A01", "Linear algebra computes the operations it names, rigorously",
  "Sums, differences, scalings, products, norms, transposes, joins, rows, columns, ranges, element access and assignment, equality and conversions of vectors, covectors and full, diagonal, symmetric and permutation matrices are the operations of linear algebra, in every composition and aliasing the interface offers. Inverses and solutions of linear equations are exact over exact numbers, and over bounds contain the solution of every system within them; triangular and orthogonal decompositions recombine to the matrix and their factors have the stated form.",
  ["inputs"], "all entries and the sizes for which the loops unroll differently", "The tests use a few square matrices with exact entries and point-like bounds; a wrong index for rectangular shapes, a second pivot exchange, or a solver which replaces bounds by their midpoint passes them.",
  ["source/algebra/vector.hpp", "source/algebra/covector.hpp", "source/algebra/matrix.hpp", "source/algebra/matrix.tpl.hpp", "source/algebra/matrix.cpp", "source/algebra/diagonal_matrix.hpp", "source/algebra/symmetric_matrix.hpp"],
  [("matrix kernels and solvers", "source/algebra/matrix.tpl.hpp"), ("matrix operations", "source/algebra/matrix.hpp")],
  "abstract interpretation of the expression templates and solvers over opaque entries; result terms compared with linear algebra by evaluation", "Static: every operation is summarised through the library code at concrete small sizes (up to 4) with opaque entries; alarms only with entries which satisfy the path and refute.")

P("D01", "Differentials and power series carry the Taylor coefficients",
  "Arithmetic, elementary functions, integer powers, composition, derivatives and antiderivatives of differentials in one or several variables, of first- and second-order differentials and of graded power series give exactly the Taylor coefficients, up to the degree of the result, of the function obtained by the operation, whatever terms the operands store and whether or not they are the same object, and leave the operands unchanged. Constants, variables, affine maps, values, gradients and Hessians read and write the coefficients their names state.",
  ["inputs"], "all coefficients, for each small number of arguments, degree and pattern of stored terms", "The tests compare a few operations at degree two or three and one point; a wrong coefficient at a higher degree, a second derivative of one operation, or an operand with missing terms does not show.",
  ["source/algebra/differential.hpp", "source/algebra/differential.tpl.hpp", "source/algebra/univariate_differential.hpp", "source/algebra/univariate_differential.tpl.hpp", "source/algebra/fixed_differential.hpp", "source/algebra/fixed_univariate_differential.hpp", "source/algebra/graded.hpp", "source/algebra/series.hpp"],
  [("multivariate differentials", "source/algebra/differential.tpl.hpp"), ("series of elementary functions", "source/algebra/series.hpp"), ("second-order differentials", "source/algebra/fixed_differential.hpp"), ("graded series", "source/algebra/graded.hpp")],
  "abstract interpretation of the differential and series code over opaque coefficients; each coefficient of the result compared with the Taylor coefficient by evaluation", "Static: one obligation per operation and class, at degrees up to 4 and up to 3 arguments with dense and sparse operands; alarms only with coefficients which satisfy the path and refute.")

P("R01", "Bounds and decisions on effective reals are rigorous",
  "A real number built from constants, arithmetic, elementary and lattice operations, limits of fast-converging sequences and case distinctions delivers, at every effort, precision or accuracy, bounds which contain the number it denotes; bounds to an accuracy have at most that radius, and bounds of a limit tighten with the effort. Comparisons, sign tests, threshold decisions and choices on reals give a definite answer only when it is right, and conversions to lower, upper, naive, positive and validated reals and to floating-point classes keep the value and vouch only for the side their class names.",
  ["inputs", "histories"], "all reals, operations, conversions and requested precisions", "The tests evaluate a handful of constants at one or two precisions with tolerances; a bound off in the last place, a limit whose error term is wrong at some effort, or a decision taken from the wrong end of the bounds passes them.",
  ["source/numeric/real.cpp", "source/numeric/real.hpp", "source/numeric/lower_real.hpp", "source/numeric/upper_real.hpp", "source/numeric/naive_real.hpp", "source/numeric/validated_real.hpp"],
  [("effective reals", "source/numeric/real.cpp"), ("real classes", "source/numeric/real.hpp")],
  "abstract interpretation of each function over opaque reals with adversarial bounds (virtual interface by contract), compared with the denoted number by evaluation", "Static: one obligation per function or constructor, over concrete efforts 0, 1, 3, 5 and symbolic values and slacks; alarms only with a refuting assignment.")

P("B01", "Operations on subdivision trees are the set operations",
  "A binary subdivision tree stands for the union of the cells of its enabled leaves, and copying, uniting, intersecting, subtracting, splitting, refining to a depth, recombining, re-rooting, and writing to and reading from words give exactly the tree of the specified set of cells, leaving other operands unchanged. The queries (emptiness, fullness, containment of a cell, subset, intersection, depth, number of enabled leaves) answer for that set, and every operation leaves a well-formed tree that shares no node with another and refers to none that was destroyed.",
  ["inputs", "histories"], "all trees of any depth and shape, all paths", "The tests build trees of three or four leaves; combinations of leaf and inner nodes on the two sides, and the state left behind for the next operation, are not covered.",
  ["source/geometry/binary_tree.cpp", "source/geometry/binary_tree.hpp", "source/geometry/grid_paving.cpp"],
  [("tree operations", "source/geometry/binary_tree.cpp"), ("nodes", "source/geometry/binary_tree.hpp"), ("relating trees along a path", "source/geometry/grid_paving.cpp")],
  "abstract interpretation by structural induction (subtrees opaque, recursive calls replaced by their specification)", "Static: one obligation per function, over every combination of leaf and inner nodes at the root and paths up to two steps.")

P("B02", "Grid pavings: set operations and approximations are exact",
  "Adjoining, removing, restricting, joining, intersecting and subtracting pavings or cells on a common grid gives the paving of the specified set of cells, and subset and intersection tests answer for these sets, whatever primary cells and paths the operands are rooted at. Adjoining an outer, inner or lower approximation of a set keeps the enabled cells and adds cells which cover the set, lie inside it, or all meet it, respectively; and a definite answer that a paving covers, lies inside, is separated from or overlaps a box is right.",
  ["inputs", "histories"], "all pavings with any trees, rooted at any primary cells and paths; all sets whose predicates answer soundly, including indeterminately", "The tests use a handful of pavings and one grid; mistakes in aligning operands rooted at different primary cells, or in handling an undecided answer of a set, do not show there.",
  ["source/geometry/grid_paving.cpp", "source/geometry/grid_paving.hpp", "source/geometry/grid_cell.hpp", "source/utility/binary_word.hpp"],
  [("set operations", "source/geometry/grid_paving.cpp"), ("approximations", "source/geometry/grid_paving.cpp"), ("primary cells and paths", "source/geometry/grid_cell.hpp")],
  "abstract interpretation by structural induction over trees, at enumerated alignments of the operands", "Static: one obligation per function, over leaf and inner root nodes, all extents 0..2 (one dimension) or 0..1 (two dimensions) and short root paths.")

N("Q01", "Enclosures converge when precision and effort grow",
  "Bounds on a real number, a function value or a function range become arbitrarily narrow as the requested precision, accuracy or effort increases and the argument narrows, unless the function is discontinuous there. Requesting more never makes a converging computation stop improving.",
  ["inputs"], "all real numbers and functions, all sequences of precisions", "Tests evaluate at two or three precisions; convergence is a statement about the limit.",
  ["source/numeric/real.cpp", "source/function/taylor_model.tpl.hpp", "source/function/function.cpp"],
  [("evaluation of reals at increasing precision", "source/numeric/real.cpp"), ("sweeping and remainder of models", "source/function/taylor_model.tpl.hpp")],
  "The width of a result is a quantitative function of run-time coefficients, cancellation and the sweeping threshold; no static bound on it is in reach. Only soundness of each enclosure (N01-N05, T01, S01, R01) and the accuracy contract of effective reals (R01) are decided.")

N("Q02", "Solvers, integrators and propagation loops terminate with a result",
  "Root finding, flow integration, constraint propagation, feasibility and optimisation return an answer or report failure after finitely many steps for every input, and report failure only when the stated existence conditions are not met.",
  ["inputs", "histories"], "all systems, domains, tolerances and step sizes", "Tests solve a few well-conditioned problems; termination and success depend on the contraction rate of each problem.",
  ["source/solvers/solver.cpp", "source/solvers/integrator.cpp", "source/solvers/constraint_solver.cpp", "source/solvers/nonlinear_programming.cpp"],
  [("Newton and Krawczyk iteration", "source/solvers/solver.cpp"), ("bounding and flow steps", "source/solvers/integrator.cpp")],
  "Loop exits depend on run-time widths against tolerances, so a ranking argument needs the numerical contraction rate; these sources are also not part of the build available here (their submodule headers are absent).")

N("Q03", "Computed reachable sets enclose every trajectory",
  "The sets returned by solvers, vector-field, map and hybrid evolvers and by the reachability analyser contain every exact solution from the initial set up to the given time, including all enabled discrete transitions.",
  ["inputs", "histories"], "all systems, initial sets, times and configuration options", "Tests run a few example systems with plotting; a lost branch of an evolution is visible only by comparison with all trajectories.",
  ["source/dynamics/vector_field_evolver.cpp", "source/hybrid/hybrid_evolver.cpp", "source/dynamics/enclosure.cpp", "source/dynamics/reachability_analyser.cpp"],
  [("continuous evolution steps", "source/dynamics/vector_field_evolver.cpp"), ("crossings and discrete transitions", "source/hybrid/hybrid_evolver.cpp")],
  "These sources include headers from git submodules that are absent in this sandbox, so the compiler cannot type-check them and no analysis over the type-checked program is possible; the operations on which they rest (Taylor models, procedures, boxes, constraint contraction, pavings) are decided by T01, P01, G01, G02, B01 and B02.")
