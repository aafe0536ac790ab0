"""The translation units of the library that build here."""
import os
from prog import SRC, AnalysisBroken
KNOWN = '''algebra/algebra.cpp algebra/differential.cpp algebra/expansion.cpp algebra/matrix.cpp algebra/multi_index.cpp algebra/series.cpp algebra/vector.cpp dynamics/differential_inclusion.cpp function/affine.cpp function/affine_model.cpp function/chebyshev_polynomial.cpp function/formula.cpp function/function.cpp function/function_model.cpp function/function_patch.cpp function/measurable_function.cpp function/multifunction.cpp function/polynomial.cpp function/procedure.cpp function/symbolic_function.cpp function/taylor_function.cpp function/taylor_model.cpp function/taylor_multifunction.cpp geometry/binary_tree.cpp geometry/box.cpp geometry/geometry.cpp geometry/grid.cpp geometry/grid_paving.cpp geometry/interval.cpp geometry/set.cpp numeric/complex.cpp numeric/concepts.cpp numeric/decimal.cpp numeric/double.cpp numeric/dyadic.cpp numeric/float_approximation.cpp numeric/float_ball.cpp numeric/float_bounds.cpp numeric/float_error.cpp numeric/float_literals.cpp numeric/float_lower_bound.cpp numeric/float_upper_bound.cpp numeric/floatdp.cpp numeric/floatmp.cpp numeric/int.cpp numeric/integer.cpp numeric/logical.cpp numeric/number.cpp numeric/operators.cpp numeric/rational.cpp numeric/real.cpp symbolic/expression.cpp symbolic/expression_set.cpp symbolic/space.cpp utility/stack_trace.cpp'''.split()


def tus(*pats):
    """known units whose path starts with one of the patterns"""
    r = [SRC + '/' + f for f in KNOWN if not pats or any(f.startswith(p) for p in pats)]
    miss = [f for f in r if not os.path.exists(f)]
    r = [f for f in r if f not in miss]
    if not r: raise AnalysisBroken("no translation unit left for %s" % (pats,))
    return r
