// Instantiates the arithmetic of over-approximating intervals with every operand class.  Nothing here is ever run.
#include "numeric/numeric.hpp"
#include "numeric/floats.hpp"
#include "numeric/float_bounds.hpp"
#include "numeric/float_ball.hpp"
#include "numeric/float_lower_bound.hpp"
#include "numeric/float_upper_bound.hpp"
#include "numeric/float_approximation.hpp"
#include "numeric/float_error.hpp"
#include "numeric/float_bounds.tpl.hpp"
#include "numeric/float_bounds.inl.hpp"
#include "numeric/float_lower_bound.tpl.hpp"
#include "numeric/float_upper_bound.tpl.hpp"
#include "numeric/float_error.tpl.hpp"
#include "geometry/interval.cpp"
#include "geometry/interval.hpp"
using namespace Ariadne;
template<class T> T& val();
#define UNARY(OP) if constexpr (requires(A const& a){ OP(a); }) { (void)OP(val<const A>()); }
#define BINARY(OP) if constexpr (requires(A const& a, B const& b){ OP(a,b); }) { (void)OP(val<const A>(),val<const B>()); }
#define INFIX(OP) if constexpr (requires(A const& a, B const& b){ a OP b; }) { (void)(val<const A>() OP val<const B>()); }
#define INPLACE(OP) if constexpr (requires(A& a, B const& b){ a OP b; }) { (void)(val<A>() OP val<const B>()); }
template<class A> void unary() {
    UNARY(nul) UNARY(pos) UNARY(neg) UNARY(hlf) UNARY(sqr) UNARY(rec) UNARY(sqrt) UNARY(exp) UNARY(log)
    UNARY(sin) UNARY(cos) UNARY(tan) UNARY(asin) UNARY(acos) UNARY(atan) UNARY(abs) UNARY(mag) UNARY(mig)
    UNARY(operator+) UNARY(operator-) UNARY(cast_singleton) UNARY(make_interval)
    if constexpr (requires(A const& a){ pow(a,2u); }) { (void)pow(val<const A>(),val<const unsigned int>()); }
    if constexpr (requires(A const& a){ pow(a,2); }) { (void)pow(val<const A>(),val<const int>()); }
}
template<class A, class B> void binary() {
    BINARY(add) BINARY(sub) BINARY(mul) BINARY(div) BINARY(max) BINARY(min) BINARY(eq) BINARY(lt)
    INFIX(+) INFIX(-) INFIX(*) INFIX(/) INFIX(<) INFIX(>) INFIX(<=) INFIX(>=) INFIX(==) INFIX(!=)
    INPLACE(+=) INPLACE(-=) INPLACE(*=) INPLACE(/=)
    BINARY(refines) BINARY(refinement) BINARY(same)
}
template<class A> void fmas() { if constexpr (requires(A const& a){ fma(a,a,a); }) { (void)fma(val<const A>(),val<const A>(),val<const A>()); } }
template<class PR> void ops() {
    using F=Float<PR>; using I=Interval<UpperBound<F>>;
    unary<I>(); unary<Bounds<F>>(); binary<I,I>(); fmas<I>();
    binary<I,F>(); binary<F,I>(); binary<I,Bounds<F>>(); binary<Bounds<F>,I>();
}
template void ops<DoublePrecision>();
template void ops<MultiplePrecision>();
