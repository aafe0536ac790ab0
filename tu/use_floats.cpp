// Instantiates the arithmetic, comparison and conversion functions of the concrete
// number classes for every combination of argument classes, so that their bodies are
// part of the analysed program.  Nothing here is ever run.
#include "numeric/numeric.hpp"
#include "numeric/floats.hpp"
#include "numeric/float_bounds.hpp"
#include "numeric/float_ball.hpp"
#include "numeric/float_lower_bound.hpp"
#include "numeric/float_upper_bound.hpp"
#include "numeric/float_approximation.hpp"
#include "numeric/float_error.hpp"
#include "numeric/float_bounds.tpl.hpp"
#include "numeric/float_bounds.inl.hpp"
#include "numeric/float_ball.tpl.hpp"
#include "numeric/float_lower_bound.tpl.hpp"
#include "numeric/float_upper_bound.tpl.hpp"
#include "numeric/float_approximation.tpl.hpp"
#include "numeric/float_error.tpl.hpp"
using namespace Ariadne;

template<class T> T& val();

#define UNARY(OP) if constexpr (requires(A const& a){ OP(a); }) { (void)OP(val<const A>()); }
#define BINARY(OP) if constexpr (requires(A const& a, B const& b){ OP(a,b); }) { (void)OP(val<const A>(),val<const B>()); }
#define INFIX(OP) if constexpr (requires(A const& a, B const& b){ a OP b; }) { (void)(val<const A>() OP val<const B>()); }
#define INPLACE(OP) if constexpr (requires(A& a, B const& b){ a OP b; }) { (void)(val<A>() OP val<const B>()); }
#define METHOD(M) if constexpr (requires(A const& a){ a.M(); }) { (void)val<const A>().M(); }

template<class A> void unary() {
    UNARY(nul) UNARY(pos) UNARY(neg) UNARY(hlf) UNARY(sqr) UNARY(rec) UNARY(sqrt) UNARY(exp) UNARY(log)
    UNARY(sin) UNARY(cos) UNARY(tan) UNARY(asin) UNARY(acos) UNARY(atan) UNARY(abs) UNARY(mag) UNARY(mig)
    UNARY(operator+) UNARY(operator-) UNARY(sgn) UNARY(is_nan) 
    if constexpr (requires(A const& a){ +a; }) { (void)(+val<const A>()); }
    if constexpr (requires(A const& a){ -a; }) { (void)(-val<const A>()); }
    if constexpr (requires(A const& a){ pow(a,2u); }) { (void)pow(val<const A>(),val<const unsigned int>()); }
    if constexpr (requires(A const& a){ pow(a,2); }) { (void)pow(val<const A>(),val<const int>()); }
    METHOD(lower) METHOD(upper) METHOD(value) METHOD(error) METHOD(lower_raw) METHOD(upper_raw) METHOD(value_raw) METHOD(error_raw) METHOD(raw)
    METHOD(radius)
    UNARY(cast_exact) UNARY(cast_positive) UNARY(make_bounds) UNARY(make_singleton)
    if constexpr (requires(A const& a){ trunc(a,2u); }) { (void)trunc(val<const A>(),val<const unsigned int>()); }
}
template<class A, class B> void binary() {
    BINARY(add) BINARY(sub) BINARY(mul) BINARY(div) BINARY(max) BINARY(min)
    INFIX(+) INFIX(-) INFIX(*) INFIX(/)
    INPLACE(+=) INPLACE(-=) INPLACE(*=) INPLACE(/=)
    INFIX(==) INFIX(!=) INFIX(<) INFIX(>) INFIX(<=) INFIX(>=)
    BINARY(eq) BINARY(lt) BINARY(cmp) BINARY(leq)
    BINARY(same) BINARY(refines) BINARY(refinement) BINARY(models) BINARY(consistent) BINARY(inconsistent)
    if constexpr (Constructible<A,B>) { if constexpr (!Same<A,B>) { A a(val<const B>()); (void)a; } }
    if constexpr (requires(A& a, B const& b){ a=b; }) { if constexpr (!Same<A,B>) val<A>()=val<const B>(); }
    if constexpr (requires(A const& a, B const& b){ a.pm(b); }) { (void)val<const A>().pm(val<const B>()); }
    if constexpr (requires(A const& a, B const& b){ fma(a,b,a); }) { (void)fma(val<const A>(),val<const B>(),val<const A>()); }
}
template<class A, class Y, class PR> void convert() {
    if constexpr (Constructible<A,Y,PR>) { A a(val<const Y>(),val<PR>()); (void)a; }
    if constexpr (Constructible<A,Y>) { A a(val<const Y>()); (void)a; }
    if constexpr (requires(Y const& y, PR pr){ A(y,pr,pr); }) { A a(val<const Y>(),val<PR>(),val<PR>()); (void)a; }
}
template<class A, class PR> void conversions() {
    convert<A,Dyadic,PR>(); convert<A,Rational,PR>(); convert<A,Integer,PR>(); convert<A,Decimal,PR>(); convert<A,ExactDouble,PR>(); convert<A,TwoExp,PR>();
    convert<A,Real,PR>(); convert<A,ValidatedNumber,PR>(); convert<A,ValidatedLowerNumber,PR>(); convert<A,ValidatedUpperNumber,PR>(); convert<A,ApproximateNumber,PR>();
    convert<A,int,PR>(); convert<A,unsigned int,PR>(); convert<A,double,PR>();
    convert<A,FloatDP,PR>(); convert<A,FloatMP,PR>(); convert<A,FloatDPBounds,PR>(); convert<A,FloatMPBounds,PR>(); convert<A,FloatDPBall,PR>(); convert<A,FloatMPBall,PR>();
    convert<A,LowerBound<FloatDP>,PR>(); convert<A,UpperBound<FloatDP>,PR>(); convert<A,LowerBound<FloatMP>,PR>(); convert<A,UpperBound<FloatMP>,PR>();
    convert<A,Error<FloatDP>,PR>(); convert<A,Error<FloatMP>,PR>(); convert<A,Approximation<FloatDP>,PR>(); convert<A,Approximation<FloatMP>,PR>();
    if constexpr (requires(LowerBound<typename A::RawType> l, UpperBound<typename A::RawType> u) { A(l,u); }) { A a(val<const LowerBound<typename A::RawType>>(),val<const UpperBound<typename A::RawType>>()); (void)a; }
    if constexpr (requires(typename A::RawType x, Error<typename A::RawType> e) { A(x,e); }) { A a(val<const typename A::RawType>(),val<const Error<typename A::RawType>>()); (void)a; }
    if constexpr (requires(typename A::RawType x) { A(x,x); }) { A a(val<const typename A::RawType>(),val<const typename A::RawType>()); (void)a; }
    if constexpr (requires(Rational q, PR pr) { A(q,q,pr); }) { A a(val<const Rational>(),val<const Rational>(),val<PR>()); (void)a; }
    if constexpr (requires(Dyadic q, PR pr) { A(q,q,pr); }) { A a(val<const Dyadic>(),val<const Dyadic>(),val<PR>()); (void)a; }
    if constexpr (requires(ExactDouble q, PR pr) { A(q,q,pr); }) { A a(val<const ExactDouble>(),val<const ExactDouble>(),val<PR>()); (void)a; }
    if constexpr (requires(Decimal q, PR pr) { A(q,q,pr); }) { A a(val<const Decimal>(),val<const Decimal>(),val<PR>()); (void)a; }
}
template<class A, class... BS> void binaries() { (binary<A,BS>(),...); }
template<class... AS> struct All { static void run() { (unary<AS>(),...); (binaries<AS,AS...,int,unsigned int,Dyadic>(),...); } };

template<class F> void all() {
    using PR=typename F::PrecisionType;
    All<F,Bounds<F>,Ball<F>,LowerBound<F>,UpperBound<F>,Error<F>,Positive<F>,Positive<Bounds<F>>,Positive<LowerBound<F>>,Positive<UpperBound<F>>,Approximation<F>>::run();
    conversions<Bounds<F>,PR>(); conversions<Ball<F>,PR>(); conversions<LowerBound<F>,PR>(); conversions<UpperBound<F>,PR>(); conversions<Error<F>,PR>();
}
template void all<FloatDP>();
template void all<FloatMP>();
template void unary<Ball<FloatMP,FloatDP>>();
template void binary<Ball<FloatMP,FloatDP>,Ball<FloatMP,FloatDP>>();
template void conversions<Ball<FloatMP,FloatDP>,MultiplePrecision>();

template class Ariadne::Operations<Bounds<FloatDP>>;
template class Ariadne::Operations<Bounds<FloatMP>>;
template struct Ariadne::Operations<Ball<FloatDP,FloatDP>>;
template struct Ariadne::Operations<Ball<FloatMP,FloatMP>>;
template struct Ariadne::Operations<Ball<FloatMP,FloatDP>>;
