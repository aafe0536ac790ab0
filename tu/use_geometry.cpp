// Instantiates the predicates and operations of intervals and boxes for every kind of end.  Nothing here is ever run.
#include "numeric/numeric.hpp"
#include "numeric/floats.hpp"
#include "numeric/float_bounds.hpp"
#include "numeric/float_ball.hpp"
#include "numeric/float_lower_bound.hpp"
#include "numeric/float_upper_bound.hpp"
#include "numeric/float_approximation.hpp"
#include "numeric/float_error.hpp"
#include "algebra/vector.hpp"
#include "algebra/range.hpp"
#include "geometry/interval.hpp"
#include "geometry/point.hpp"
#include "geometry/box.hpp"
#include "geometry/box.tpl.hpp"
using namespace Ariadne;
template class Ariadne::Interval<Real>;
template<class T> T& val();
template<class A> inline constexpr bool generic=false;
template<> inline constexpr bool generic<Interval<Dyadic>> = true; template<> inline constexpr bool generic<Interval<Rational>> = true; template<> inline constexpr bool generic<Interval<Real>> = true;
template<class I> inline constexpr bool generic<Box<I>> = generic<I>;
#define BINARY(OP) if constexpr (requires(A const& a, B const& b){ OP(a,b); }) { (void)OP(val<const A>(),val<const B>()); }
#define UNARY(OP) if constexpr (requires(A const& a){ OP(a); }) { (void)OP(val<const A>()); }
#define MEMBER(OP) if constexpr (requires(A const& a){ a.OP(); }) { (void)val<const A>().OP(); }
#define MEMBER1(OP) if constexpr (requires(A const& a, B const& b){ a.OP(b); }) { (void)val<const A>().OP(val<const B>()); }
#define INFIX(OP) if constexpr (requires(A const& a, B const& b){ a OP b; }) { (void)(val<const A>() OP val<const B>()); }
template<class A, class B> inline constexpr bool hullable=true;
template<class I> inline constexpr bool hullable<Box<I>,Point<FloatDPBounds>> = false; template<class I> inline constexpr bool hullable<Box<I>,Point<FloatDPApproximation>> = false;
template<class I> inline constexpr bool hullable<Point<FloatDPBounds>,Box<I>> = false; template<class I> inline constexpr bool hullable<Point<FloatDPApproximation>,Box<I>> = false;
template<class A, class B> void relate() {
    if constexpr (not generic<A>) { BINARY(equal) } BINARY(subset) BINARY(superset) BINARY(disjoint) BINARY(intersect) BINARY(separated) BINARY(overlap) BINARY(inside) BINARY(covers)
    BINARY(intersection) if constexpr (hullable<A,B>) { BINARY(hull) } INFIX(==) INFIX(!=)
    BINARY(contains) BINARY(element)
    MEMBER1(contains) MEMBER1(intersects) MEMBER1(disjoint) MEMBER1(subset) MEMBER1(superset) MEMBER1(covers) MEMBER1(overlaps) MEMBER1(inside) MEMBER1(separated)
    if constexpr (requires(A const& a, B const& b){ B(a); }) { if constexpr (not std::is_same_v<A,B>) { (void)B(val<const A>()); } }
}
template<class A> void queries() {
    UNARY(is_empty) UNARY(is_singleton) UNARY(centre) UNARY(midpoint) if constexpr (not generic<A>) { UNARY(is_bounded) UNARY(radius) MEMBER(is_bounded) MEMBER(radius) UNARY(radii) } UNARY(width) UNARY(lower_bound) UNARY(upper_bound)
    UNARY(widths) UNARY(measure) UNARY(volume) UNARY(lower_bounds) UNARY(upper_bounds) UNARY(split) UNARY(widen_domain) UNARY(cast_singleton) UNARY(cast_exact) UNARY(cast_exact_interval) UNARY(cast_exact_box)
    MEMBER(is_empty) MEMBER(is_singleton) MEMBER(centre) MEMBER(midpoint) MEMBER(width) MEMBER(lower_bound) MEMBER(upper_bound)
    MEMBER(radii) MEMBER(widths) MEMBER(measure) MEMBER(volume) MEMBER(semiperimeter) MEMBER(lower_bounds) MEMBER(upper_bounds) MEMBER(split) MEMBER(bounding_box) MEMBER(dimension) MEMBER(create_zero) MEMBER(size)
    if constexpr (requires(A const& a){ split(a,SplitPart::LOWER); }) { (void)split(val<const A>(),val<const SplitPart>()); }
    if constexpr (requires(A const& a){ a.split(SplitPart::LOWER); }) { (void)val<const A>().split(val<const SplitPart>()); }
    if constexpr (requires(A const& a){ a.split(SizeType(0u)); }) { (void)val<const A>().split(val<const SizeType>()); (void)val<const A>().split(val<const SizeType>(),val<const SplitPart>()); (void)split(val<const A>(),val<const SizeType>()); (void)split(val<const A>(),val<const SizeType>(),val<const SplitPart>()); }
}
template<class A> void make_intervals() {
    (void)A::empty_interval(); (void)A::unit_interval(); (void)A::biinfinite_interval();
    using L=typename A::LowerBoundType; using U=typename A::UpperBoundType; (void)A(val<const L>(),val<const U>());
    val<A>().set_lower_bound(val<const L>()); val<A>().set_upper_bound(val<const U>()); val<A>().set_bounds(val<const L>(),val<const U>());
}
template<class I> void boxes() {
    using A=Box<I>; SizeType const& n=val<const SizeType>();
    (void)A::unit_box(n); (void)A(n); (void)A(n,val<const I>()); (void)product(val<const A>(),val<const A>()); (void)product(val<const A>(),val<const I>()); (void)A::_product(val<const I>(),val<const A>());
    (void)product(val<const A>(),val<const A>(),val<const A>()); (void)product(val<const A>(),val<const I>(),val<const A>()); (void)join(val<const A>(),val<const I>(),val<const A>()); (void)join(val<const A>(),val<const A>(),val<const A>());
    (void)remove(val<const A>(),n); (void)project(val<const A>(),val<const Array<SizeType>>()); (void)project(val<const A>(),val<const Range>()); (void)val<const A>()[val<const Range>()]; (void)val<const A>()[n]; (void)val<A>()[n];
    if constexpr (requires { A::_product(val<const A>(),val<const A>()); }) { (void)A::_product(val<const A>(),val<const A>()); }
}
template<class U, class V> void pairs() { relate<Interval<U>,Interval<V>>(); relate<Box<Interval<U>>,Box<Interval<V>>>(); }
template<class U> void kinds() {
    using I=Interval<U>; queries<I>(); queries<Box<I>>(); pairs<U,U>(); boxes<I>(); make_intervals<I>();
}
template<class U, class X> void points() { relate<Interval<U>,X>(); relate<X,Interval<U>>(); relate<Box<Interval<U>>,Point<X>>(); relate<Point<X>,Box<Interval<U>>>(); relate<Vector<X>,Box<Interval<U>>>(); relate<Box<Interval<U>>,Vector<X>>(); }
template<class A> void refined() { using B=A; BINARY(refines) BINARY(refinement) BINARY(same) }
template<class A, class B> void widened() { (void)widen(val<const A>(),val<const B>()); (void)widen(val<const A>()); }
template<class A, class B> void narrowed() { (void)narrow(val<const A>(),val<const B>()); (void)narrow(val<const A>()); }
void all() {
    kinds<FloatDP>(); kinds<FloatDPUpperBound>(); kinds<FloatDPLowerBound>(); kinds<FloatDPApproximation>(); kinds<Dyadic>(); kinds<Rational>(); kinds<Real>();
    pairs<FloatDP,FloatDPUpperBound>(); pairs<FloatDPUpperBound,FloatDP>(); pairs<FloatDPLowerBound,FloatDP>(); pairs<FloatDP,FloatDPLowerBound>(); pairs<FloatDP,FloatDPApproximation>();
    pairs<FloatDPLowerBound,FloatDPUpperBound>(); pairs<FloatDPUpperBound,FloatDPLowerBound>(); pairs<FloatDPUpperBound,FloatDPApproximation>();
    pairs<Real,Dyadic>(); pairs<Dyadic,Real>(); pairs<Real,FloatDP>(); pairs<Dyadic,FloatDP>(); pairs<FloatDP,Dyadic>(); pairs<Rational,Dyadic>(); pairs<Dyadic,Rational>();
    points<FloatDP,FloatDP>(); points<FloatDP,FloatDPBounds>(); points<FloatDP,FloatDPApproximation>(); points<FloatDPUpperBound,FloatDP>(); points<FloatDPUpperBound,FloatDPBounds>(); points<FloatDPApproximation,FloatDPApproximation>();
    points<Dyadic,Dyadic>(); points<Rational,Rational>(); points<Real,Real>(); points<Real,Dyadic>();
    refined<FloatDPUpperInterval>(); refined<FloatDPUpperBox>(); (void)same(val<const Box<FloatDPUpperInterval>>(),val<const Box<FloatDPUpperInterval>>());
    widened<FloatDPUpperInterval,FloatDPUpperBound>(); narrowed<FloatDPLowerInterval,FloatDPUpperBound>(); widened<FloatDPUpperBox,FloatDPUpperBound>(); narrowed<FloatDPLowerBox,FloatDPUpperBound>();
    (void)widen(val<const FloatDPApproximateBox>(),val<FloatDPApproximation>()); (void)widen(val<const FloatDPExactBox>(),val<FloatDP>()); (void)widen_domain(val<const FloatDPUpperBox>());
}
