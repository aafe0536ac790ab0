From c3b07727f055ee5732e5b7f7ee0d27255e8f774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:27 +0000
Subject: [PATCH 01/53] fix: Decimal <= and > compared their arguments the
 wrong way round

---
 source/numeric/decimal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/numeric/decimal.hpp b/source/numeric/decimal.hpp
index 73de284..8c465b1 100644
--- a/source/numeric/decimal.hpp
+++ b/source/numeric/decimal.hpp
@@ -82,10 +82,10 @@ class Decimal
     //! \name Comparison operators
     friend Boolean operator==(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::EQUAL; } //!< <p/>
     friend Boolean operator!=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::EQUAL; } //!< <p/>
-    friend Boolean operator<=(Decimal const& d1, Decimal const& d2) { return cmp(d2,d1)!=Comparison::GREATER; } //!< <p/>
+    friend Boolean operator<=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::GREATER; } //!< <p/>
     friend Boolean operator>=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::LESS; } //!< <p/>
     friend Boolean operator< (Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::LESS; } //!< <p/>
-    friend Boolean operator> (Decimal const& d1, Decimal const& d2) { return cmp(d2,d1)==Comparison::GREATER; } //!< <p/>
+    friend Boolean operator> (Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::GREATER; } //!< <p/>
     //!@}
 
     //!@{
-- 
2.43.0


From eb9c46d26bb35ede2668a0ca24a0c74a295a0823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:27 +0000
Subject: [PATCH 02/53] fix: PositiveLowerBound / PositiveUpperBound multiplied
 instead of dividing

---
 source/numeric/float_lower_bound.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/float_lower_bound.hpp b/source/numeric/float_lower_bound.hpp
index 0249204..8954883 100644
--- a/source/numeric/float_lower_bound.hpp
+++ b/source/numeric/float_lower_bound.hpp
@@ -311,7 +311,7 @@ template<class F> class Positive<LowerBound<F>> : public LowerBound<F>
     friend PositiveLowerBound<F> operator*(PositiveLowerBound<F> const& x1, PositiveLowerBound<F> const& x2) {
         return PositiveLowerBound<F>(mul(down,x1.raw(),x2.raw())); }
     friend PositiveLowerBound<F> operator/(PositiveLowerBound<F> const& x1, PositiveUpperBound<F> const& x2) {
-        return PositiveLowerBound<F>(mul(down,x1.raw(),x2.raw())); }
+        return PositiveLowerBound<F>(div(down,x1.raw(),x2.raw())); }
     friend PositiveLowerBound<F>& operator+=(PositiveLowerBound<F>& x1, PositiveLowerBound<F> const& x2) {
         return x1=x1+x2; }
     friend PositiveLowerBound<F>& operator*=(PositiveLowerBound<F>& x1, PositiveLowerBound<F> const& x2) {
-- 
2.43.0


From c1ea84f5d4f819e99f2d56369caf4827da3f2aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:27 +0000
Subject: [PATCH 03/53] fix: Positive / PositiveLowerBound rounded its upper
 bound downward

---
 source/numeric/float_upper_bound.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/float_upper_bound.hpp b/source/numeric/float_upper_bound.hpp
index 1180d6f..b7d0cd4 100644
--- a/source/numeric/float_upper_bound.hpp
+++ b/source/numeric/float_upper_bound.hpp
@@ -342,7 +342,7 @@ template<class F> class Positive<UpperBound<F>> : public UpperBound<F>
     friend PositiveUpperBound<F> operator/(PositiveUpperBound<F> const& x1, Positive<F> const& x2) {
         return PositiveUpperBound<F>(div(up,x1.raw(),x2)); }
     friend PositiveUpperBound<F> operator/(Positive<F> const& x1, PositiveLowerBound<F> const& x2) {
-        return PositiveUpperBound<F>(div(down,x1,x2.raw())); }
+        return PositiveUpperBound<F>(div(up,x1,x2.raw())); }
     friend PositiveUpperBound<F> operator/(PositiveUpperBound<F> const& x1, Nat m2) {
         return PositiveUpperBound<F>(div(up,x1.raw(),F(m2,x1.precision()))); }
     friend PositiveLowerBound<F> operator/(Positive<F> const& x1, PositiveUpperBound<F> const& x2);
-- 
2.43.0


From cfafa8fc0153b4b209e2e3129449afc49302ff4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:27 +0000
Subject: [PATCH 04/53] fix: converting to an UpperBound of given precision
 rounded downward

---
 source/numeric/float_upper_bound.tpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/numeric/float_upper_bound.tpl.hpp b/source/numeric/float_upper_bound.tpl.hpp
index ed53c24..e71f7ec 100644
--- a/source/numeric/float_upper_bound.tpl.hpp
+++ b/source/numeric/float_upper_bound.tpl.hpp
@@ -37,8 +37,8 @@
 
 namespace Ariadne {
 
-template<class F> UpperBound<F>::UpperBound(F const& x, PR pr) : _u(x,downward,pr) {}
-template<class F> UpperBound<F>::UpperBound(Bounds<F> const& x, PR pr) : _u(x._u,downward,pr) {}
+template<class F> UpperBound<F>::UpperBound(F const& x, PR pr) : _u(x,upward,pr) {}
+template<class F> UpperBound<F>::UpperBound(Bounds<F> const& x, PR pr) : _u(x._u,upward,pr) {}
 template<class F> UpperBound<F>::UpperBound(UpperBound<F> const& x, PR pr) : _u(x._u,upward,pr) {}
 
 template<class F> UpperBound<F>::UpperBound(Bounds<F> const& x) : UpperBound<F>(x.upper_raw()) { }
-- 
2.43.0


From 9362ec32b09534312810f3aa6c04344db1b18eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:27 +0000
Subject: [PATCH 05/53] fix: Float + Bounds rounded its upper bound downward

---
 source/numeric/float_bounds.inl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/float_bounds.inl.hpp b/source/numeric/float_bounds.inl.hpp
index bc8b920..b0b64d1 100644
--- a/source/numeric/float_bounds.inl.hpp
+++ b/source/numeric/float_bounds.inl.hpp
@@ -35,7 +35,7 @@ template<class F> inline auto Operations<Bounds<F>>::_add(Bounds<F> const& x1, F
 }
 
 template<class F> inline auto Operations<Bounds<F>>::_add(F const& x1, Bounds<F> const& x2) -> Bounds<F> {
-    return Bounds<F>(add(down,x1,x2._l),add(down,x1,x2._u));
+    return Bounds<F>(add(down,x1,x2._l),add(up,x1,x2._u));
 }
 
 template<class F> inline auto Operations<Bounds<F>>::_sub(Bounds<F> const& x1, F const& x2) -> Bounds<F> {
-- 
2.43.0


From 6c4f6928c2d74561ad4db490c8ef9681fb9edc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:28 +0000
Subject: [PATCH 06/53] fix: Ball constructed from decimals ignored the
 rounding error of its value

---
 source/numeric/float_ball.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/float_ball.tpl.hpp b/source/numeric/float_ball.tpl.hpp
index 5bb60be..6206bda 100644
--- a/source/numeric/float_ball.tpl.hpp
+++ b/source/numeric/float_ball.tpl.hpp
@@ -77,7 +77,7 @@ template<class F, class FE> Ball<F,FE>::Ball(Dyadic const& w, PR pr, PRE pre) :
 template<class F, class FE> Ball<F,FE>::Ball(Rational const& q, PR pr, PRE pre) : _v(F(q,near,pr)), _e(abs(Rational(_v)-q),up,pre) {}
 
 template<class F, class FE> Ball<F,FE>::Ball(Decimal const& dv, Decimal const& de, PrecisionType pr)
-    : _v(dv,near,pr), _e(de,up,_error_precision<PRE>(pr)) { }
+    : _v(dv,near,pr), _e(Rational(de)+abs(Rational(_v)-Rational(dv)),up,_error_precision<PRE>(pr)) { }
 
 template<class F, class FE> Ball<F,FE>::Ball(Real const& r, PR pr) : Ball(r.get(pr)) {}
 template<class F, class FE> Ball<F,FE>::Ball(ValidatedNumber const& y, PR pr) : Ball(y.get(pr,_error_precision<PRE>(pr))) {}
-- 
2.43.0


From 70730a31353edf9fa55d2d25ef606420e03528b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:28 +0000
Subject: [PATCH 07/53] fix: abs of a negative Ball returned the ball itself

---
 source/numeric/float_ball.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/float_ball.hpp b/source/numeric/float_ball.hpp
index d965eb6..5154ef7 100644
--- a/source/numeric/float_ball.hpp
+++ b/source/numeric/float_ball.hpp
@@ -610,7 +610,7 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
 
 
     static Ball<F,FE> _abs(Ball<F,FE> const& x) {
-        if(x._e<abs(x._v)) { return x; }
+        if(x._e<abs(x._v)) { return Ball<F,FE>(abs(x._v),x._e); }
         else { auto rv=hlf(add(up,abs(x._v),x._e)); return Ball<F,FE>(rv,_make_error(rv)); }
     }
 
-- 
2.43.0


From baf4069e142ce6d815081e1aabfd7ecb03b41b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:28 +0000
Subject: [PATCH 08/53] fix: reciprocal of a Ball containing zero did not
 enclose all reciprocals

---
 source/numeric/float_ball.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/numeric/float_ball.hpp b/source/numeric/float_ball.hpp
index 5154ef7..fa13a1c 100644
--- a/source/numeric/float_ball.hpp
+++ b/source/numeric/float_ball.hpp
@@ -482,6 +482,8 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
     }
 
     static Ball<F,FE> _rec(Ball<F,FE> const& x) {
+        // The reciprocal is unbounded if the ball contains zero
+        if(not (x._e<abs(x._v))) { return Ball<F,FE>(nul(x._v),FE::inf(x._e.precision())); }
         // Use this code to find value same as reciprocal value
         auto rv=rec(approx,x._v);
         auto ru=rec(up,sub(down,x._v,x._e));
-- 
2.43.0


From 0bf1d21ec73be5740ad35969ceb521da3863c2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:15 +0000
Subject: [PATCH 09/53] fix: Float32 construction left the rounding mode
 changed

---
 source/numeric/floatdp.hpp | 984 +++++++++++++++++++------------------
 1 file changed, 493 insertions(+), 491 deletions(-)

diff --git a/source/numeric/floatdp.hpp b/source/numeric/floatdp.hpp
index 6020dea..a4e5bc5 100644
--- a/source/numeric/floatdp.hpp
+++ b/source/numeric/floatdp.hpp
@@ -1,491 +1,493 @@
-/***************************************************************************
- *            numeric/floatdp.hpp
- *
- *  Copyright  2008-22  Pieter Collins
- *
- ****************************************************************************/
-
-/*
- *  This file is part of Ariadne.
- *
- *  Ariadne is free software: you can redistribute it and/or modify
- *  it under the terms of the GNU General Public License as published by
- *  the Free Software Foundation, either version 3 of the License, or
- *  (at your option) any later version.
- *
- *  Ariadne is distributed in the hope that it will be useful,
- *  but WITHOUT ANY WARRANTY; without even the implied warranty of
- *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- *  GNU General Public License for more details.
- *
- *  You should have received a copy of the GNU General Public License
- *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
- */
-
-/*! \file numeric/floatdp.hpp
- *  \brief Raw floating-point number class based on double-precision floats.
- */
-
-#ifndef ARIADNE_FLOAT64_HPP
-#define ARIADNE_FLOAT64_HPP
-
-#include <iosfwd> // For std::floor std::ceil etc
-#include <cmath> // For std::floor std::ceil etc
-#include <algorithm> // For std::max, std::min
-#include <limits> // For std::numeric_limits<double>
-
-#include "utility/declarations.hpp"
-#include "numeric/operators.hpp"
-#include "numeric/rounding.hpp"
-#include "numeric/sign.hpp"
-#include "numeric/builtin.hpp"
-#include "numeric/double.hpp"
-#include "numeric/number.decl.hpp"
-#include "numeric/float.decl.hpp"
-#include "numeric/float_operations.hpp"
-
-namespace Ariadne {
-
-struct NoInit { };
-
-class Rational;
-enum class Comparison : ComparableEnumerationType;
-
-// FIXME: Returns EQUAL if either argument is NaN
-template<class X1, class X2> Comparison _generic_cmp(X1 x1, X2 x2) {
-    return x1>x2 ? Comparison::GREATER : ( x1<x2 ? Comparison::LESS : Comparison::EQUAL );
-}
-template<class OP, class X1, class X2> Comparison _generic_cmp(OP op, X1 x1, X2 x2) {
-    return op(cmp(x1,x2),Comparison::EQUAL); }
-
-//! \ingroup NumericModule
-//! \brief The precision of a FloatDP object. Since this is fixed, the class is only a tag; all objects are equal.
-//! \relates FloatDP
-class DoublePrecision {
-  public:
-    //! \brief Default constructor
-    constexpr DoublePrecision() { }
-    //! \brief <p/>
-    friend constexpr DoublePrecision max(DoublePrecision, DoublePrecision) { return DoublePrecision(); }
-    //! \brief <p/>
-    friend constexpr DoublePrecision min(DoublePrecision, DoublePrecision) { return DoublePrecision(); }
-    //! \brief <p/>
-    friend constexpr Bool operator<=(DoublePrecision, DoublePrecision) { return true; }
-    //! \brief Compare the two precisions for equality. Always \c true.
-    friend constexpr Bool operator==(DoublePrecision, DoublePrecision) { return true; }
-    //! \brief Write to an output stream. <p/>
-    friend OutputStream& operator<<(OutputStream& os, DoublePrecision) { return os << "dp"; }
-    //! \brief Write a full representation to an output stream. <p/>
-    friend OutputStream& repr(OutputStream& os, DoublePrecision) { return os << "DoublePrecision()"; }
-};
-//! \brief Shorthand for DoublePrecision.
-//! \relates DoublePrecision
-using DP = DoublePrecision;
-static const DoublePrecision double_precision = DoublePrecision();
-static const DoublePrecision dp = DP();
-
-
-template<class FLT> class Rounded;
-using RoundedFloatDP = Rounded<FloatDP>;
-
-//! \brief Shorthand for \ref Float<DP>.
-typedef Float<DP> FloatDP;
-
-//! \ingroup NumericModule
-//! \brief Floating point numbers (double precision) using rounded arithmetic. Abbreviation \ref Ariadne::FloatDP "Flobber::FloatDP".
-//! \details
-//! The \c %FloatDP class represents floating-point numbers.
-//! Unless otherwise mentioned, operations on floating-point numbers are performed approximately, with no guarantees
-//! on the output.
-//!
-//! To implement <em>rounded arithmetic</em>, arithmetical operations of \c %FloatDP can be performed with guaranteed rounding by
-//! specifying \c _up and \c _down suffixes to arithmetical functions \c add, \c sub, \c mul and \c div.
-//! Additionally, operations can be performed in the current <em>rounding mode</em> by using the \c _rnd suffix,
-//! or with rounding reversed using the \c _opp suffix.
-//! The \c _approx suffix is provided to specifically indicate that the operation is computed approximately.
-//!
-//! %Ariadne floating-point numbers can be constructed by conversion from built-in C++ types.
-//! Note that the value of a built-in floating-point value may differ from the mathematical value of the literal.
-//! For example, while <c>%FloatDP(3.25)</c> is represented exactly, <c>%FloatDP(3.3)</c> has a value of \f$3.2999999999999998224\ldots\f$.
-//! \note In the future, the construction of a \c %FloatDP from a string literal may be supported.
-//! \sa Float<MP>, Real, FloatBall, FloatBounds, FloatUpperBound, FloatLowerBound, FloatApproximation, FloatError
-template<> class Float<DP>
-    : public DeclareRoundedOperations<Float<DP>>
-{
-  public:
-    volatile double dbl;
-  public:
-    typedef ExactTag Paradigm;
-    typedef FloatDP NumericType;
-    //! \brief The abstract number class providing the same kind of information.
-    typedef ExactNumber GenericType;
-    //! \brief The type representing the precision of the number.
-    typedef DoublePrecision PrecisionType;
-    //! \brief The type representing the rounding modes available for arithmetic.
-    typedef BuiltinRoundingModeType RoundingModeType;
-  public:
-    static const RoundingModeType ROUND_TO_NEAREST = Ariadne::ROUND_TO_NEAREST;
-    static const RoundingModeType ROUND_DOWNWARD = Ariadne::ROUND_DOWNWARD;
-    static const RoundingModeType ROUND_UPWARD = Ariadne::ROUND_UPWARD;
-    static const RoundingModeType ROUND_TOWARD_ZERO = Ariadne::ROUND_TOWARD_ZERO;
-
-    static RoundingModeType get_rounding_mode(); //!< <p/>
-    static Void set_rounding_mode(RoundingModeType); //!< <p/>
-    static Void set_rounding_downward(); //!< <p/>
-    static Void set_rounding_upward(); //!< <p/>
-    static Void set_rounding_to_nearest(); //!< <p/>
-    static Void set_rounding_toward_zero(); //!< <p/>
-  public:
-    static DoublePrecision get_default_precision(); //!< <p/>
-    DoublePrecision precision() const; //!< <p/>
-    Void set_precision(DoublePrecision); //!< <p/>
-  public:
-    static FloatDP nan(DoublePrecision pr); //!< <p/>
-    static FloatDP inf(Sign sgn, DoublePrecision pr); //!< <p/>
-    static FloatDP inf(DoublePrecision pr); //!< <p/>
-
-    static FloatDP max(DoublePrecision pr); //!< <p/>
-    static FloatDP eps(DoublePrecision pr); //!< <p/>
-    static FloatDP min(DoublePrecision pr); //!< <p/>
-  private:
-    //! \brief Default constructor creates an uninitialised number.
-    Float() : dbl() { }
-    //! \brief Convert from a built-in double-precision floating-point number.
-    explicit Float(double x) : dbl(x) { }
-  public:
-    explicit Float(NoInit) : dbl() { }
-    explicit Float(DoublePrecision) : dbl() { }
-    //! \brief Convert from a built-in double-precision floating-point number.
-//    explicit Float(ExactDouble const& x);
-//    explicit Float(double x, DoublePrecision) : dbl(x) { }
-    template<BuiltinIntegral N> Float(N n, DoublePrecision) : dbl(n) { }
-    Float(ExactDouble const& x, DoublePrecision);
-    Float(TwoExp const& x, DoublePrecision);
-    Float(Dyadic const& w, DoublePrecision);
-    //! \brief Copy constructor.
-    Float(const FloatDP& x) : dbl(x.dbl) { }
-    Float(const FloatDP& x, DoublePrecision) : dbl(x.dbl) { }
-    template<BuiltinIntegral N> FloatDP& operator=(N n) {
-        return this->operator=(ExactDouble(n)); }
-    //! \brief Construct from an exact string literal.
-    explicit Float(String const& str, DoublePrecision);
-    FloatDP& operator=(const ExactDouble& x);
-    //! \brief Assignment from a dyadic number \a w. Requires \a w to be exactly representable as a double-precision floating-point number.
-    FloatDP& operator=(const Dyadic& w);
-    //! \brief Copy assignment.
-    FloatDP& operator=(const FloatDP& x) { this->dbl=x.dbl; return *this; }
-
-    //! \brief Construct from another FloatDP using given rounding
-    explicit Float(FloatDP const& d, RoundingModeType rnd, PrecisionType pr);
-    //! \brief Construct from an integer using given rounding
-    template<BuiltinIntegral N> explicit Float(N n, RoundingModeType rnd, PrecisionType pr)
-        : Float(ExactDouble(n),rnd,pr) { }
-    //! \brief Construct from an integer using given rounding
-    explicit Float(ExactDouble x, RoundingModeType rnd, PrecisionType pr)
-        : Float(x.get_d()) { }
-    //! \brief Construct from an integer number using given rounding
-    explicit Float(Integer const&, RoundingModeType rnd, PrecisionType pr);
-    //! \brief Construct from a dyadic number with given rounding
-    explicit Float(Dyadic const& w, RoundingModeType rnd, PrecisionType pr);
-    //! \brief Construct from a decimal number with given rounding
-    explicit Float(Decimal const& d, RoundingModeType rnd, PrecisionType pr);
-    //! \brief Construct from a FloatMP using given rounding
-    explicit Float(FloatMP const& d, RoundingModeType rnd, PrecisionType pr);
-    //! \brief Construct from a rational number with given rounding
-    explicit Float(Rational const& q, RoundingModeType rnd, PrecisionType pr);
-    //! \brief Convert to a dyadic number.
-    explicit operator Dyadic () const;
-    //! \brief Convert to a rational number.
-    explicit operator Rational () const;
-
-    //! \brief Convert to a generic number.
-    operator ExactNumber () const;
-
-    //! \brief Construct a ball with radius \a e.
-    Ball<FloatDP> pm(Error<FloatDP> const& e) const;
-  public:
-    FloatDP const& raw() const { return *this; }
-    FloatDP& raw() { return *this; }
-    //! \brief An approximation by a built-in double-precision floating-point number.
-    double get_d() const { return this->dbl; }
-    //! \brief The exact value as a decimal string.
-    String literal() const;
-    //! \brief An approximate value as a decimal string, rounded by \a rnd.
-    //! The exact value is guaranteed to be the nearest value to the value's precision.
-    String literal(RoundingModeType rnd) const;
-  public:
-    //! \name Special value tests
-    //!@{
-    friend Bool is_nan(FloatDP x) { return std::isnan(x.dbl); } //!< <p/>
-    friend Bool is_inf(FloatDP x) { return std::isinf(x.dbl); } //!< <p/>
-    friend Bool is_finite(FloatDP x) { return std::isfinite(x.dbl); } //!< <p/>
-    friend Bool is_zero(FloatDP x) { return x.dbl==0.0; } //!< <p/>
-    //!@}
-
-    //! \name Rounding operations
-    //!@{
-    friend FloatDP next(RoundUpward rnd, FloatDP x) { return add(rnd,x,FloatDP::min(x.precision())); } //!< Round \a x up by 1 ulp.
-    friend FloatDP next(RoundDownward rnd, FloatDP x) { return sub(rnd,x,FloatDP::min(x.precision())); } //!< Round \a x up by 1 ulp.
-
-    friend FloatDP floor(FloatDP x) { return FloatDP(std::floor(x.dbl)); } //!< Round \a x down to the nearest lower integer.
-    friend FloatDP ceil(FloatDP x) { return FloatDP(std::ceil(x.dbl)); } //!< Round \a x to the nearest integer. %Rounding of halves is implementation-dependent.
-    friend FloatDP round(FloatDP x) { return FloatDP(std::round(x.dbl)); } //!< Round \a x up to the nearest higher integer.
-
-    friend Integer cast_integer(FloatDP x); //!< Round \a x to the nearest integer
-    //!@}
-  public:
-    //! \name Arithmetic operators
-    //!@{
-    friend FloatDP operator+(FloatDP x) { volatile double xv=x.dbl; return FloatDP(+xv); } //!< <p/>
-    friend FloatDP operator-(FloatDP x) { volatile double xv=x.dbl; return FloatDP(-xv); } //!< <p/>
-    friend Bounds<FloatDP> operator+(FloatDP const& x1, FloatDP const& x2); //!< <p/>
-    friend Bounds<FloatDP> operator-(FloatDP const& x1, FloatDP const& x2); //!< <p/>
-    friend Bounds<FloatDP> operator*(FloatDP const& x1, FloatDP const& x2); //!< <p/>
-    friend Bounds<FloatDP> operator/(FloatDP const& x1, FloatDP const& x2); //!< <p/>
-    friend FloatDP operator*(TwoExp e1, FloatDP x2) { return shft(x2,e1.exponent()); } //!< <p/>
-    friend FloatDP operator*(FloatDP x1, TwoExp e2) { return shft(x1,e2.exponent()); } //!< <p/>
-    friend FloatDP operator/(FloatDP x1, TwoExp e2) { return shft(x1,-e2.exponent()); } //!< <p/>
-    friend FloatDP& operator*=(FloatDP& v1, TwoExp e2) { return v1=v1*e2; } //!< <p/>
-    friend FloatDP& operator/=(FloatDP& v1, TwoExp e2) { return v1=v1/e2; } //!< <p/>
-    //!@}
-
-    //!@{
-    //! \name Comparison operators
-    friend Boolean operator==(FloatDP x1, FloatDP x2) { return _cmp(Eq(),x1,x2); } //!< <p/>
-    friend Boolean operator!=(FloatDP x1, FloatDP x2) { return _cmp(Ne(),x1,x2); } //!< <p/>
-    friend Boolean operator< (FloatDP x1, FloatDP x2) { return _cmp(Lt(),x1,x2); } //!< <p/>
-    friend Boolean operator> (FloatDP x1, FloatDP x2) { return _cmp(Gt(),x1,x2); } //!< <p/>
-    friend Boolean operator<=(FloatDP x1, FloatDP x2) { return _cmp(Le(),x1,x2); } //!< <p/>
-    friend Boolean operator>=(FloatDP x1, FloatDP x2) { return _cmp(Ge(),x1,x2); } //!< <p/>
-    //!@}
-
-    //! \name Exact arithmetical functions
-    //!@{
-    friend FloatDP nul(FloatDP x) { return FloatDP(+0.0); } //!< Zero \a 0.
-    friend FloatDP pos(FloatDP x) { volatile double xv=x.dbl; return FloatDP(+xv); } //!< Identity \a +x.
-    friend FloatDP neg(FloatDP x) { volatile double xv=x.dbl; return FloatDP(-xv); } //!< Negation \a -x.
-    friend FloatDP hlf(FloatDP x) { volatile double xv=x.dbl; return FloatDP(xv/2); } //!< Half \a x÷2.
-    friend FloatDP shft(FloatDP x, Int n) { volatile double xv=x.dbl; return FloatDP(ldexp(xv,n)); } //!< Bit-shift \a x×2<sup>n</sup>.
-    friend FloatDP mul(FloatDP x1, TwoExp e2) { return shft(x1,e2.exponent()); } //!< Multiplication by a power of two.
-    friend FloatDP div(FloatDP x1, TwoExp e2) { return shft(x1,-e2.exponent()); } //!< Division by a power of two.
-    //!@}
-
-    //! \name Outward-rounded arithmetical functions
-    //!@{
-    friend Bounds<FloatDP> sqr(FloatDP const& x); //!< Square \a x<sup>2</sup>.
-    friend Bounds<FloatDP> rec(FloatDP const& x); //!< Reciprocal \a 1/x.
-    friend Bounds<FloatDP> add(FloatDP const& x1, FloatDP const& x2); //!< \brief Add \a x1+x2.
-    friend Bounds<FloatDP> sub(FloatDP const& x1, FloatDP const& x2); //!< \brief Subtract \a x1-x2.
-    friend Bounds<FloatDP> mul(FloatDP const& x1, FloatDP const& x2); //!< \brief Multiply \a x1×x2.
-    friend Bounds<FloatDP> div(FloatDP const& x1, FloatDP const& x2); //!< \brief Divide \a x1÷x2.
-    friend Bounds<FloatDP> fma(FloatDP const& x1, FloatDP const& x2, FloatDP const& x3); //!< \brief Fused multiply-and-add \a x1×x2+x3.
-    friend Bounds<FloatDP> pow(FloatDP const& x, Nat m); //!< \brief Power \a x<sup>m</sup>.
-    friend Bounds<FloatDP> pow(FloatDP const& x, Int n); //!< \brief Power \a x<sup>n</sup>.
-    //!@}
-
-    //! \name Algebraic and transcendental functions
-    //!@{
-    friend Bounds<FloatDP> sqrt(FloatDP const& x); //!< The square root of \a x, √\a x. Requires \a x ≥ 0.
-    friend Bounds<FloatDP> exp(FloatDP const& x); //!< The natural exponent of \a x, \em e<sup>x</sup>.
-    friend Bounds<FloatDP> log(FloatDP const& x); //!< The natural logarithm of \a x, log<em><sub>e</sub> x</em> or ln <em>x</em>. Requires \a x ≥ 0.
-    friend Bounds<FloatDP> sin(FloatDP const& x); //!< The sine of \a x.
-    friend Bounds<FloatDP> cos(FloatDP const& x); //!< The cosine of \a x.
-    friend Bounds<FloatDP> tan(FloatDP const& x); //!< The tangent of \a x, sin(\a x)/cos(\a x).
-    friend Bounds<FloatDP> asin(FloatDP const& x); //!< The arc-sine of \a x.
-    friend Bounds<FloatDP> acos(FloatDP const& x); //!< The arc-cosine of \a x.
-    friend Bounds<FloatDP> atan(FloatDP const& x); //!< The arc-tangent of \a x.
-    //!@}
-
-    //! \name Lattice operations
-    //!@{
-    friend Positive<FloatDP> abs(FloatDP x); //!< Absolute value \a |x|.
-    friend FloatDP max(FloatDP x1, FloatDP x2) { return FloatDP(std::max(x1.dbl,x2.dbl)); } //!< Maximum \a x1∨x2.
-    friend FloatDP min(FloatDP x1, FloatDP x2) { return FloatDP(std::min(x1.dbl,x2.dbl)); } //!< Mimimum \a x1∧x2.
-
-    friend PositiveUpperBound<FloatDP> mag(FloatDP x); //!< An upper bound for the absolute value \a |x|.
-    friend PositiveLowerBound<FloatDP> mig(FloatDP x); //!< A lower bound for the absolute value \a |x|.
-    //!@}
-
-    //! \name Comparison operations
-    //!@{
-    friend Boolean eq(FloatDP const& x1, FloatDP const& x2) { return x1.dbl == x2.dbl; } //!< <p/>
-    friend Boolean lt(FloatDP const& x1, FloatDP const& x2) { return x1.dbl <  x2.dbl; } //!< <p/>
-
-    friend Comparison cmp(FloatDP x1, FloatDP x2) { return _generic_cmp(x1.dbl,x2.dbl); } //!< <p/>
-    template<BuiltinIntegral N> friend Comparison cmp(FloatDP const& x1, N n2) { return _generic_cmp(x1.dbl,n2); }
-    template<BuiltinIntegral N> friend Comparison cmp(N n1, FloatDP const& x2) { return _generic_cmp(n1,x2.dbl); }
-#ifdef DOXYGEN
-    friend Comparison cmp(FloatDP const& x1, Nat m2); //!< <p/>
-    friend Comparison cmp(Nat m1, FloatDP const& x2); //!< <p/>
-    friend Comparison cmp(FloatDP const& x1, Int n2); //!< <p/>
-    friend Comparison cmp(Int n1, FloatDP const& x2); //!< <p/>
-#endif // DOXYGEN
-    friend Comparison cmp(FloatDP x1, ExactDouble x2) { return _generic_cmp(x1.dbl,x2.get_d()); } //!< <p/>
-    friend Comparison cmp(ExactDouble x1, FloatDP x2) { return _generic_cmp(x1.get_d(),x2.dbl); } //!< <p/>
-    friend Comparison cmp(FloatDP x1, Rational const& x2); //!< <p/>
-    friend Comparison cmp(Rational const& x1, FloatDP x2); //!< <p/>
-    //!@}
-
-  public:
-    //! \name Correctly rounded operations
-    //!@{
-    friend FloatDP sqr(CurrentRoundingMode, FloatDP x) { return FloatDP(sqr_rnd(x.dbl)); } //!< <p/>
-    friend FloatDP rec(CurrentRoundingMode, FloatDP x) { return FloatDP(rec_rnd(x.dbl)); } //!< <p/>
-    friend FloatDP add(CurrentRoundingMode, FloatDP x1, FloatDP x2) { return FloatDP(add_rnd(x1.dbl,x2.dbl)); } //!< <p/>
-    friend FloatDP sub(CurrentRoundingMode, FloatDP x1, FloatDP x2) { return FloatDP(sub_rnd(x1.dbl,x2.dbl)); } //!< <p/>
-    friend FloatDP mul(CurrentRoundingMode, FloatDP x1, FloatDP x2) { return FloatDP(mul_rnd(x1.dbl,x2.dbl)); } //!< <p/>
-    friend FloatDP div(CurrentRoundingMode, FloatDP x1, FloatDP x2) { return FloatDP(div_rnd(x1.dbl,x2.dbl)); } //!< <p/>
-    friend FloatDP fma(CurrentRoundingMode, FloatDP x1, FloatDP x2, FloatDP x3) { return FloatDP(fma_rnd(x1.dbl,x2.dbl,x3.dbl)); } //!< <p/>
-    friend FloatDP pow(CurrentRoundingMode, FloatDP x, Nat m) { return FloatDP(pow_rnd(x.dbl,m)); } //!< <p/>
-    friend FloatDP pow(CurrentRoundingMode, FloatDP x, Int n) { return FloatDP(pow_rnd(x.dbl,n)); } //!< <p/>
-    friend FloatDP sqrt(CurrentRoundingMode, FloatDP x) { return FloatDP(sqrt_rnd(x.dbl)); } //!< <p/>
-    friend FloatDP exp(CurrentRoundingMode, FloatDP x) { return FloatDP(exp_rnd(x.dbl)); } //!< <p/>
-    friend FloatDP log(CurrentRoundingMode, FloatDP x) { return FloatDP(log_rnd(x.dbl)); } //!< <p/>
-    friend FloatDP sin(CurrentRoundingMode, FloatDP x) { return FloatDP(sin_rnd(x.dbl)); } //!< <p/>
-    friend FloatDP cos(CurrentRoundingMode, FloatDP x) { return FloatDP(cos_rnd(x.dbl)); } //!< <p/>
-    friend FloatDP tan(CurrentRoundingMode, FloatDP x) { return FloatDP(tan_rnd(x.dbl)); } //!< <p/>
-    friend FloatDP asin(CurrentRoundingMode, FloatDP x) { return FloatDP(asin_rnd(x.dbl)); } //!< <p/>
-    friend FloatDP acos(CurrentRoundingMode, FloatDP x) { return FloatDP(acos_rnd(x.dbl)); } //!< <p/>
-    friend FloatDP atan(CurrentRoundingMode, FloatDP x) { return FloatDP(atan_rnd(x.dbl)); } //!< <p/>
-    static FloatDP pi(CurrentRoundingMode, PrecisionType pr) { return FloatDP(pi_rnd()); } //!< <p/>
-    //!@}
-  private:
-    template<class OP> static FloatDP _apply_rnd(OP op, RoundingModeType rnd, FloatDP x1, FloatDP x2, FloatDP x3) {
-        auto old_rnd=FloatDP::get_rounding_mode(); FloatDP::set_rounding_mode(rnd);
-        FloatDP r=FloatDP(op(x1.dbl,x2.dbl,x3.dbl)); FloatDP::set_rounding_mode(old_rnd); return r;
-    }
-    template<class OP> static FloatDP _apply_rnd(OP op, RoundingModeType rnd, FloatDP x1, FloatDP x2) {
-        auto old_rnd=FloatDP::get_rounding_mode(); FloatDP::set_rounding_mode(rnd);
-        FloatDP r=FloatDP(op(x1.dbl,x2.dbl)); FloatDP::set_rounding_mode(old_rnd); return r;
-    }
-    template<class OP> static FloatDP _apply_rnd(OP op, RoundingModeType rnd, FloatDP x) {
-        auto old_rnd=FloatDP::get_rounding_mode(); FloatDP::set_rounding_mode(rnd);
-        FloatDP r=FloatDP(op(x.dbl)); FloatDP::set_rounding_mode(old_rnd); return r;
-    }
-    template<class OP, BuiltinIntegral N> static FloatDP _apply_rnd(OP op, RoundingModeType rnd, FloatDP x, N n) {
-        auto old_rnd=FloatDP::get_rounding_mode(); FloatDP::set_rounding_mode(rnd);
-        FloatDP r=FloatDP(op(x.dbl,n)); FloatDP::set_rounding_mode(old_rnd); return r;
-    }
-  public:
-    //! \name Explicitly rounded operations
-    //!@{
-    friend FloatDP max(RoundingModeType rnd, FloatDP x1, FloatDP x2) { return FloatDP(std::max(x1.dbl,x2.dbl)); } //!< <p/>
-    friend FloatDP min(RoundingModeType rnd, FloatDP x1, FloatDP x2) { return FloatDP(std::min(x1.dbl,x2.dbl)); } //!< <p/>
-    friend FloatDP abs(RoundingModeType rnd, FloatDP x) { return FloatDP(std::fabs(x.dbl)); } //!< <p/>
-    friend FloatDP mag(RoundingModeType rnd, FloatDP x) { return FloatDP(std::fabs(x.dbl)); } //!< <p/>
-
-    friend FloatDP& iadd(RoundingModeType rnd, FloatDP& x1, FloatDP x2); //!< <p/>
-    friend FloatDP& isub(RoundingModeType rnd, FloatDP& x1, FloatDP x2); //!< <p/>
-    friend FloatDP& imul(RoundingModeType rnd, FloatDP& x1, FloatDP x2); //!< <p/>
-    friend FloatDP& idiv(RoundingModeType rnd, FloatDP& x1, FloatDP x2); //!< <p/>
-
-    static FloatDP pi(RoundingModeType rnd, PrecisionType pr); //!< <p/>
-
-    friend FloatDP nul(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&nul_rnd,rnd,x); } //!< <p/>
-    friend FloatDP pos(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&pos_rnd,rnd,x); } //!< <p/>
-    friend FloatDP neg(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&neg_rnd,rnd,x); } //!< <p/>
-    friend FloatDP hlf(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&hlf_rnd,rnd,x); } //!< <p/>
-    friend FloatDP add(RoundingModeType rnd, FloatDP x1, FloatDP x2) { return _apply_rnd(&add_rnd,rnd,x1,x2); } //!< <p/>
-    friend FloatDP sub(RoundingModeType rnd, FloatDP x1, FloatDP x2) { return _apply_rnd(&sub_rnd,rnd,x1,x2); } //!< <p/>
-    friend FloatDP mul(RoundingModeType rnd, FloatDP x1, FloatDP x2) { return _apply_rnd(&mul_rnd,rnd,x1,x2); } //!< <p/>
-    friend FloatDP div(RoundingModeType rnd, FloatDP x1, FloatDP x2) { return _apply_rnd(&div_rnd,rnd,x1,x2); } //!< <p/>
-    friend FloatDP fma(RoundingModeType rnd, FloatDP x1, FloatDP x2, FloatDP x3) { return _apply_rnd(&fma_rnd,rnd,x1,x2,x3); } //!< <p/>
-    friend FloatDP pow(RoundingModeType rnd, FloatDP x, Nat m) { return _apply_rnd((double(*)(double,unsigned int))&pow_rnd,rnd,x,m); } //!< <p/>
-    friend FloatDP pow(RoundingModeType rnd, FloatDP x, Int n) { return _apply_rnd((double(*)(double,int))&pow_rnd,rnd,x,n); } //!< <p/>
-    friend FloatDP sqr(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&sqr_rnd,rnd,x); } //!< <p/>
-    friend FloatDP rec(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&rec_rnd,rnd,x); } //!< <p/>
-    friend FloatDP sqrt(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&sqrt_rnd,rnd,x); } //!< <p/>
-    friend FloatDP exp(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&exp_rnd,rnd,x); } //!< <p/>
-    friend FloatDP log(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&log_rnd,rnd,x); } //!< <p/>
-    friend FloatDP sin(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&sin_rnd,rnd,x); } //!< <p/>
-    friend FloatDP cos(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&cos_rnd,rnd,x); } //!< <p/>
-    friend FloatDP tan(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&tan_rnd,rnd,x); } //!< <p/>
-    friend FloatDP asin(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&asin_rnd,rnd,x); } //!< <p/>
-    friend FloatDP acos(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&acos_rnd,rnd,x); } //!< <p/>
-    friend FloatDP atan(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&atan_rnd,rnd,x); } //!< <p/>
-
-    friend FloatDP med(RoundingModeType rnd, FloatDP x1, FloatDP x2) {
-        rounding_mode_t rounding_mode=get_rounding_mode(); set_rounding_mode(rnd); //!< <p/>
-        FloatDP r=hlf(add(rnd,x1,x2)); set_rounding_mode(rounding_mode); return r; } //!< <p/>
-    friend FloatDP rad(RoundingModeType rnd, FloatDP x1, FloatDP x2) {
-        rounding_mode_t rounding_mode=get_rounding_mode(); set_rounding_mode(rnd); //!< <p/>
-        FloatDP r=hlf(sub(rnd,x2,x1)); set_rounding_mode(rounding_mode); return r; } //!< <p/>
-    //!@}
-  private:
-    template<class OP> static Boolean _cmp(OP op, FloatDP x1, FloatDP x2) {
-        return op(x1.dbl,x2.dbl);
-    }
-/*
-    template<class OP, AnExactNumber Y> static Boolean _cmp(OP op, FloatDP const&  x1, Y const& y2) {
-        if constexpr (BuiltinIntegral<Y>) { return op(x1.dbl,y2); }
-        else if constexpr (Same<Y,ExactDouble>) { return op(x1.dbl,y2.get_d()); }
-        else { return op(cmp(x1,y2),Comparison::EQUAL); }
-    }
-    template<class OP, AnExactNumber Y> static Boolean _cmp(OP op, Y const& y1, FloatDP const&  x2) {
-        if constexpr (BuiltinIntegral<Y>) { return op(y1,x2.dbl); }
-        else if constexpr (Same<Y,ExactDouble>) { return op(y1.get_d(),x2.dbl); }
-        else { return op(cmp(y1,x2),Comparison::EQUAL); }
-    }
-*/
-  public:
-    //!@{
-    //! \name Exact information tests
-    friend Bool same(FloatDP const& x1, FloatDP const& x2) { return x1 == x2; } //!< Test equality of \a x1 and x2.
-    //!@}
-  public:
-    //!@{
-    //! \name Input/output operations
-    friend OutputStream& operator<<(OutputStream& os, FloatDP const& x); //!< Write to an output stream.
-    friend InputStream& operator>>(InputStream& os, FloatDP& x); //!< Read from an input stream.
-    //!@}
-  private:
-    friend OutputStream& write(OutputStream& os, FloatDP const& x, DecimalPlaces dgts, RoundingModeType rnd);
-    friend OutputStream& write(OutputStream& os, FloatDP const& x, DecimalPrecision dgts, RoundingModeType rnd);
-    friend OutputStream& repr(OutputStream& os, FloatDP const& x);
-    friend OutputStream& repr(OutputStream& os, FloatDP const& x, RoundingModeType rnd);
-  private:
-    // Rounded arithmetic
-    friend FloatDP pow_rnd(FloatDP x, Nat m);
-    friend FloatDP pow_rnd(FloatDP x, Int n);
-    friend FloatDP sqrt_rnd(FloatDP x);
-    friend FloatDP exp_rnd(FloatDP x);
-    friend FloatDP log_rnd(FloatDP x);
-    friend FloatDP sin_rnd(FloatDP x);
-    friend FloatDP cos_rnd(FloatDP x);
-    friend FloatDP tan_rnd(FloatDP x);
-    friend FloatDP atan_rnd(FloatDP x);
-
-    // Opposite rounded arithmetic
-    friend FloatDP pos_opp(FloatDP x) { volatile double t=-x.dbl; return FloatDP(-t); }
-    friend FloatDP neg_opp(FloatDP x) { volatile double t=x.dbl; return FloatDP(-t); }
-    friend FloatDP sqr_opp(FloatDP x) { volatile double t=-x.dbl; t=t*x.dbl; return FloatDP(-t); }
-    friend FloatDP rec_opp(FloatDP x) { volatile double t=-1.0/(volatile double&)x.dbl; return FloatDP(-t); }
-    friend FloatDP add_opp(FloatDP x, FloatDP y) { volatile double t=-x.dbl; t=t-y.dbl; return FloatDP(-t); }
-    friend FloatDP sub_opp(FloatDP x, FloatDP y) { volatile double t=-x.dbl; t=t+y.dbl; return FloatDP(-t); }
-    friend FloatDP mul_opp(FloatDP x, FloatDP y) { volatile double t=-x.dbl; t=t*y.dbl; return FloatDP(-t); }
-    friend FloatDP div_opp(FloatDP x, FloatDP y) { volatile double t=x.dbl; t=t/y.dbl; return FloatDP(-t); }
-    friend FloatDP pow_opp(FloatDP x, int n);
-  public:
-    static Nat output_places;
-    static Void set_output_places(Nat pl);
-  private:
-    friend class Rounded<FloatDP>;
-};
-
-
-template<class R, class A> R integer_cast(const A& a);
-template<> Nat integer_cast<Nat,FloatDP>(FloatDP const&);
-template<> Int integer_cast<Int,FloatDP>(FloatDP const&);
-
-struct Float32 {
-    float flt;
-  public:
-    explicit Float32(FloatDP x, BuiltinRoundingModeType rnd) { set_builtin_rounding_mode(rnd); (volatile float&)flt = (volatile double&)x.dbl; }
-    explicit operator FloatDP() const;
-};
-
-
-
-} // namespace Ariadne
-
-#endif
+/***************************************************************************
+ *            numeric/floatdp.hpp
+ *
+ *  Copyright  2008-22  Pieter Collins
+ *
+ ****************************************************************************/
+
+/*
+ *  This file is part of Ariadne.
+ *
+ *  Ariadne is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  Ariadne is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with Ariadne.  If not, see <https://www.gnu.org/licenses/>.
+ */
+
+/*! \file numeric/floatdp.hpp
+ *  \brief Raw floating-point number class based on double-precision floats.
+ */
+
+#ifndef ARIADNE_FLOAT64_HPP
+#define ARIADNE_FLOAT64_HPP
+
+#include <iosfwd> // For std::floor std::ceil etc
+#include <cmath> // For std::floor std::ceil etc
+#include <algorithm> // For std::max, std::min
+#include <limits> // For std::numeric_limits<double>
+
+#include "utility/declarations.hpp"
+#include "numeric/operators.hpp"
+#include "numeric/rounding.hpp"
+#include "numeric/sign.hpp"
+#include "numeric/builtin.hpp"
+#include "numeric/double.hpp"
+#include "numeric/number.decl.hpp"
+#include "numeric/float.decl.hpp"
+#include "numeric/float_operations.hpp"
+
+namespace Ariadne {
+
+struct NoInit { };
+
+class Rational;
+enum class Comparison : ComparableEnumerationType;
+
+// FIXME: Returns EQUAL if either argument is NaN
+template<class X1, class X2> Comparison _generic_cmp(X1 x1, X2 x2) {
+    return x1>x2 ? Comparison::GREATER : ( x1<x2 ? Comparison::LESS : Comparison::EQUAL );
+}
+template<class OP, class X1, class X2> Comparison _generic_cmp(OP op, X1 x1, X2 x2) {
+    return op(cmp(x1,x2),Comparison::EQUAL); }
+
+//! \ingroup NumericModule
+//! \brief The precision of a FloatDP object. Since this is fixed, the class is only a tag; all objects are equal.
+//! \relates FloatDP
+class DoublePrecision {
+  public:
+    //! \brief Default constructor
+    constexpr DoublePrecision() { }
+    //! \brief <p/>
+    friend constexpr DoublePrecision max(DoublePrecision, DoublePrecision) { return DoublePrecision(); }
+    //! \brief <p/>
+    friend constexpr DoublePrecision min(DoublePrecision, DoublePrecision) { return DoublePrecision(); }
+    //! \brief <p/>
+    friend constexpr Bool operator<=(DoublePrecision, DoublePrecision) { return true; }
+    //! \brief Compare the two precisions for equality. Always \c true.
+    friend constexpr Bool operator==(DoublePrecision, DoublePrecision) { return true; }
+    //! \brief Write to an output stream. <p/>
+    friend OutputStream& operator<<(OutputStream& os, DoublePrecision) { return os << "dp"; }
+    //! \brief Write a full representation to an output stream. <p/>
+    friend OutputStream& repr(OutputStream& os, DoublePrecision) { return os << "DoublePrecision()"; }
+};
+//! \brief Shorthand for DoublePrecision.
+//! \relates DoublePrecision
+using DP = DoublePrecision;
+static const DoublePrecision double_precision = DoublePrecision();
+static const DoublePrecision dp = DP();
+
+
+template<class FLT> class Rounded;
+using RoundedFloatDP = Rounded<FloatDP>;
+
+//! \brief Shorthand for \ref Float<DP>.
+typedef Float<DP> FloatDP;
+
+//! \ingroup NumericModule
+//! \brief Floating point numbers (double precision) using rounded arithmetic. Abbreviation \ref Ariadne::FloatDP "Flobber::FloatDP".
+//! \details
+//! The \c %FloatDP class represents floating-point numbers.
+//! Unless otherwise mentioned, operations on floating-point numbers are performed approximately, with no guarantees
+//! on the output.
+//!
+//! To implement <em>rounded arithmetic</em>, arithmetical operations of \c %FloatDP can be performed with guaranteed rounding by
+//! specifying \c _up and \c _down suffixes to arithmetical functions \c add, \c sub, \c mul and \c div.
+//! Additionally, operations can be performed in the current <em>rounding mode</em> by using the \c _rnd suffix,
+//! or with rounding reversed using the \c _opp suffix.
+//! The \c _approx suffix is provided to specifically indicate that the operation is computed approximately.
+//!
+//! %Ariadne floating-point numbers can be constructed by conversion from built-in C++ types.
+//! Note that the value of a built-in floating-point value may differ from the mathematical value of the literal.
+//! For example, while <c>%FloatDP(3.25)</c> is represented exactly, <c>%FloatDP(3.3)</c> has a value of \f$3.2999999999999998224\ldots\f$.
+//! \note In the future, the construction of a \c %FloatDP from a string literal may be supported.
+//! \sa Float<MP>, Real, FloatBall, FloatBounds, FloatUpperBound, FloatLowerBound, FloatApproximation, FloatError
+template<> class Float<DP>
+    : public DeclareRoundedOperations<Float<DP>>
+{
+  public:
+    volatile double dbl;
+  public:
+    typedef ExactTag Paradigm;
+    typedef FloatDP NumericType;
+    //! \brief The abstract number class providing the same kind of information.
+    typedef ExactNumber GenericType;
+    //! \brief The type representing the precision of the number.
+    typedef DoublePrecision PrecisionType;
+    //! \brief The type representing the rounding modes available for arithmetic.
+    typedef BuiltinRoundingModeType RoundingModeType;
+  public:
+    static const RoundingModeType ROUND_TO_NEAREST = Ariadne::ROUND_TO_NEAREST;
+    static const RoundingModeType ROUND_DOWNWARD = Ariadne::ROUND_DOWNWARD;
+    static const RoundingModeType ROUND_UPWARD = Ariadne::ROUND_UPWARD;
+    static const RoundingModeType ROUND_TOWARD_ZERO = Ariadne::ROUND_TOWARD_ZERO;
+
+    static RoundingModeType get_rounding_mode(); //!< <p/>
+    static Void set_rounding_mode(RoundingModeType); //!< <p/>
+    static Void set_rounding_downward(); //!< <p/>
+    static Void set_rounding_upward(); //!< <p/>
+    static Void set_rounding_to_nearest(); //!< <p/>
+    static Void set_rounding_toward_zero(); //!< <p/>
+  public:
+    static DoublePrecision get_default_precision(); //!< <p/>
+    DoublePrecision precision() const; //!< <p/>
+    Void set_precision(DoublePrecision); //!< <p/>
+  public:
+    static FloatDP nan(DoublePrecision pr); //!< <p/>
+    static FloatDP inf(Sign sgn, DoublePrecision pr); //!< <p/>
+    static FloatDP inf(DoublePrecision pr); //!< <p/>
+
+    static FloatDP max(DoublePrecision pr); //!< <p/>
+    static FloatDP eps(DoublePrecision pr); //!< <p/>
+    static FloatDP min(DoublePrecision pr); //!< <p/>
+  private:
+    //! \brief Default constructor creates an uninitialised number.
+    Float() : dbl() { }
+    //! \brief Convert from a built-in double-precision floating-point number.
+    explicit Float(double x) : dbl(x) { }
+  public:
+    explicit Float(NoInit) : dbl() { }
+    explicit Float(DoublePrecision) : dbl() { }
+    //! \brief Convert from a built-in double-precision floating-point number.
+//    explicit Float(ExactDouble const& x);
+//    explicit Float(double x, DoublePrecision) : dbl(x) { }
+    template<BuiltinIntegral N> Float(N n, DoublePrecision) : dbl(n) { }
+    Float(ExactDouble const& x, DoublePrecision);
+    Float(TwoExp const& x, DoublePrecision);
+    Float(Dyadic const& w, DoublePrecision);
+    //! \brief Copy constructor.
+    Float(const FloatDP& x) : dbl(x.dbl) { }
+    Float(const FloatDP& x, DoublePrecision) : dbl(x.dbl) { }
+    template<BuiltinIntegral N> FloatDP& operator=(N n) {
+        return this->operator=(ExactDouble(n)); }
+    //! \brief Construct from an exact string literal.
+    explicit Float(String const& str, DoublePrecision);
+    FloatDP& operator=(const ExactDouble& x);
+    //! \brief Assignment from a dyadic number \a w. Requires \a w to be exactly representable as a double-precision floating-point number.
+    FloatDP& operator=(const Dyadic& w);
+    //! \brief Copy assignment.
+    FloatDP& operator=(const FloatDP& x) { this->dbl=x.dbl; return *this; }
+
+    //! \brief Construct from another FloatDP using given rounding
+    explicit Float(FloatDP const& d, RoundingModeType rnd, PrecisionType pr);
+    //! \brief Construct from an integer using given rounding
+    template<BuiltinIntegral N> explicit Float(N n, RoundingModeType rnd, PrecisionType pr)
+        : Float(ExactDouble(n),rnd,pr) { }
+    //! \brief Construct from an integer using given rounding
+    explicit Float(ExactDouble x, RoundingModeType rnd, PrecisionType pr)
+        : Float(x.get_d()) { }
+    //! \brief Construct from an integer number using given rounding
+    explicit Float(Integer const&, RoundingModeType rnd, PrecisionType pr);
+    //! \brief Construct from a dyadic number with given rounding
+    explicit Float(Dyadic const& w, RoundingModeType rnd, PrecisionType pr);
+    //! \brief Construct from a decimal number with given rounding
+    explicit Float(Decimal const& d, RoundingModeType rnd, PrecisionType pr);
+    //! \brief Construct from a FloatMP using given rounding
+    explicit Float(FloatMP const& d, RoundingModeType rnd, PrecisionType pr);
+    //! \brief Construct from a rational number with given rounding
+    explicit Float(Rational const& q, RoundingModeType rnd, PrecisionType pr);
+    //! \brief Convert to a dyadic number.
+    explicit operator Dyadic () const;
+    //! \brief Convert to a rational number.
+    explicit operator Rational () const;
+
+    //! \brief Convert to a generic number.
+    operator ExactNumber () const;
+
+    //! \brief Construct a ball with radius \a e.
+    Ball<FloatDP> pm(Error<FloatDP> const& e) const;
+  public:
+    FloatDP const& raw() const { return *this; }
+    FloatDP& raw() { return *this; }
+    //! \brief An approximation by a built-in double-precision floating-point number.
+    double get_d() const { return this->dbl; }
+    //! \brief The exact value as a decimal string.
+    String literal() const;
+    //! \brief An approximate value as a decimal string, rounded by \a rnd.
+    //! The exact value is guaranteed to be the nearest value to the value's precision.
+    String literal(RoundingModeType rnd) const;
+  public:
+    //! \name Special value tests
+    //!@{
+    friend Bool is_nan(FloatDP x) { return std::isnan(x.dbl); } //!< <p/>
+    friend Bool is_inf(FloatDP x) { return std::isinf(x.dbl); } //!< <p/>
+    friend Bool is_finite(FloatDP x) { return std::isfinite(x.dbl); } //!< <p/>
+    friend Bool is_zero(FloatDP x) { return x.dbl==0.0; } //!< <p/>
+    //!@}
+
+    //! \name Rounding operations
+    //!@{
+    friend FloatDP next(RoundUpward rnd, FloatDP x) { return add(rnd,x,FloatDP::min(x.precision())); } //!< Round \a x up by 1 ulp.
+    friend FloatDP next(RoundDownward rnd, FloatDP x) { return sub(rnd,x,FloatDP::min(x.precision())); } //!< Round \a x up by 1 ulp.
+
+    friend FloatDP floor(FloatDP x) { return FloatDP(std::floor(x.dbl)); } //!< Round \a x down to the nearest lower integer.
+    friend FloatDP ceil(FloatDP x) { return FloatDP(std::ceil(x.dbl)); } //!< Round \a x to the nearest integer. %Rounding of halves is implementation-dependent.
+    friend FloatDP round(FloatDP x) { return FloatDP(std::round(x.dbl)); } //!< Round \a x up to the nearest higher integer.
+
+    friend Integer cast_integer(FloatDP x); //!< Round \a x to the nearest integer
+    //!@}
+  public:
+    //! \name Arithmetic operators
+    //!@{
+    friend FloatDP operator+(FloatDP x) { volatile double xv=x.dbl; return FloatDP(+xv); } //!< <p/>
+    friend FloatDP operator-(FloatDP x) { volatile double xv=x.dbl; return FloatDP(-xv); } //!< <p/>
+    friend Bounds<FloatDP> operator+(FloatDP const& x1, FloatDP const& x2); //!< <p/>
+    friend Bounds<FloatDP> operator-(FloatDP const& x1, FloatDP const& x2); //!< <p/>
+    friend Bounds<FloatDP> operator*(FloatDP const& x1, FloatDP const& x2); //!< <p/>
+    friend Bounds<FloatDP> operator/(FloatDP const& x1, FloatDP const& x2); //!< <p/>
+    friend FloatDP operator*(TwoExp e1, FloatDP x2) { return shft(x2,e1.exponent()); } //!< <p/>
+    friend FloatDP operator*(FloatDP x1, TwoExp e2) { return shft(x1,e2.exponent()); } //!< <p/>
+    friend FloatDP operator/(FloatDP x1, TwoExp e2) { return shft(x1,-e2.exponent()); } //!< <p/>
+    friend FloatDP& operator*=(FloatDP& v1, TwoExp e2) { return v1=v1*e2; } //!< <p/>
+    friend FloatDP& operator/=(FloatDP& v1, TwoExp e2) { return v1=v1/e2; } //!< <p/>
+    //!@}
+
+    //!@{
+    //! \name Comparison operators
+    friend Boolean operator==(FloatDP x1, FloatDP x2) { return _cmp(Eq(),x1,x2); } //!< <p/>
+    friend Boolean operator!=(FloatDP x1, FloatDP x2) { return _cmp(Ne(),x1,x2); } //!< <p/>
+    friend Boolean operator< (FloatDP x1, FloatDP x2) { return _cmp(Lt(),x1,x2); } //!< <p/>
+    friend Boolean operator> (FloatDP x1, FloatDP x2) { return _cmp(Gt(),x1,x2); } //!< <p/>
+    friend Boolean operator<=(FloatDP x1, FloatDP x2) { return _cmp(Le(),x1,x2); } //!< <p/>
+    friend Boolean operator>=(FloatDP x1, FloatDP x2) { return _cmp(Ge(),x1,x2); } //!< <p/>
+    //!@}
+
+    //! \name Exact arithmetical functions
+    //!@{
+    friend FloatDP nul(FloatDP x) { return FloatDP(+0.0); } //!< Zero \a 0.
+    friend FloatDP pos(FloatDP x) { volatile double xv=x.dbl; return FloatDP(+xv); } //!< Identity \a +x.
+    friend FloatDP neg(FloatDP x) { volatile double xv=x.dbl; return FloatDP(-xv); } //!< Negation \a -x.
+    friend FloatDP hlf(FloatDP x) { volatile double xv=x.dbl; return FloatDP(xv/2); } //!< Half \a x÷2.
+    friend FloatDP shft(FloatDP x, Int n) { volatile double xv=x.dbl; return FloatDP(ldexp(xv,n)); } //!< Bit-shift \a x×2<sup>n</sup>.
+    friend FloatDP mul(FloatDP x1, TwoExp e2) { return shft(x1,e2.exponent()); } //!< Multiplication by a power of two.
+    friend FloatDP div(FloatDP x1, TwoExp e2) { return shft(x1,-e2.exponent()); } //!< Division by a power of two.
+    //!@}
+
+    //! \name Outward-rounded arithmetical functions
+    //!@{
+    friend Bounds<FloatDP> sqr(FloatDP const& x); //!< Square \a x<sup>2</sup>.
+    friend Bounds<FloatDP> rec(FloatDP const& x); //!< Reciprocal \a 1/x.
+    friend Bounds<FloatDP> add(FloatDP const& x1, FloatDP const& x2); //!< \brief Add \a x1+x2.
+    friend Bounds<FloatDP> sub(FloatDP const& x1, FloatDP const& x2); //!< \brief Subtract \a x1-x2.
+    friend Bounds<FloatDP> mul(FloatDP const& x1, FloatDP const& x2); //!< \brief Multiply \a x1×x2.
+    friend Bounds<FloatDP> div(FloatDP const& x1, FloatDP const& x2); //!< \brief Divide \a x1÷x2.
+    friend Bounds<FloatDP> fma(FloatDP const& x1, FloatDP const& x2, FloatDP const& x3); //!< \brief Fused multiply-and-add \a x1×x2+x3.
+    friend Bounds<FloatDP> pow(FloatDP const& x, Nat m); //!< \brief Power \a x<sup>m</sup>.
+    friend Bounds<FloatDP> pow(FloatDP const& x, Int n); //!< \brief Power \a x<sup>n</sup>.
+    //!@}
+
+    //! \name Algebraic and transcendental functions
+    //!@{
+    friend Bounds<FloatDP> sqrt(FloatDP const& x); //!< The square root of \a x, √\a x. Requires \a x ≥ 0.
+    friend Bounds<FloatDP> exp(FloatDP const& x); //!< The natural exponent of \a x, \em e<sup>x</sup>.
+    friend Bounds<FloatDP> log(FloatDP const& x); //!< The natural logarithm of \a x, log<em><sub>e</sub> x</em> or ln <em>x</em>. Requires \a x ≥ 0.
+    friend Bounds<FloatDP> sin(FloatDP const& x); //!< The sine of \a x.
+    friend Bounds<FloatDP> cos(FloatDP const& x); //!< The cosine of \a x.
+    friend Bounds<FloatDP> tan(FloatDP const& x); //!< The tangent of \a x, sin(\a x)/cos(\a x).
+    friend Bounds<FloatDP> asin(FloatDP const& x); //!< The arc-sine of \a x.
+    friend Bounds<FloatDP> acos(FloatDP const& x); //!< The arc-cosine of \a x.
+    friend Bounds<FloatDP> atan(FloatDP const& x); //!< The arc-tangent of \a x.
+    //!@}
+
+    //! \name Lattice operations
+    //!@{
+    friend Positive<FloatDP> abs(FloatDP x); //!< Absolute value \a |x|.
+    friend FloatDP max(FloatDP x1, FloatDP x2) { return FloatDP(std::max(x1.dbl,x2.dbl)); } //!< Maximum \a x1∨x2.
+    friend FloatDP min(FloatDP x1, FloatDP x2) { return FloatDP(std::min(x1.dbl,x2.dbl)); } //!< Mimimum \a x1∧x2.
+
+    friend PositiveUpperBound<FloatDP> mag(FloatDP x); //!< An upper bound for the absolute value \a |x|.
+    friend PositiveLowerBound<FloatDP> mig(FloatDP x); //!< A lower bound for the absolute value \a |x|.
+    //!@}
+
+    //! \name Comparison operations
+    //!@{
+    friend Boolean eq(FloatDP const& x1, FloatDP const& x2) { return x1.dbl == x2.dbl; } //!< <p/>
+    friend Boolean lt(FloatDP const& x1, FloatDP const& x2) { return x1.dbl <  x2.dbl; } //!< <p/>
+
+    friend Comparison cmp(FloatDP x1, FloatDP x2) { return _generic_cmp(x1.dbl,x2.dbl); } //!< <p/>
+    template<BuiltinIntegral N> friend Comparison cmp(FloatDP const& x1, N n2) { return _generic_cmp(x1.dbl,n2); }
+    template<BuiltinIntegral N> friend Comparison cmp(N n1, FloatDP const& x2) { return _generic_cmp(n1,x2.dbl); }
+#ifdef DOXYGEN
+    friend Comparison cmp(FloatDP const& x1, Nat m2); //!< <p/>
+    friend Comparison cmp(Nat m1, FloatDP const& x2); //!< <p/>
+    friend Comparison cmp(FloatDP const& x1, Int n2); //!< <p/>
+    friend Comparison cmp(Int n1, FloatDP const& x2); //!< <p/>
+#endif // DOXYGEN
+    friend Comparison cmp(FloatDP x1, ExactDouble x2) { return _generic_cmp(x1.dbl,x2.get_d()); } //!< <p/>
+    friend Comparison cmp(ExactDouble x1, FloatDP x2) { return _generic_cmp(x1.get_d(),x2.dbl); } //!< <p/>
+    friend Comparison cmp(FloatDP x1, Rational const& x2); //!< <p/>
+    friend Comparison cmp(Rational const& x1, FloatDP x2); //!< <p/>
+    //!@}
+
+  public:
+    //! \name Correctly rounded operations
+    //!@{
+    friend FloatDP sqr(CurrentRoundingMode, FloatDP x) { return FloatDP(sqr_rnd(x.dbl)); } //!< <p/>
+    friend FloatDP rec(CurrentRoundingMode, FloatDP x) { return FloatDP(rec_rnd(x.dbl)); } //!< <p/>
+    friend FloatDP add(CurrentRoundingMode, FloatDP x1, FloatDP x2) { return FloatDP(add_rnd(x1.dbl,x2.dbl)); } //!< <p/>
+    friend FloatDP sub(CurrentRoundingMode, FloatDP x1, FloatDP x2) { return FloatDP(sub_rnd(x1.dbl,x2.dbl)); } //!< <p/>
+    friend FloatDP mul(CurrentRoundingMode, FloatDP x1, FloatDP x2) { return FloatDP(mul_rnd(x1.dbl,x2.dbl)); } //!< <p/>
+    friend FloatDP div(CurrentRoundingMode, FloatDP x1, FloatDP x2) { return FloatDP(div_rnd(x1.dbl,x2.dbl)); } //!< <p/>
+    friend FloatDP fma(CurrentRoundingMode, FloatDP x1, FloatDP x2, FloatDP x3) { return FloatDP(fma_rnd(x1.dbl,x2.dbl,x3.dbl)); } //!< <p/>
+    friend FloatDP pow(CurrentRoundingMode, FloatDP x, Nat m) { return FloatDP(pow_rnd(x.dbl,m)); } //!< <p/>
+    friend FloatDP pow(CurrentRoundingMode, FloatDP x, Int n) { return FloatDP(pow_rnd(x.dbl,n)); } //!< <p/>
+    friend FloatDP sqrt(CurrentRoundingMode, FloatDP x) { return FloatDP(sqrt_rnd(x.dbl)); } //!< <p/>
+    friend FloatDP exp(CurrentRoundingMode, FloatDP x) { return FloatDP(exp_rnd(x.dbl)); } //!< <p/>
+    friend FloatDP log(CurrentRoundingMode, FloatDP x) { return FloatDP(log_rnd(x.dbl)); } //!< <p/>
+    friend FloatDP sin(CurrentRoundingMode, FloatDP x) { return FloatDP(sin_rnd(x.dbl)); } //!< <p/>
+    friend FloatDP cos(CurrentRoundingMode, FloatDP x) { return FloatDP(cos_rnd(x.dbl)); } //!< <p/>
+    friend FloatDP tan(CurrentRoundingMode, FloatDP x) { return FloatDP(tan_rnd(x.dbl)); } //!< <p/>
+    friend FloatDP asin(CurrentRoundingMode, FloatDP x) { return FloatDP(asin_rnd(x.dbl)); } //!< <p/>
+    friend FloatDP acos(CurrentRoundingMode, FloatDP x) { return FloatDP(acos_rnd(x.dbl)); } //!< <p/>
+    friend FloatDP atan(CurrentRoundingMode, FloatDP x) { return FloatDP(atan_rnd(x.dbl)); } //!< <p/>
+    static FloatDP pi(CurrentRoundingMode, PrecisionType pr) { return FloatDP(pi_rnd()); } //!< <p/>
+    //!@}
+  private:
+    template<class OP> static FloatDP _apply_rnd(OP op, RoundingModeType rnd, FloatDP x1, FloatDP x2, FloatDP x3) {
+        auto old_rnd=FloatDP::get_rounding_mode(); FloatDP::set_rounding_mode(rnd);
+        FloatDP r=FloatDP(op(x1.dbl,x2.dbl,x3.dbl)); FloatDP::set_rounding_mode(old_rnd); return r;
+    }
+    template<class OP> static FloatDP _apply_rnd(OP op, RoundingModeType rnd, FloatDP x1, FloatDP x2) {
+        auto old_rnd=FloatDP::get_rounding_mode(); FloatDP::set_rounding_mode(rnd);
+        FloatDP r=FloatDP(op(x1.dbl,x2.dbl)); FloatDP::set_rounding_mode(old_rnd); return r;
+    }
+    template<class OP> static FloatDP _apply_rnd(OP op, RoundingModeType rnd, FloatDP x) {
+        auto old_rnd=FloatDP::get_rounding_mode(); FloatDP::set_rounding_mode(rnd);
+        FloatDP r=FloatDP(op(x.dbl)); FloatDP::set_rounding_mode(old_rnd); return r;
+    }
+    template<class OP, BuiltinIntegral N> static FloatDP _apply_rnd(OP op, RoundingModeType rnd, FloatDP x, N n) {
+        auto old_rnd=FloatDP::get_rounding_mode(); FloatDP::set_rounding_mode(rnd);
+        FloatDP r=FloatDP(op(x.dbl,n)); FloatDP::set_rounding_mode(old_rnd); return r;
+    }
+  public:
+    //! \name Explicitly rounded operations
+    //!@{
+    friend FloatDP max(RoundingModeType rnd, FloatDP x1, FloatDP x2) { return FloatDP(std::max(x1.dbl,x2.dbl)); } //!< <p/>
+    friend FloatDP min(RoundingModeType rnd, FloatDP x1, FloatDP x2) { return FloatDP(std::min(x1.dbl,x2.dbl)); } //!< <p/>
+    friend FloatDP abs(RoundingModeType rnd, FloatDP x) { return FloatDP(std::fabs(x.dbl)); } //!< <p/>
+    friend FloatDP mag(RoundingModeType rnd, FloatDP x) { return FloatDP(std::fabs(x.dbl)); } //!< <p/>
+
+    friend FloatDP& iadd(RoundingModeType rnd, FloatDP& x1, FloatDP x2); //!< <p/>
+    friend FloatDP& isub(RoundingModeType rnd, FloatDP& x1, FloatDP x2); //!< <p/>
+    friend FloatDP& imul(RoundingModeType rnd, FloatDP& x1, FloatDP x2); //!< <p/>
+    friend FloatDP& idiv(RoundingModeType rnd, FloatDP& x1, FloatDP x2); //!< <p/>
+
+    static FloatDP pi(RoundingModeType rnd, PrecisionType pr); //!< <p/>
+
+    friend FloatDP nul(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&nul_rnd,rnd,x); } //!< <p/>
+    friend FloatDP pos(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&pos_rnd,rnd,x); } //!< <p/>
+    friend FloatDP neg(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&neg_rnd,rnd,x); } //!< <p/>
+    friend FloatDP hlf(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&hlf_rnd,rnd,x); } //!< <p/>
+    friend FloatDP add(RoundingModeType rnd, FloatDP x1, FloatDP x2) { return _apply_rnd(&add_rnd,rnd,x1,x2); } //!< <p/>
+    friend FloatDP sub(RoundingModeType rnd, FloatDP x1, FloatDP x2) { return _apply_rnd(&sub_rnd,rnd,x1,x2); } //!< <p/>
+    friend FloatDP mul(RoundingModeType rnd, FloatDP x1, FloatDP x2) { return _apply_rnd(&mul_rnd,rnd,x1,x2); } //!< <p/>
+    friend FloatDP div(RoundingModeType rnd, FloatDP x1, FloatDP x2) { return _apply_rnd(&div_rnd,rnd,x1,x2); } //!< <p/>
+    friend FloatDP fma(RoundingModeType rnd, FloatDP x1, FloatDP x2, FloatDP x3) { return _apply_rnd(&fma_rnd,rnd,x1,x2,x3); } //!< <p/>
+    friend FloatDP pow(RoundingModeType rnd, FloatDP x, Nat m) { return _apply_rnd((double(*)(double,unsigned int))&pow_rnd,rnd,x,m); } //!< <p/>
+    friend FloatDP pow(RoundingModeType rnd, FloatDP x, Int n) { return _apply_rnd((double(*)(double,int))&pow_rnd,rnd,x,n); } //!< <p/>
+    friend FloatDP sqr(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&sqr_rnd,rnd,x); } //!< <p/>
+    friend FloatDP rec(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&rec_rnd,rnd,x); } //!< <p/>
+    friend FloatDP sqrt(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&sqrt_rnd,rnd,x); } //!< <p/>
+    friend FloatDP exp(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&exp_rnd,rnd,x); } //!< <p/>
+    friend FloatDP log(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&log_rnd,rnd,x); } //!< <p/>
+    friend FloatDP sin(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&sin_rnd,rnd,x); } //!< <p/>
+    friend FloatDP cos(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&cos_rnd,rnd,x); } //!< <p/>
+    friend FloatDP tan(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&tan_rnd,rnd,x); } //!< <p/>
+    friend FloatDP asin(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&asin_rnd,rnd,x); } //!< <p/>
+    friend FloatDP acos(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&acos_rnd,rnd,x); } //!< <p/>
+    friend FloatDP atan(RoundingModeType rnd, FloatDP x) { return _apply_rnd(&atan_rnd,rnd,x); } //!< <p/>
+
+    friend FloatDP med(RoundingModeType rnd, FloatDP x1, FloatDP x2) {
+        rounding_mode_t rounding_mode=get_rounding_mode(); set_rounding_mode(rnd); //!< <p/>
+        FloatDP r=hlf(add(rnd,x1,x2)); set_rounding_mode(rounding_mode); return r; } //!< <p/>
+    friend FloatDP rad(RoundingModeType rnd, FloatDP x1, FloatDP x2) {
+        rounding_mode_t rounding_mode=get_rounding_mode(); set_rounding_mode(rnd); //!< <p/>
+        FloatDP r=hlf(sub(rnd,x2,x1)); set_rounding_mode(rounding_mode); return r; } //!< <p/>
+    //!@}
+  private:
+    template<class OP> static Boolean _cmp(OP op, FloatDP x1, FloatDP x2) {
+        return op(x1.dbl,x2.dbl);
+    }
+/*
+    template<class OP, AnExactNumber Y> static Boolean _cmp(OP op, FloatDP const&  x1, Y const& y2) {
+        if constexpr (BuiltinIntegral<Y>) { return op(x1.dbl,y2); }
+        else if constexpr (Same<Y,ExactDouble>) { return op(x1.dbl,y2.get_d()); }
+        else { return op(cmp(x1,y2),Comparison::EQUAL); }
+    }
+    template<class OP, AnExactNumber Y> static Boolean _cmp(OP op, Y const& y1, FloatDP const&  x2) {
+        if constexpr (BuiltinIntegral<Y>) { return op(y1,x2.dbl); }
+        else if constexpr (Same<Y,ExactDouble>) { return op(y1.get_d(),x2.dbl); }
+        else { return op(cmp(y1,x2),Comparison::EQUAL); }
+    }
+*/
+  public:
+    //!@{
+    //! \name Exact information tests
+    friend Bool same(FloatDP const& x1, FloatDP const& x2) { return x1 == x2; } //!< Test equality of \a x1 and x2.
+    //!@}
+  public:
+    //!@{
+    //! \name Input/output operations
+    friend OutputStream& operator<<(OutputStream& os, FloatDP const& x); //!< Write to an output stream.
+    friend InputStream& operator>>(InputStream& os, FloatDP& x); //!< Read from an input stream.
+    //!@}
+  private:
+    friend OutputStream& write(OutputStream& os, FloatDP const& x, DecimalPlaces dgts, RoundingModeType rnd);
+    friend OutputStream& write(OutputStream& os, FloatDP const& x, DecimalPrecision dgts, RoundingModeType rnd);
+    friend OutputStream& repr(OutputStream& os, FloatDP const& x);
+    friend OutputStream& repr(OutputStream& os, FloatDP const& x, RoundingModeType rnd);
+  private:
+    // Rounded arithmetic
+    friend FloatDP pow_rnd(FloatDP x, Nat m);
+    friend FloatDP pow_rnd(FloatDP x, Int n);
+    friend FloatDP sqrt_rnd(FloatDP x);
+    friend FloatDP exp_rnd(FloatDP x);
+    friend FloatDP log_rnd(FloatDP x);
+    friend FloatDP sin_rnd(FloatDP x);
+    friend FloatDP cos_rnd(FloatDP x);
+    friend FloatDP tan_rnd(FloatDP x);
+    friend FloatDP atan_rnd(FloatDP x);
+
+    // Opposite rounded arithmetic
+    friend FloatDP pos_opp(FloatDP x) { volatile double t=-x.dbl; return FloatDP(-t); }
+    friend FloatDP neg_opp(FloatDP x) { volatile double t=x.dbl; return FloatDP(-t); }
+    friend FloatDP sqr_opp(FloatDP x) { volatile double t=-x.dbl; t=t*x.dbl; return FloatDP(-t); }
+    friend FloatDP rec_opp(FloatDP x) { volatile double t=-1.0/(volatile double&)x.dbl; return FloatDP(-t); }
+    friend FloatDP add_opp(FloatDP x, FloatDP y) { volatile double t=-x.dbl; t=t-y.dbl; return FloatDP(-t); }
+    friend FloatDP sub_opp(FloatDP x, FloatDP y) { volatile double t=-x.dbl; t=t+y.dbl; return FloatDP(-t); }
+    friend FloatDP mul_opp(FloatDP x, FloatDP y) { volatile double t=-x.dbl; t=t*y.dbl; return FloatDP(-t); }
+    friend FloatDP div_opp(FloatDP x, FloatDP y) { volatile double t=x.dbl; t=t/y.dbl; return FloatDP(-t); }
+    friend FloatDP pow_opp(FloatDP x, int n);
+  public:
+    static Nat output_places;
+    static Void set_output_places(Nat pl);
+  private:
+    friend class Rounded<FloatDP>;
+};
+
+
+template<class R, class A> R integer_cast(const A& a);
+template<> Nat integer_cast<Nat,FloatDP>(FloatDP const&);
+template<> Int integer_cast<Int,FloatDP>(FloatDP const&);
+
+struct Float32 {
+    float flt;
+  public:
+    explicit Float32(FloatDP x, BuiltinRoundingModeType rnd) {
+        BuiltinRoundingModeType old_rnd=get_builtin_rounding_mode(); set_builtin_rounding_mode(rnd);
+        (volatile float&)flt = (volatile double&)x.dbl; set_builtin_rounding_mode(old_rnd); }
+    explicit operator FloatDP() const;
+};
+
+
+
+} // namespace Ariadne
+
+#endif
-- 
2.43.0


From fddd73bd20007e27dc7ecf7f17d14fce64a7d45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:58 +0000
Subject: [PATCH 10/53] fix: round bounds outward when constructing from
 built-in numbers at low precision

---
 source/numeric/float_ball.tpl.hpp    | 2 +-
 source/numeric/float_bounds.hpp      | 6 +++---
 source/numeric/float_lower_bound.hpp | 2 +-
 source/numeric/float_upper_bound.hpp | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/numeric/float_ball.tpl.hpp b/source/numeric/float_ball.tpl.hpp
index 6206bda..ad7f165 100644
--- a/source/numeric/float_ball.tpl.hpp
+++ b/source/numeric/float_ball.tpl.hpp
@@ -66,7 +66,7 @@ template<class F, class FE> Ball<F,FE>::Ball(Ball<F,FE> const& x, PR pr)
     F d = (this->_v>=x._v) ? sub(up,this->_v,x._v) : sub(up,x._v,this->_v); _e=add(up,_e,_make_error<FE>(d));
 }
 
-template<class F, class FE> Ball<F,FE>::Ball(ExactDouble const& d, PR pr) : _v(d,pr), _e(0,_error_precision<PRE>(pr)) {}
+template<class F, class FE> Ball<F,FE>::Ball(ExactDouble const& d, PR pr) : Ball(Dyadic(d),pr) {}
 template<class F, class FE> Ball<F,FE>::Ball(TwoExp const& t, PR pr) : _v(t,pr), _e(0u,_error_precision<PRE>(pr)) {}
 template<class F, class FE> Ball<F,FE>::Ball(Integer const& z, PR pr) : _v(z,near,pr), _e(abs(Dyadic(_v)-z),up,_error_precision<PRE>(pr)) {}
 template<class F, class FE> Ball<F,FE>::Ball(Dyadic const& w, PR pr) : _v(w,near,pr), _e(abs(Dyadic(_v)-w),up,_error_precision<PRE>(pr)) {}
diff --git a/source/numeric/float_bounds.hpp b/source/numeric/float_bounds.hpp
index d57ce50..466c525 100644
--- a/source/numeric/float_bounds.hpp
+++ b/source/numeric/float_bounds.hpp
@@ -107,8 +107,8 @@ template<class F> class Bounds
     Bounds(ValidatedLowerNumber const& lower, UpperBound<F> const& upper);
     //! Construct from a lower bound \a lower and an upper bound \a upper, using precsion \a pr.
     Bounds(ValidatedLowerNumber const& lower, ValidatedUpperNumber const& upper, PR pr);
-    template<BuiltinIntegral N1, BuiltinIntegral N2> Bounds(N1 n1, N2 n2, PR pr) : _l(n1,pr), _u(n2,pr) { }
-    Bounds(ExactDouble const& dl, ExactDouble const& du, PrecisionType pr) : _l(dl,pr), _u(du,pr) { }
+    template<BuiltinIntegral N1, BuiltinIntegral N2> Bounds(N1 n1, N2 n2, PR pr) : _l(n1,down,pr), _u(n2,up,pr) { }
+    Bounds(ExactDouble const& dl, ExactDouble const& du, PrecisionType pr) : _l(dl,down,pr), _u(du,up,pr) { }
     Bounds(Dyadic const& wl, Dyadic const& wu, PrecisionType pr) : _l(wl,down,pr), _u(wu,up,pr) { }
     Bounds(Decimal const& dl, Decimal const& du, PrecisionType pr) : _l(dl,down,pr), _u(du,up,pr) { }
     Bounds(Rational const& ql, Rational const& qu, PrecisionType pr) : _l(ql,down,pr), _u(qu,up,pr) { }
@@ -118,7 +118,7 @@ template<class F> class Bounds
     Bounds(const Bounds<F>& x, PR pr) : _l(x._l,down,pr), _u(x._u,up,pr) { }
 
     template<BuiltinIntegral N> Bounds(N n, PR pr) : _l(n,down,pr), _u(n,up,pr) { }
-    Bounds(ExactDouble const& d, PR pr) : _l(d,pr), _u(d,pr) { }
+    Bounds(ExactDouble const& d, PR pr) : _l(d,down,pr), _u(d,up,pr) { }
         Bounds(TwoExp const& t, PR pr) : _l(t,pr), _u(t,pr) { }
         Bounds(const Integer& z, PR pr) : _l(z,down,pr), _u(z,up,pr) { }
         Bounds(const Dyadic& w, PR pr) : _l(w,down,pr), _u(w,up,pr) { }
diff --git a/source/numeric/float_lower_bound.hpp b/source/numeric/float_lower_bound.hpp
index 8954883..d14bdb5 100644
--- a/source/numeric/float_lower_bound.hpp
+++ b/source/numeric/float_lower_bound.hpp
@@ -70,7 +70,7 @@ template<class F> class LowerBound
     LowerBound(RawType const& l) : _l(l) { }
 
     template<BuiltinIntegral N> LowerBound(N n, PR pr) : LowerBound(ExactDouble(n),pr) { }
-    LowerBound(const ExactDouble& d, PR pr) : _l(d,pr) { }
+    LowerBound(const ExactDouble& d, PR pr) : _l(d,down,pr) { }
         LowerBound(const TwoExp& t, PR pr) : _l(t,pr) { }
         LowerBound(const Integer& z, PR pr) : _l(z,down,pr) { }
         LowerBound(const Dyadic& w, PR pr) : _l(w,down,pr) { }
diff --git a/source/numeric/float_upper_bound.hpp b/source/numeric/float_upper_bound.hpp
index b7d0cd4..4e62e50 100644
--- a/source/numeric/float_upper_bound.hpp
+++ b/source/numeric/float_upper_bound.hpp
@@ -70,7 +70,7 @@ template<class F> class UpperBound
     UpperBound(RawType const& u) : _u(u) { }
 
     template<BuiltinIntegral N> UpperBound(N n, PR pr) : UpperBound(ExactDouble(n),pr) { }
-    UpperBound(const ExactDouble& d, PR pr) : _u(d,pr) { }
+    UpperBound(const ExactDouble& d, PR pr) : _u(d,up,pr) { }
         UpperBound(const TwoExp& t, PR pr) : _u(t,pr) { }
         UpperBound(const Integer& z, PR pr) : _u(z,up,pr) { }
         UpperBound(const Dyadic& w, PR pr) : _u(w,up,pr) { }
-- 
2.43.0


From 021a632ed37bfa4592f94203ed10476f3bdd7734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:52 +0000
Subject: [PATCH 11/53] fix: constructing an Integer from extreme or negative
 built-in integers gave a wrong value

---
 source/numeric/integer.cpp | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/source/numeric/integer.cpp b/source/numeric/integer.cpp
index 374ee33..7c13b93 100644
--- a/source/numeric/integer.cpp
+++ b/source/numeric/integer.cpp
@@ -55,32 +55,22 @@ Integer::Integer(Nat32 m) {
 
 Integer::Integer(Int32 n) {
     mpz_init(_mpz);
-    mpz_set_ui(_mpz,static_cast<long unsigned int>(n.get_si()));
+    mpz_set_si(_mpz,n.get_si());
 }
 
 Integer::Integer(Nat64 m) {
     mpz_init(_mpz);
-    static const unsigned int max=std::numeric_limits<Int>::max();
-    static const unsigned long long int lmax=max;
-    static const Integer zmax=Integer(Int32(max));
-    unsigned long long int larg = m.get_ui();
-    unsigned long long int lquot = larg / lmax;
-    unsigned long long int lrem = larg % lmax;
-    unsigned int rem = static_cast<unsigned int>(lrem);
-    unsigned int quot = static_cast<unsigned int>(lquot);
-    ARIADNE_ASSERT(larg==lquot*lmax+lrem);
-    mpz_set_ui(_mpz,rem);
-    if(lquot!=0) {
-        *this += Integer(quot)*zmax;
-    }
+    const uint64_t larg = m.get_ui();
+    mpz_import(_mpz,1,-1,sizeof(larg),0,0,&larg);
 }
 
 Integer::Integer(Int64 n) {
     mpz_init(_mpz);
-    if(n.get_si()<0) {
-        *this = -Integer(Nat64(-n.get_si()));
+    const int64_t larg = n.get_si();
+    if(larg<0) {
+        *this = -Integer(Nat64(-static_cast<uint64_t>(larg)));
     } else {
-        *this = Integer(Nat64(n.get_si()));
+        *this = Integer(Nat64(larg));
     }
 }
 
-- 
2.43.0


From a7d5d94cb497c5b48a23533743c584a400ceed28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:52 +0000
Subject: [PATCH 12/53] fix: Integer remainder did not match the quotient

---
 source/numeric/integer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/integer.cpp b/source/numeric/integer.cpp
index 7c13b93..2957a22 100644
--- a/source/numeric/integer.cpp
+++ b/source/numeric/integer.cpp
@@ -189,7 +189,7 @@ Integer quot(Integer const& z1, Integer const& z2) {
 
 Integer rem(Integer const& z1, Integer const& z2) {
     Integer r;
-    mpz_cdiv_r(r._mpz,z1._mpz,z2._mpz);
+    mpz_fdiv_r(r._mpz,z1._mpz,z2._mpz);
     return r;
 }
 
-- 
2.43.0


From 1f23b41776ebf70eaf48d29ad0a5c49605242820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:52 +0000
Subject: [PATCH 13/53] fix: Dyadic construction from a raw number ignored it,
 and moving from a Dyadic lost its precision

---
 source/numeric/dyadic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/numeric/dyadic.cpp b/source/numeric/dyadic.cpp
index 03bac1d..199edd8 100644
--- a/source/numeric/dyadic.cpp
+++ b/source/numeric/dyadic.cpp
@@ -108,7 +108,7 @@ Dyadic::Dyadic() {
 
 Dyadic::Dyadic(mpf_t mpf) {
     mpf_init2(_mpf,maximum_precision);
-    mpf_set(_mpf,_mpf);
+    mpf_set(_mpf,mpf);
 }
 
 Dyadic::Dyadic(Integer const& p, Natural q) {
@@ -175,7 +175,7 @@ Dyadic::Dyadic(const Dyadic& x) {
 }
 
 Dyadic::Dyadic(Dyadic&& x) {
-    mpf_init(_mpf);
+    mpf_init2(_mpf,maximum_precision);
     mpf_swap(_mpf,x._mpf);
 }
 
-- 
2.43.0


From c063ee521262dbf7d52c95bec9c1d40922f1b439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:52 +0000
Subject: [PATCH 14/53] fix: scaling an infinite Dyadic by a power of two gave
 zero

---
 source/numeric/dyadic.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/numeric/dyadic.cpp b/source/numeric/dyadic.cpp
index 199edd8..3644785 100644
--- a/source/numeric/dyadic.cpp
+++ b/source/numeric/dyadic.cpp
@@ -248,6 +248,7 @@ Dyadic operator-(TwoExp y) {
 }
 
 Dyadic operator*(Dyadic x, TwoExp y) {
+    if(not is_finite(x)) { return x; }
     const int q=y.exponent();
     if(q>=0) { mpf_mul_2exp(x._mpf,x._mpf,static_cast<mp_bitcnt_t>(q)); }
     else { mpf_div_2exp(x._mpf,x._mpf,static_cast<mp_bitcnt_t>(-q)); }
-- 
2.43.0


From c827507f455d5b1df3e511fc827355032641d853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:52 +0000
Subject: [PATCH 15/53] fix: comparing large rationals returned a value which
 is no Comparison, and nan compared less

---
 source/numeric/integer.cpp  | 3 ++-
 source/numeric/rational.cpp | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/numeric/integer.cpp b/source/numeric/integer.cpp
index 2957a22..5042c77 100644
--- a/source/numeric/integer.cpp
+++ b/source/numeric/integer.cpp
@@ -250,7 +250,8 @@ Comparison cmp(Integer const& z1, Integer const& z2) {
 }
 
 Comparison cmp(Integer const& z1, Int const& n2) {
-    return Comparison(mpz_cmp_si(z1._mpz,n2));
+    auto c=mpz_cmp_si(z1._mpz,n2);
+    return c==0 ? Comparison::EQUAL : (c>0?Comparison::GREATER:Comparison::LESS);
 }
 
 Boolean eq(Integer const& z1, Integer const& z2) {
diff --git a/source/numeric/rational.cpp b/source/numeric/rational.cpp
index 711910c..02aaebd 100644
--- a/source/numeric/rational.cpp
+++ b/source/numeric/rational.cpp
@@ -100,7 +100,8 @@ template<> class FiniteOperations<Rational> {
         if(mpq_cmp(q1._mpq,q2._mpq)<=0) { mpq_set(r._mpq,q1._mpq); } else { mpq_set(r._mpq,q2._mpq); } }
     static Void abs(Rational& r, Rational const& q) { mpq_abs(r._mpq,q._mpq); }
 
-    static Comparison cmp(Rational const& q1, Rational const& q2) { return static_cast<Comparison>(mpq_cmp(q1._mpq,q2._mpq)); }
+    static Comparison cmp(Rational const& q1, Rational const& q2) {
+        int c=mpq_cmp(q1._mpq,q2._mpq); return c==0 ? Comparison::EQUAL : c>0 ? Comparison::GREATER : Comparison::LESS; }
     static Boolean eq(Rational const& q1, Rational const& q2) { return mpq_equal(q1._mpq,q2._mpq); }
 };
 
@@ -379,7 +380,7 @@ Boolean eq(Rational const& q1, Rational const& q2) {
 }
 
 Boolean lt(Rational const& q1, Rational const& q2) {
-    return cmp(q1,q2)<Comparison::EQUAL;
+    return cmp(q1,q2)==Comparison::LESS;
 }
 
 Rational Rational::inf(Sign sgn) {
@@ -463,7 +464,8 @@ Comparison cmp(ExactDouble const& x1, Rational const& q2) {
 }
 
 Comparison cmp(Rational const& q1, Int const& n2) {
-    return Comparison(mpq_cmp_si(q1._mpq,n2,1));
+    int c=mpq_cmp_si(q1._mpq,n2,1);
+    return c==0 ? Comparison::EQUAL : (c>0?Comparison::GREATER:Comparison::LESS);
 }
 
 Comparison cmp(Int const& n1, Rational const& q2) {
-- 
2.43.0


From 71ae210de00a9ab31b0c7ee700ee85e6247e85aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:52 +0000
Subject: [PATCH 16/53] fix: hlf and pow of rational bounds and neg of dyadic
 bounds did not enclose the result

---
 source/numeric/dyadic.hpp   | 2 +-
 source/numeric/rational.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/numeric/dyadic.hpp b/source/numeric/dyadic.hpp
index 5c73f2a..cc0c138 100644
--- a/source/numeric/dyadic.hpp
+++ b/source/numeric/dyadic.hpp
@@ -305,7 +305,7 @@ template<> class Bounds<Dyadic> {
     friend Bounds<Dyadic> pos(Bounds<Dyadic> const& w) {
         return Bounds<Dyadic>(pos(w._l),pos(w._u)); }
     friend Bounds<Dyadic> neg(Bounds<Dyadic> const& w) {
-        return Bounds<Dyadic>(neg(w._l),neg(w._u)); }
+        return Bounds<Dyadic>(neg(w._u),neg(w._l)); }
     friend Bounds<Dyadic> sqr(Bounds<Dyadic> const& w) {
         if(w._l>0) { return Bounds<Dyadic>(sqr(w._l),sqr(w._u)); }
         else if(w._u<0) { return Bounds<Dyadic>(sqr(w._u),sqr(w._l)); }
diff --git a/source/numeric/rational.cpp b/source/numeric/rational.cpp
index 02aaebd..4380166 100644
--- a/source/numeric/rational.cpp
+++ b/source/numeric/rational.cpp
@@ -665,7 +665,7 @@ RationalBounds pos(RationalBounds const& q) {
 RationalBounds neg(RationalBounds const& q) {
     return RationalBounds(neg(q._u),neg(q._l)); }
 RationalBounds hlf(RationalBounds const& q) {
-    return RationalBounds(hlf(q._u),hlf(q._l)); }
+    return RationalBounds(hlf(q._l),hlf(q._u)); }
 RationalBounds sqr(RationalBounds const& q) {
     return _sqr(RoundExact(),q); }
 RationalBounds rec(RationalBounds const& q) {
@@ -680,7 +680,7 @@ RationalBounds mul(RationalBounds const& q1, RationalBounds const& q2) {
 RationalBounds div(RationalBounds const& q1, RationalBounds const& q2) {
     return _div(RoundExact(),q1,q2); }
 RationalBounds pow(RationalBounds const& q, Nat m) {
-    RationalBounds r = (m%2==0) ? abs(q) : q;  Int n=static_cast<Int>(m); return RationalBounds(pow(q._l,n),pow(q._u,n)); }
+    RationalBounds r = (m%2==0) ? abs(q) : q;  Int n=static_cast<Int>(m); return RationalBounds(pow(r._l,n),pow(r._u,n)); }
 RationalBounds pow(RationalBounds const& q, Int n) {
     if(n<0) { return pow(rec(q),Nat(-n)); } else return pow(q,Nat(n));}
 
-- 
2.43.0


From 22eeb6b7ceed0d1ab4d9a472d69a93235f4515f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:40 +0000
Subject: [PATCH 17/53] fix: comparing an infinite rational with an infinite
 double ignored the rational

---
 source/numeric/rational.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/source/numeric/rational.cpp b/source/numeric/rational.cpp
index 4380166..5b11b53 100644
--- a/source/numeric/rational.cpp
+++ b/source/numeric/rational.cpp
@@ -452,11 +452,7 @@ Comparison cmp(Rational const& q1, Rational const& q2) {
 Comparison cmp(Rational const& q1, ExactDouble const& x2) {
     double d2=x2.get_d();
     assert(not std::isnan(d2));
-    if(std::isfinite(d2)) {
-        return cmp(q1,Rational(x2));
-    } else {
-        return d2 > 0.0 ? Comparison::LESS : Comparison::GREATER;
-    }
+    return cmp(q1,Rational(x2));
 }
 
 Comparison cmp(ExactDouble const& x1, Rational const& q2) {
-- 
2.43.0


From de25a74cf8a1d925b834af0dc7ce3cd4f4dcd882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:27 +0000
Subject: [PATCH 18/53] fix: add discarded interval coefficients to the error
 when sweeping

SweeperBase::_sweep computed te+mag(c) and dropped the result, so terms removed
from a model with bounds or interval coefficients were lost from its error.
---
 source/function/taylor_model.tpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/function/taylor_model.tpl.hpp b/source/function/taylor_model.tpl.hpp
index 2a42577..352552a 100644
--- a/source/function/taylor_model.tpl.hpp
+++ b/source/function/taylor_model.tpl.hpp
@@ -249,7 +249,7 @@ Void SweeperBase<F>::_sweep(Expansion<MultiIndex,FloatBounds<PR>>& p, FloatError
     while(adv!=end) {
         if(this->_discard(adv->index(),mag(adv->coefficient()).raw())) {
             //te+=abs(adv->coefficient());
-            te+mag(adv->coefficient());
+            te+=mag(adv->coefficient());
         } else {
             *curr=*adv;
             ++curr;
@@ -294,7 +294,7 @@ Void SweeperBase<F>::_sweep(Expansion<MultiIndex,FloatUpperInterval<PR>>& p, Flo
     while(adv!=end) {
         if(this->_discard(adv->index(),mag(adv->coefficient()).raw())) {
             //te+=abs(adv->coefficient());
-            te+mag(adv->coefficient());
+            te+=mag(adv->coefficient());
         } else {
             *curr=*adv;
             ++curr;
-- 
2.43.0


From 3408def14dc40b26889d4d29eae0e06a5f093b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:44 +0000
Subject: [PATCH 19/53] fix: error of adding and multiply-adding Taylor model
 coefficients did not cover rounding of the centre

---
 source/function/taylor_model.tpl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/function/taylor_model.tpl.hpp b/source/function/taylor_model.tpl.hpp
index 352552a..10035b8 100644
--- a/source/function/taylor_model.tpl.hpp
+++ b/source/function/taylor_model.tpl.hpp
@@ -637,7 +637,7 @@ template<class F> F add_err(F const& x, ValidatedApproximation<F> const& c, Erro
     F::set_rounding_upward();
     Rounded<F> u=xv+cu;
     Rounded<F> ml=(-xv)-cl;
-    re += hlf(u+ml);
+    re += max(u-rv,ml+rv);
     return F(rv);
 }
 
@@ -823,7 +823,7 @@ template<class F> F fma_err(F const& x, F const& y, F z, Error<F>& e) {
     Rounded<F> myv=-yv;
     Rounded<F> u=xv*yv+zv;
     Rounded<F> ml=xv*myv-zv;
-    re+=(u+ml)/2;
+    re+=max(u-rv,ml+rv);
     return F(rv);
 }
 
@@ -847,7 +847,7 @@ template<class F> F fma_err(ValidatedApproximation<F> const& c, F const& x, F y,
         u=xv*cl+yv;
         ml=xv*mcu-yv;
     }
-    re+=(u+ml)/2;
+    re+=max(u-rv,ml+rv);
     return F(rv);
 }
 
-- 
2.43.0


From b48fe17f00b93306a30d40217caa4fbbd8795beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:44 +0000
Subject: [PATCH 20/53] fix: coefficient helpers of affine models
 underestimated the rounding error

---
 source/function/model_utilities.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/source/function/model_utilities.hpp b/source/function/model_utilities.hpp
index 4724185..ed584d4 100644
--- a/source/function/model_utilities.hpp
+++ b/source/function/model_utilities.hpp
@@ -50,6 +50,10 @@ template<ARawFloat F> Rounded<F>& cast_rounded(Error<F>& x) { return reinterpret
 template<class F> inline Void acc_err(F const& ml, F const& u, F& e) {
     e=add(rounded,e,hlf(add(rounded,ml,u)));
 }
+// Accumulate the error of the approximation r to a value known to lie between -ml and u
+template<class F> inline Void acc_err(F const& r, F const& ml, F const& u, F& e) {
+    e=add(rounded,e,max(sub(rounded,u,r),add(rounded,ml,r)));
+}
 
 template<class F, class PRE> Ball<F,RawFloatType<PRE>> add(F const& x1, F const& x2, PRE pre) {
     F mx1=-x1;
@@ -98,8 +102,8 @@ template<class F> F add_err(F const& x, ValidatedApproximation<F> const& c, Erro
     F rv=add(rounded,xv,cm);
     F::set_rounding_upward();
     F u=add(rounded,xv,cu);
-    F ml=add(rounded,(-xv),cl);
-    acc_err(ml,u,re);
+    F ml=sub(rounded,(-xv),cl);
+    acc_err(rv,ml,u,re);
     return F(rv);
 }
 
@@ -185,12 +189,12 @@ template<class F> F mul_err(F const& x, ValidatedApproximation<F> const& c, Erro
         F mcl=-cl;
         F u=mul(rounded,xv,cu);
         F ml=mul(rounded,xv,mcl);
-        acc_err(ml,u,re);
+        acc_err(rv,ml,u,re);
     } else {
         F mcu=-cu;
         F u=mul(rounded,xv,cl);
         F ml=mul(rounded,xv,mcu);
-        acc_err(ml,u,re);
+        acc_err(rv,ml,u,re);
     }
     return F(rv);
 }
@@ -344,7 +348,7 @@ template<class F> F lin_err(F const& a1, F const& b1, F const& a2, F const& b2,
     F mb2=-b2;
     Rounded<F> u=cast_rounded(a1)*cast_rounded(b2)+cast_rounded(b1)*cast_rounded(a2);
     Rounded<F> ml=cast_rounded(a1)*cast_rounded(mb2)+cast_rounded(mb1)*cast_rounded(a2);
-    cast_rounded(e) += hlf(ml+u);
+    cast_rounded(e) += max(u-cast_rounded(r),ml+cast_rounded(r));
     return r;
 }
 
-- 
2.43.0


From 2c07ab5e1f8df6fc6f7c44a4c6351b954b06e098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:44 +0000
Subject: [PATCH 21/53] fix: affine model product lost the first factor's range
 times the second's error

---
 source/function/affine_model.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/function/affine_model.tpl.hpp b/source/function/affine_model.tpl.hpp
index fa87488..f1a3e83 100644
--- a/source/function/affine_model.tpl.hpp
+++ b/source/function/affine_model.tpl.hpp
@@ -188,7 +188,7 @@ template<class F> struct AlgebraOperations<AffineModel<ValidatedTag,F>> {
         }
 
         r.error() = (r.error()+a1.error()*a2.error())
-                        + ( (mag(a1.value())+norm(a1.gradient()) * a2.error()) + a1.error()*(mag(a2.value())+norm(a2.gradient())) )
+                        + ( (mag(a1.value())+norm(a1.gradient())) * a2.error() + a1.error()*(mag(a2.value())+norm(a2.gradient())) )
                         + norm(a1.gradient()) * norm(a2.gradient());
 
         return r;
-- 
2.43.0


From c0da264e51808924367f9d464021bae6339f4633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:19 +0000
Subject: [PATCH 22/53] fix: product of approximate affine models added the
 factors

---
 source/function/affine_model.tpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/function/affine_model.tpl.hpp b/source/function/affine_model.tpl.hpp
index f1a3e83..64e6934 100644
--- a/source/function/affine_model.tpl.hpp
+++ b/source/function/affine_model.tpl.hpp
@@ -99,9 +99,9 @@ template<class F> struct AlgebraOperations<AffineModel<ApproximateTag,F>> {
         PrecisionType prec=max(a1.precision(),a2.precision());
 
         AffineModelType r(n,prec);
-        r=a1.value()+a2.value();
+        r=a1.value()*a2.value();
         for(SizeType i=0; i!=n; ++i) {
-            r[i]=a1.value()*a2.gradient(i)+a1.gradient(i)+a2.value();
+            r[i]=a1.value()*a2.gradient(i)+a1.gradient(i)*a2.value();
         }
         return r;
     }
-- 
2.43.0


From 624c635bb3de9d5ecdd24823354c61d50348a9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:22 +0000
Subject: [PATCH 23/53] fix: derivatives of asin and acos are 1/sqrt(1-x^2) and
 -1/sqrt(1-x^2)

---
 source/numeric/operators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/numeric/operators.hpp b/source/numeric/operators.hpp
index e5c7097..97e51d5 100644
--- a/source/numeric/operators.hpp
+++ b/source/numeric/operators.hpp
@@ -385,13 +385,13 @@ struct Tan : OperatorObject<Tan> {
 struct Asin : OperatorObject<Asin> {
     static constexpr OperatorCode code() { return OperatorCode::ASIN; } static constexpr OperatorKind kind() { return OperatorKind::UNARY; }
     template<class A> auto operator()(A&& a) const -> decltype(asin(a)) { return asin(a); }
-    template<class X> X derivative(const X& a) const { return rec(1-sqrt(a)); }
+    template<class X> X derivative(const X& a) const { return rec(sqrt(1-sqr(a))); }
     template<class X,class D> D derivative(const X& a, const D& d) const { return derivative(a)*d; }
 };
 struct Acos : OperatorObject<Acos> {
     static constexpr OperatorCode code() { return OperatorCode::ACOS; } static constexpr OperatorKind kind() { return OperatorKind::UNARY; }
     template<class A> auto operator()(A&& a) const -> decltype(acos(a)) { return acos(a); }
-    template<class X> X derivative(const X& a) const { return rec(1-sqrt(a)); }
+    template<class X> X derivative(const X& a) const { return neg(rec(sqrt(1-sqr(a)))); }
     template<class X,class D> D derivative(const X& a, const D& d) const { return derivative(a)*d; }
 };
 struct Atan : OperatorObject<Atan> {
-- 
2.43.0


From e5f968f97ce01a4fa1e59035acc1ed4cf2b6b4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:22 +0000
Subject: [PATCH 24/53] fix: do not simplify sqrt(sqr(x)) or atan(tan(x)) to x

---
 source/numeric/operators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/numeric/operators.hpp b/source/numeric/operators.hpp
index 97e51d5..fb5d77c 100644
--- a/source/numeric/operators.hpp
+++ b/source/numeric/operators.hpp
@@ -499,15 +499,15 @@ struct TernaryArithmeticOperator : OperatorVariant<Fma> { using OperatorVariant:
 
 
 
+// Right inverses: op(inverse(op)(x))=x wherever the left-hand side is defined.
+// Note that sqrt(sqr(x))=|x|, and that atan(tan(x)) lies in (-pi/2,pi/2), so Sqrt and Atan have no right inverse here.
 constexpr Pos inverse(Pos) { return Pos(); }
 constexpr Neg inverse(Neg) { return Neg(); }
 constexpr Rec inverse(Rec) { return Rec(); }
 constexpr Sqrt inverse(Sqr) { return Sqrt(); }
-constexpr Sqr inverse(Sqrt) { return Sqr(); }
 constexpr Log inverse(Exp) { return Log(); }
 constexpr Exp inverse(Log) { return Exp(); }
 constexpr Atan inverse(Tan) { return Atan(); }
-constexpr Tan inverse(Atan) { return Tan(); }
 
 template<class OP> using InverseType = decltype(inverse(declval<OP>()));
 
-- 
2.43.0


From 9c21634823adcb1ad0393713f0d36c1cd5c6ea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:22 +0000
Subject: [PATCH 25/53] fix: negative indicator of a conjunction (disjunction)
 is a maximum (minimum)

---
 source/symbolic/expression.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/symbolic/expression.cpp b/source/symbolic/expression.cpp
index 6592b5c..574b576 100644
--- a/source/symbolic/expression.cpp
+++ b/source/symbolic/expression.cpp
@@ -320,8 +320,10 @@ RE _indicator(Less, RE e1, RE e2, Sign sign) { return _indicator(Leq(),e1,e2,sig
 RE _indicator(Equal op, RE e1, RE e2, Sign sign) { ARIADNE_FAIL_MSG("Cannot compute indicator function of expression " << op(e1,e2)); }
 RE _indicator(Unequal op, RE e1, RE e2, Sign sign) { ARIADNE_FAIL_MSG("Cannot compute indicator function of expression " << op(e1,e2)); }
 
-RE _indicator(AndOp, KE e1, KE e2, Sign sign) { return min(indicator(e1,sign),indicator(e2,sign)); }
-RE _indicator(OrOp, KE e1, KE e2, Sign sign) { return max(indicator(e1,sign),indicator(e2,sign)); }
+RE _indicator(AndOp, KE e1, KE e2, Sign sign) {
+    if(sign==Sign::POSITIVE) { return min(indicator(e1,sign),indicator(e2,sign)); } else { return max(indicator(e1,sign),indicator(e2,sign)); } }
+RE _indicator(OrOp, KE e1, KE e2, Sign sign) {
+    if(sign==Sign::POSITIVE) { return max(indicator(e1,sign),indicator(e2,sign)); } else { return min(indicator(e1,sign),indicator(e2,sign)); } }
 RE _indicator(NotOp, KE e, Sign sign) { return neg(indicator(e,sign)); }
 
 Expression<Real> indicator(ConstantExpressionNode<Kleenean> e, Sign sign) {
-- 
2.43.0


From 375c1e6ebf5b9c27046c2f1a7d334b0a943dced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:22 +0000
Subject: [PATCH 26/53] fix: derivative of a component of a vector expression
 recursed without end

---
 source/symbolic/expression.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/symbolic/expression.cpp b/source/symbolic/expression.cpp
index 574b576..0def379 100644
--- a/source/symbolic/expression.cpp
+++ b/source/symbolic/expression.cpp
@@ -485,6 +485,7 @@ Bool opposite(Expression<Kleenean> e1, Expression<Kleenean> e2) {
 namespace {
 Expression<Real> derivative(const Constant<Real>& e, Variable<Real> v) { return Expression<Real>(Real(0)); }
 Expression<Real> derivative(const Variable<Real>& e, Variable<Real> v) { return Expression<Real>(Real(e==v ?1:0)); }
+Expression<Real> derivative(const SymbolicType<Real(RealVector,SizeType)>& e, Variable<Real> v) { return derivative(simplify_component(e._vec,e._ind),v); }
 }
 
 Expression<Real> derivative(const Expression<Real>& e, Variable<Real> v)
-- 
2.43.0


From f47500c1d8c58e53dd8e8aa67afdcf152ee78b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:51 +0000
Subject: [PATCH 27/53] fix: opposite() of two comparisons threw
 bad_variant_access

---
 source/symbolic/expression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/symbolic/expression.cpp b/source/symbolic/expression.cpp
index 0def379..a59b671 100644
--- a/source/symbolic/expression.cpp
+++ b/source/symbolic/expression.cpp
@@ -473,9 +473,9 @@ Bool opposite(Expression<Kleenean> e1, Expression<Kleenean> e2) {
 
     if (e1cp && e2cp) {
         if (identical(e1cp->op(),e2cp->op())) {
-            return identical(e1.arg1(),e2.arg2()) && identical(e1.arg2(),e2.arg1());
+            return identical(e1cp->arg1(),e2cp->arg2()) && identical(e1cp->arg2(),e2cp->arg1());
         } else if (opposite(e1cp->op(),e2cp->op())) {
-            return identical(e1.arg1(),e2.arg1()) && identical(e1.arg2(),e2.arg2());
+            return identical(e1cp->arg1(),e2cp->arg1()) && identical(e1cp->arg2(),e2cp->arg2());
         }
     }
     return false;
-- 
2.43.0


From 8e8be6f950002608d3e860feb62d6d14e2be1b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:11 +0000
Subject: [PATCH 28/53] fix: a==b and b==a are not mutual negations

---
 source/symbolic/expression.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/symbolic/expression.cpp b/source/symbolic/expression.cpp
index a59b671..aaaf94b 100644
--- a/source/symbolic/expression.cpp
+++ b/source/symbolic/expression.cpp
@@ -473,6 +473,8 @@ Bool opposite(Expression<Kleenean> e1, Expression<Kleenean> e2) {
 
     if (e1cp && e2cp) {
         if (identical(e1cp->op(),e2cp->op())) {
+            // Equality and inequality are symmetric, so are not negated by exchanging their arguments
+            if (e1cp->op().code()==Equal::code() || e1cp->op().code()==Unequal::code()) { return false; }
             return identical(e1cp->arg1(),e2cp->arg2()) && identical(e1cp->arg2(),e2cp->arg1());
         } else if (opposite(e1cp->op(),e2cp->op())) {
             return identical(e1cp->arg1(),e2cp->arg1()) && identical(e1cp->arg2(),e2cp->arg2());
-- 
2.43.0


From 10b473c91784a85234f1f2008451fa865ed68f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:51 +0000
Subject: [PATCH 29/53] fix: converting a formula with a constant operand to a
 procedure lost the constant

---
 source/function/procedure.tpl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/function/procedure.tpl.hpp b/source/function/procedure.tpl.hpp
index 1ae9da6..6378322 100644
--- a/source/function/procedure.tpl.hpp
+++ b/source/function/procedure.tpl.hpp
@@ -68,7 +68,8 @@ template<class Y> Void _convert_impl(List<ProcedureInstruction>& p, List<Y>& c,
         Void operator()(GradedFormulaNode<Y> const& f) {
             p.append(ProcedureInstruction(f._op,_convert(p,c,f._arg,cache),f._num)); }
         Void operator()(ScalarFormulaNode<Y> const& f) {
-            c.append(f._cnst); p.append(ProcedureInstruction(f._op,c.size()-1u,_convert(p,c,f._arg,cache))); }
+            const SizeType ci=c.size(); c.append(f._cnst); const SizeType ai=_convert(p,c,f._arg,cache);
+            p.append(ProcedureInstruction(ProcedureInstructionVariant(ScalarProcedureInstruction(f._op,ci,ai)))); }
     };
     f.accept(Visitor{p,c,cache});
 }
-- 
2.43.0


From f7a7217da686a73dd112d8283085fe2eceb35ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:51 +0000
Subject: [PATCH 30/53] fix: initialise the argument size of a vector procedure
 made from a procedure

---
 source/function/procedure.tpl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/function/procedure.tpl.hpp b/source/function/procedure.tpl.hpp
index 6378322..72f03cc 100644
--- a/source/function/procedure.tpl.hpp
+++ b/source/function/procedure.tpl.hpp
@@ -183,7 +183,8 @@ Vector<Procedure<Y>>::Vector(VectorMultivariateFunction<P> const& f)
 
 template<class Y>
 Vector<Procedure<Y>>::Vector(const Procedure<Y>& f)
-    : _constants(f._constants)
+    : _argument_size(f._argument_size)
+    , _constants(f._constants)
     , _instructions(f._instructions)
     , _results(1u,f._instructions.size()-1u)
 {
-- 
2.43.0


From ff96a45d8634ff88dc780a2c027872d51c2623cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:51 +0000
Subject: [PATCH 31/53] fix: back-propagation through max and min cut off
 solutions

---
 source/function/procedure.tpl.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/function/procedure.tpl.hpp b/source/function/procedure.tpl.hpp
index 72f03cc..5e2cb9c 100644
--- a/source/function/procedure.tpl.hpp
+++ b/source/function/procedure.tpl.hpp
@@ -247,22 +247,22 @@ template<class X> Void backpropagate(X const& r, Add, X& a1, X& a2) { restrict(a
 template<class X> Void backpropagate(X const& r, Sub, X& a1, X& a2) { restrict(a1,a2+r); restrict(a2,a1-r); }
 template<class X> Void backpropagate(X const& r, Mul, X& a1, X& a2) { restrict(a1,r/a2); restrict(a2,r/a1); }
 template<class X> Void backpropagate(X const& r, Div, X& a1, X& a2) { restrict(a1,a2*r); restrict(a2,a1/r); }
-template<class X> Void backpropagate(X const& r, Max, X& a1, X& a2) { restrict(a1,max(r,a2)); restrict(a2,max(r,a1)); }
-template<class X> Void backpropagate(X const& r, Min, X& a1, X& a2) { restrict(a1,min(r,a2)); restrict(a2,min(r,a1)); }
+template<class X> Void backpropagate(X const& r, Max, X& a1, X& a2) { restrict(a1,min(r,a1)); restrict(a2,min(r,a2)); }
+template<class X> Void backpropagate(X const& r, Min, X& a1, X& a2) { restrict(a1,max(r,a1)); restrict(a2,max(r,a2)); }
 
 template<class X, class Y> Void backpropagate(X const& r, Add, Y const& c1, X& a2) { restrict(a2,r-c1); }
 template<class X, class Y> Void backpropagate(X const& r, Sub, Y const& c1, X& a2) { restrict(a2,c1-r); }
 template<class X, class Y> Void backpropagate(X const& r, Mul, Y const& c1, X& a2) { restrict(a2,r/c1); }
 template<class X, class Y> Void backpropagate(X const& r, Div, Y const& c1, X& a2) { restrict(a2,c1/r); }
-template<class X, class Y> Void backpropagate(X const& r, Max, Y const& c1, X& a2) { restrict(a2,max(r,c1)); }
-template<class X, class Y> Void backpropagate(X const& r, Min, Y const& c1, X& a2) { restrict(a2,min(r,c1)); }
+template<class X, class Y> Void backpropagate(X const& r, Max, Y const& c1, X& a2) { restrict(a2,min(r,a2)); }
+template<class X, class Y> Void backpropagate(X const& r, Min, Y const& c1, X& a2) { restrict(a2,max(r,a2)); }
 
 template<class X, class Y> Void backpropagate(X const& r, Add, X& a1, Y const& c2) { restrict(a1,r-c2); }
 template<class X, class Y> Void backpropagate(X const& r, Sub, X& a1, Y const& c2) { restrict(a1,c2+r); }
 template<class X, class Y> Void backpropagate(X const& r, Mul, X& a1, Y const& c2) { restrict(a1,r/c2); }
 template<class X, class Y> Void backpropagate(X const& r, Div, X& a1, Y const& c2) { restrict(a1,c2*r); }
-template<class X, class Y> Void backpropagate(X const& r, Max, X& a1, Y const& c2) { restrict(a1,max(r,c2)); }
-template<class X, class Y> Void backpropagate(X const& r, Min, X& a1, Y const& c2) { restrict(a1,min(r,c2)); }
+template<class X, class Y> Void backpropagate(X const& r, Max, X& a1, Y const& c2) { restrict(a1,min(r,a1)); }
+template<class X, class Y> Void backpropagate(X const& r, Min, X& a1, Y const& c2) { restrict(a1,max(r,a1)); }
 
 template<class X> Void backpropagate(X const& r, Pos, X& a) { restrict(a,r); }
 template<class X> Void backpropagate(X const& r, Neg, X& a) { restrict(a,neg(r)); }
-- 
2.43.0


From 82740eee817bd1d1d9ee322236be660db60c7970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:51 +0000
Subject: [PATCH 32/53] fix: back-propagation through nul, hlf and abs recursed
 without end

---
 source/function/procedure.tpl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/function/procedure.tpl.hpp b/source/function/procedure.tpl.hpp
index 5e2cb9c..cecf2ae 100644
--- a/source/function/procedure.tpl.hpp
+++ b/source/function/procedure.tpl.hpp
@@ -264,8 +264,11 @@ template<class X, class Y> Void backpropagate(X const& r, Div, X& a1, Y const& c
 template<class X, class Y> Void backpropagate(X const& r, Max, X& a1, Y const& c2) { restrict(a1,min(r,a1)); }
 template<class X, class Y> Void backpropagate(X const& r, Min, X& a1, Y const& c2) { restrict(a1,max(r,a1)); }
 
+template<class X> Void backpropagate(X const& r, Nul, X& a) { }
 template<class X> Void backpropagate(X const& r, Pos, X& a) { restrict(a,r); }
 template<class X> Void backpropagate(X const& r, Neg, X& a) { restrict(a,neg(r)); }
+template<class X> Void backpropagate(X const& r, Hlf, X& a) { restrict(a,r+r); }
+template<class X> Void backpropagate(X const& r, Abs, X& a) { restrict(a,hull(neg(r),r)); }
 template<class X> Void backpropagate(X const& r, Rec, X& a) { restrict(a,rec(r)); }
 template<class X> Void backpropagate(X const& r, Sqr, X& a) { restrict(a,sqrt(r)); }
 template<class X> Void backpropagate(X const& r, Pow, X& a, Int n) { restrict(a,exp(log(r)/n)); }
-- 
2.43.0


From 182dd5fe1bb8584f665d07e5390dbf3d307168e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:51 +0000
Subject: [PATCH 33/53] fix: back-propagation through pow cut off negative
 solutions

---
 source/function/procedure.tpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/function/procedure.tpl.hpp b/source/function/procedure.tpl.hpp
index cecf2ae..ea047fa 100644
--- a/source/function/procedure.tpl.hpp
+++ b/source/function/procedure.tpl.hpp
@@ -271,7 +271,9 @@ template<class X> Void backpropagate(X const& r, Hlf, X& a) { restrict(a,r+r); }
 template<class X> Void backpropagate(X const& r, Abs, X& a) { restrict(a,hull(neg(r),r)); }
 template<class X> Void backpropagate(X const& r, Rec, X& a) { restrict(a,rec(r)); }
 template<class X> Void backpropagate(X const& r, Sqr, X& a) { restrict(a,sqrt(r)); }
-template<class X> Void backpropagate(X const& r, Pow, X& a, Int n) { restrict(a,exp(log(r)/n)); }
+template<class X> Void backpropagate(X const& r, Pow, X& a, Int n) {
+    // The inverse exp(log(r)/n) is only valid for positive arguments
+    if(n!=0 && definitely(a.lower_bound()>0)) { restrict(a,exp(log(r)/n)); } }
 template<class X> Void backpropagate(X const& r, Sqrt, X& a) { restrict(a,sqr(r)); }
 template<class X> Void backpropagate(X const& r, Exp, X& a) { restrict(a,log(r)); }
 template<class X> Void backpropagate(X const& r, Log, X& a) { restrict(a,exp(r)); }
-- 
2.43.0


From 73eacccd73e9f1f75d892e76e460469a3debf4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:51 +0000
Subject: [PATCH 34/53] fix: back-propagation through sin, cos and tan cut off
 solutions on other branches

---
 source/function/procedure.tpl.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/function/procedure.tpl.hpp b/source/function/procedure.tpl.hpp
index ea047fa..c897e4b 100644
--- a/source/function/procedure.tpl.hpp
+++ b/source/function/procedure.tpl.hpp
@@ -278,9 +278,13 @@ template<class X> Void backpropagate(X const& r, Sqrt, X& a) { restrict(a,sqr(r)
 template<class X> Void backpropagate(X const& r, Exp, X& a) { restrict(a,log(r)); }
 template<class X> Void backpropagate(X const& r, Log, X& a) { restrict(a,exp(r)); }
     // FIXME: restricting asin/acos of interval should not be dependent on any branch of asin/acos
-template<class X> Void backpropagate(X const& r, Sin, X& a) { restrict(a,asin(r)); }
-template<class X> Void backpropagate(X const& r, Cos, X& a) { restrict(a,acos(r)); }
-template<class X> Void backpropagate(X const& r, Tan, X& a) { restrict(a,atan(r)); }
+    // The arguments are only restricted if they are known to lie on the principal branch
+template<class X> Void backpropagate(X const& r, Sin, X& a) {
+    if(definitely(a.lower_bound()>=-1 && a.upper_bound()<=1)) { restrict(a,asin(r)); } }
+template<class X> Void backpropagate(X const& r, Cos, X& a) {
+    if(definitely(a.lower_bound()>=0 && a.upper_bound()<=3)) { restrict(a,acos(r)); } }
+template<class X> Void backpropagate(X const& r, Tan, X& a) {
+    if(definitely(a.lower_bound()>=-1 && a.upper_bound()<=1)) { restrict(a,atan(r)); } }
 template<class X> Void backpropagate(X const& r, Asin, X& a) { restrict(a,sin(r)); }
 template<class X> Void backpropagate(X const& r, Acos, X& a) { restrict(a,cos(r)); }
 template<class X> Void backpropagate(X const& r, Atan, X& a) { restrict(a,tan(r)); }
-- 
2.43.0


From f6067e259ffc42b9d3526d95d43f73bee9bd960e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:20 +0000
Subject: [PATCH 35/53] fix: BinaryTreeNode::set leaves dangling pointers to
 the deleted subtrees

---
 source/geometry/binary_tree.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/source/geometry/binary_tree.hpp b/source/geometry/binary_tree.hpp
index 0e4deb4..f57bc6d 100644
--- a/source/geometry/binary_tree.hpp
+++ b/source/geometry/binary_tree.hpp
@@ -354,13 +354,7 @@ inline BinaryTreeNode * BinaryTreeNode::right_node() const {
 }
 
 inline Void BinaryTreeNode::set(Bool enabled_or_disabled) {
-    _isEnabled = enabled_or_disabled;
-    if( _pLeftNode != nullptr ) {
-        delete _pLeftNode;
-    }
-    if( _pRightNode != nullptr ) {
-        delete _pRightNode;
-    }
+    this->make_leaf( enabled_or_disabled );
 }
 
 inline Void BinaryTreeNode::set_enabled() {
-- 
2.43.0


From b53b51cb84ac74347d3a9727a770f5da5ad2c91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:20 +0000
Subject: [PATCH 36/53] fix: an empty paving is a subset of a paving with a
 disjoint root cell

---
 source/geometry/grid_paving.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/geometry/grid_paving.cpp b/source/geometry/grid_paving.cpp
index dfe910f..a427069 100644
--- a/source/geometry/grid_paving.cpp
+++ b/source/geometry/grid_paving.cpp
@@ -1963,10 +1963,10 @@ Bool subset( const GridTreeSubpaving& theSet1, const GridTreeSubpaving& theSet2
             pathCommonPCtoRC1.erase_prefix( pathCommonPCtoRC2.size() );
             result = subset( theSet1.binary_tree(), theSet2.binary_tree(), pathCommonPCtoRC1 );
         } else {
-            //theSet1 is a definitely not a subset of theSet2 Since their bounding boxes
+            //theSet1 is a subset of theSet2 only if it is empty, since their bounding boxes
             //are disjoint, due to paths (from the common primary cell to their root nodes)
             //that have different suffixes.
-            result = false;
+            result = ! theSet1.binary_tree()->has_enabled();
         }
     }
 
-- 
2.43.0


From 742f107de1f002ddd8013e9c652a1aa8036cb975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:39 +0000
Subject: [PATCH 37/53] fix: equal(Interval,Interval) compares the lower bounds
 with <=

---
 source/geometry/interval.inl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/geometry/interval.inl.hpp b/source/geometry/interval.inl.hpp
index 2740e91..1b41f77 100644
--- a/source/geometry/interval.inl.hpp
+++ b/source/geometry/interval.inl.hpp
@@ -88,7 +88,7 @@ template<class U, class X> inline auto contains(Interval<U> const& ivl1, X const
     return ivl1.lower_bound()<=x2 && ivl1.upper_bound()>=x2; }
 
 template<class U> inline auto equal(Interval<U> const& ivl1, Interval<U> const& ivl2) -> decltype(ivl1.upper_bound()==ivl2.upper_bound()) {
-    return ivl1.lower_bound()<=ivl2.lower_bound() && ivl1.upper_bound()==ivl2.upper_bound(); }
+    return ivl1.lower_bound()==ivl2.lower_bound() && ivl1.upper_bound()==ivl2.upper_bound(); }
 
 template<class UB1, class UB2> inline auto subset(Interval<UB1> const& ivl1, Interval<UB2> const& ivl2) -> decltype(ivl1.upper_bound()<=ivl2.upper_bound()) {
     return ivl1.lower_bound()>=ivl2.lower_bound() && ivl1.upper_bound()<=ivl2.upper_bound(); }
-- 
2.43.0


From 4f519d72693e51439070f46412bdabde5f9f344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:39 +0000
Subject: [PATCH 38/53] fix: widen_domain discards the outward rounded lower
 bound

---
 source/geometry/interval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/geometry/interval.cpp b/source/geometry/interval.cpp
index 0a17da9..4303271 100644
--- a/source/geometry/interval.cpp
+++ b/source/geometry/interval.cpp
@@ -49,7 +49,7 @@ Interval<FloatDP> widen_domain(Interval<FloatDPUpperBound> const& ivl) {
     if(l==u) { neg_rl=neg_rl+min; ru=ru+min; }
     if(neg_rl<neg_l) { neg_rl=neg_rl+min; }
     if(ru<u) { ru=ru+min; }
-    volatile float rl=-neg_l;
+    volatile float rl=-neg_rl;
     Interval<FloatDP> res(ExactDouble(rl),ExactDouble(ru),dp);
     FloatDP::set_rounding_mode(rnd);
     return res;
-- 
2.43.0


From 7bdd32126f9a449f49c3709e634ce11336ed564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:39 +0000
Subject: [PATCH 39/53] fix: Interval<Rational>(l,u) given two integers is the
 singleton l/u

---
 source/geometry/interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/geometry/interval.hpp b/source/geometry/interval.hpp
index 6e78495..e42f3c8 100644
--- a/source/geometry/interval.hpp
+++ b/source/geometry/interval.hpp
@@ -238,7 +238,7 @@ template<class U> class Interval
     template<class V> requires Assignable<L,V> and Assignable<U,V>
         Interval<U>& operator=(const V& v) { _l=v; _u=v; return *this; }
     //! \brief Construct a singleton interval from a number.
-    template<class Y, class PR> requires Constructible<L,Y,PR> and Constructible<U,Y,PR>
+    template<class Y, class PR> requires Constructible<L,Y,PR> and Constructible<U,Y,PR> and (not Convertible<PR,U>)
         explicit Interval(const Y& y, PR pr) : _l(y,pr), _u(y,pr) { }
 
     //! \brief Convert from an interval of a different type.
-- 
2.43.0


From d0263eb427ecfe41e0c96cc97a7605524cd92be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:08 +0000
Subject: [PATCH 40/53] fix: bounds of the limit of a sequence of reals use the
 radius 2^-n, not (+two)^(-n)

---
 source/numeric/real.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/numeric/real.cpp b/source/numeric/real.cpp
index 1b58473..3842f2f 100644
--- a/source/numeric/real.cpp
+++ b/source/numeric/real.cpp
@@ -189,9 +189,9 @@ template<> struct RealLimit<Real> : RealBase {
     virtual DyadicBounds _compute_get(Effort eff) const {
         Nat n = eff.work()+1u; return _seq[n].compute_get(eff).pm(Dyadic(two^(-n))); }
     virtual FloatDPBounds _compute_get(Effort eff, DoublePrecision pr) const {
-        Nat n = eff.work()+1u; return _seq[n].compute_get(eff,pr)+(FloatDPBounds(-(two^(-n)),+two^(-n),pr)); }
+        Nat n = eff.work()+1u; return _seq[n].compute_get(eff,pr)+(FloatDPBounds(-(two^(-n)),two^(-n),pr)); }
     virtual FloatMPBounds _compute_get(Effort eff, MultiplePrecision pr) const {
-        Nat n = eff.work()+1u; return _seq[n].compute_get(eff,pr)+FloatMPBounds(-(two^(-n)),+two^(-n),pr); }
+        Nat n = eff.work()+1u; return _seq[n].compute_get(eff,pr)+FloatMPBounds(-(two^(-n)),two^(-n),pr); }
     virtual OutputStream& _write(OutputStream& os) const {
         return os << "{" << _seq[0u] << ", " << _seq[1u] << ", " <<_seq[2u] << ", ... }"; }
 };
-- 
2.43.0


From b38cc36537749fe1c028cdb17e93a535f6cd3c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:13 +0000
Subject: [PATCH 41/53] fix: Matrix::zero(m,n,z) has m rows

---
 source/algebra/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/matrix.hpp b/source/algebra/matrix.hpp
index 19c62b3..209e932 100644
--- a/source/algebra/matrix.hpp
+++ b/source/algebra/matrix.hpp
@@ -488,7 +488,7 @@ template<class X> inline Matrix<X>::Matrix(SizeType m, SizeType n, const X& x)
 }
 
 template<class X> inline Matrix<X> Matrix<X>::zero(SizeType m, SizeType n, X const& z) {
-    return Matrix<X>(n,n,nul(z));
+    return Matrix<X>(m,n,nul(z));
 }
 
 template<class X> inline Matrix<X> Matrix<X>::identity(SizeType n, X const& z) {
-- 
2.43.0


From b36f259213f19ad983b9f28b1b0182bcb49f3925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:12 +0000
Subject: [PATCH 42/53] fix: vectors of different sizes are not equal (the
 comparison read past the end of the shorter one)

---
 source/algebra/vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/algebra/vector.hpp b/source/algebra/vector.hpp
index e5d7c76..dcd2828 100644
--- a/source/algebra/vector.hpp
+++ b/source/algebra/vector.hpp
@@ -463,7 +463,8 @@ struct ProvideVectorOperations {
     }
 
     template<class X1, class X2> friend EqualsType<X1,X2> operator==(const Vector<X1>& v1, const Vector<X2>& v2) {
-        decltype(v1[0]==v2[0]) r(true);
+        decltype(v1[0]==v2[0]) r(v1.size()==v2.size());
+        if(v1.size()!=v2.size()) { return r; }
         for(SizeType i=0; i!=v1.size(); ++i) {
             r = r && (v1[i]==v2[i]);
         }
@@ -471,7 +472,8 @@ struct ProvideVectorOperations {
     }
 
     template<class X1, class X2> friend decltype(declval<X1>()!=declval<X2>()) operator!=(const Vector<X1>& v1, const Vector<X2>& v2) {
-        decltype(v1[0]!=v2[0]) r(false);
+        decltype(v1[0]!=v2[0]) r(v1.size()!=v2.size());
+        if(v1.size()!=v2.size()) { return r; }
         for(SizeType i=0; i!=v1.size(); ++i) {
             r = r || (v1[i]!=v2[i]);
         }
-- 
2.43.0


From c24dd086c637c7a92bbb3419096e9d86f2a9c39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:50 +0000
Subject: [PATCH 43/53] fix: composing a univariate differential does not
 modify its arguments

---
 source/algebra/univariate_differential.tpl.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/source/algebra/univariate_differential.tpl.hpp b/source/algebra/univariate_differential.tpl.hpp
index 6f39dba..811d3ea 100644
--- a/source/algebra/univariate_differential.tpl.hpp
+++ b/source/algebra/univariate_differential.tpl.hpp
@@ -101,16 +101,15 @@ template<class X>
 UnivariateDifferential<X> UnivariateDifferential<X>::_compose(const UnivariateDifferential<X>& x, const UnivariateDifferential<X>& y)
 {
     DegreeType d=std::min(x.degree(),y.degree());
-    X y0 = y[0];
-    X z = Ariadne::create_zero(y0);
-    const_cast<X&>(y[0]) = z;
+    X z = Ariadne::create_zero(y[0]);
+    UnivariateDifferential<X> w(y);
+    w[0] = z;
     UnivariateDifferential<X> r(d, z);
     r[0]=x[d];
     for(DegreeType n=1; n<=d; ++n) {
-        r=r*y;
+        r=r*w;
         r[0]+=x[static_cast<SizeType>(d-n)];
     }
-    const_cast<X&>(y[0])=y0;
     return r;
 }
 
-- 
2.43.0


From 15bda2dc66ca7406d3f5771d38a4304a7672986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:50 +0000
Subject: [PATCH 44/53] fix: derivative of a univariate differential has degree
 one less

---
 source/algebra/univariate_differential.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/univariate_differential.tpl.hpp b/source/algebra/univariate_differential.tpl.hpp
index 811d3ea..b7ae813 100644
--- a/source/algebra/univariate_differential.tpl.hpp
+++ b/source/algebra/univariate_differential.tpl.hpp
@@ -118,7 +118,7 @@ UnivariateDifferential<X>
 UnivariateDifferential<X>::_derivative(const UnivariateDifferential<X>& x)
 {
     DegreeType n=x.degree(); DegreeType one=1u;
-    UnivariateDifferential<X> r(std::min(n,one)-one,x.zero_coefficient());
+    UnivariateDifferential<X> r(std::max(n,one)-one,x.zero_coefficient());
     if(n==0) { r[0]=x[0]*0; }
     for(DegreeType i=0; i<n; ++i) {
         r[i]=(i+1u)*x[i+1u];
-- 
2.43.0


From 56400e8e75807885313e39f200ce89927a5f151c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:50 +0000
Subject: [PATCH 45/53] fix: composing differentials does not modify its
 arguments

---
 source/algebra/differential.tpl.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/source/algebra/differential.tpl.hpp b/source/algebra/differential.tpl.hpp
index 7260603..8d5dd47 100644
--- a/source/algebra/differential.tpl.hpp
+++ b/source/algebra/differential.tpl.hpp
@@ -591,14 +591,12 @@ Differential<X> Differential<X>::_compose(const UnivariateDifferential<X>& x, co
 template<class X>
 Differential<X> Differential<X>::_compose(const Differential<X>& x, const Vector<Differential<X>>& y)
 {
-    Vector<Differential<X>>& ync=const_cast< Vector<Differential<X>>&>(y);
+    Vector<Differential<X>> w(y);
     X zero(y.zero_element().zero_coefficient());
-    Vector<X> yv(y.size(),zero);
     DegreeType deg=min(x.degree(),y.degree());
-    for(SizeType i=0; i!=ync.result_size(); ++i) { yv[i]=ync[i].value(); ync[i].set_value(zero); }
-    Differential<X> r=_evaluate(x,ync);
+    for(SizeType i=0; i!=w.result_size(); ++i) { w[i].set_value(zero); }
+    Differential<X> r=_evaluate(x,w);
     r.set_degree(deg);
-    for(SizeType i=0; i!=ync.result_size(); ++i) { ync[i].set_value(yv[i]); }
     return r;
 }
 
@@ -608,13 +606,11 @@ Vector<Differential<X>> Differential<X>::_compose(const Vector<Differential<X>>&
 {
     //std::cerr<<"compose(DV x, DV y)\n x="<<x<<"\n y="<<y<<std::endl;
     X zero(y.zero_element().zero_coefficient());
-    Vector<Differential<X>>& ync=const_cast< Vector<Differential<X>>&>(y);
-    Vector<X> yv(y.size(),zero);
+    Vector<Differential<X>> w(y);
     DegreeType deg=min(x.degree(),y.degree());
-    for(SizeType i=0; i!=ync.result_size(); ++i) { yv[i]=ync[i].value(); ync[i].set_value(zero); }
+    for(SizeType i=0; i!=w.result_size(); ++i) { w[i].set_value(zero); }
     Vector<Differential<X>> r(x.size(),y.argument_size(),deg,y.zero_coefficient());
-    for(SizeType i=0; i!=x.result_size(); ++i) { r[i]=_evaluate(x[i],y); r[i].set_degree(deg); }
-    for(SizeType i=0; i!=ync.result_size(); ++i) { ync[i].set_value(yv[i]); }
+    for(SizeType i=0; i!=x.result_size(); ++i) { r[i]=_evaluate(x[i],w); r[i].set_degree(deg); }
     return r;
 }
 
-- 
2.43.0


From 1e0e32fd52d9cbd80ad678ff47d48c91b62eebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:50 +0000
Subject: [PATCH 46/53] fix: compose with a differential which has no terms

---
 source/algebra/differential.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/differential.tpl.hpp b/source/algebra/differential.tpl.hpp
index 8d5dd47..3cff821 100644
--- a/source/algebra/differential.tpl.hpp
+++ b/source/algebra/differential.tpl.hpp
@@ -578,7 +578,7 @@ Differential<X> Differential<X>::_compose(const UnivariateDifferential<X>& x, co
     DegreeType d=min(x.degree(),y.degree());
 
     Differential<X> w=y;
-    if(w.begin()->index().degree()==0) { w.begin()->coefficient()=0; }
+    if(w.begin()!=w.end() && w.begin()->index().degree()==0) { w.begin()->coefficient()=0; }
     Differential<X> r(as,d,y.zero_coefficient());
     r[MultiIndex(as)]=x[d];
     for(SizeType n=1; n<=d; ++n) {
-- 
2.43.0


From 10127a8ea734f667dd307fbed221ea073f8dcd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:50 +0000
Subject: [PATCH 47/53] fix: affine vector of differentials takes the gradient
 from the row of the matrix

---
 source/algebra/differential.tpl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/algebra/differential.tpl.hpp b/source/algebra/differential.tpl.hpp
index 3cff821..b7d0428 100644
--- a/source/algebra/differential.tpl.hpp
+++ b/source/algebra/differential.tpl.hpp
@@ -148,13 +148,13 @@ template<class X> Vector<Differential<X>> Differential<X>::variables(DegreeType
 
 template<class X> Vector<Differential<X>> Differential<X>::affine(DegreeType deg, const Vector<X>& v, const Matrix<X>& G) {
     X zero=v.zero_element();
-    Vector<Differential<X>> r(v.size(),Differential<X>(v.size(),deg,zero));
-    MultiIndex a(r.argument_size());
+    Vector<Differential<X>> r(v.size(),Differential<X>(G.column_size(),deg,zero));
+    MultiIndex a(G.column_size());
     for(SizeType i=0; i!=r.size(); ++i) {
         r[i]._expansion.append(a,v[i]);
-        for(SizeType j=0; j!=r.argument_size(); ++j) {
+        for(SizeType j=0; j!=G.column_size(); ++j) {
             const X& gij=G[i][j];
-            if(decide(gij!=0)) { a[i]=1; r[i]._expansion.append(a,gij); a[i]=0; }
+            if(decide(gij!=0)) { a[j]=1; r[i]._expansion.append(a,gij); a[j]=0; }
         }
     }
     return r;
-- 
2.43.0


From 4fc15fe7c4837bcc5f42db6e324f0d39a4986694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 48/53] fix: gradient of a quotient of first differentials

---
 source/algebra/fixed_differential.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/fixed_differential.hpp b/source/algebra/fixed_differential.hpp
index 57737eb..2347fd2 100644
--- a/source/algebra/fixed_differential.hpp
+++ b/source/algebra/fixed_differential.hpp
@@ -276,7 +276,7 @@ template<class X> struct AlgebraOperations<FirstDifferential<X>,X> {
     static FirstDifferential<X> apply(Mul, const FirstDifferential<X>& x, const FirstDifferential<X>& y) {
         return FirstDifferential<X>(x._value*y._value,x._value*y._gradient+y._value*x._gradient); }
     static FirstDifferential<X> apply(Div, const FirstDifferential<X>& x, const FirstDifferential<X>& y) {
-        return FirstDifferential<X>(x._value/y._value,((x._value/y._value)*y._gradient+x._gradient)/y._value); }
+        return FirstDifferential<X>(x._value/y._value,(x._gradient-(x._value/y._value)*y._gradient)/y._value); }
 
     static FirstDifferential<X> apply(Add, FirstDifferential<X> x, const X& c) {
         x._value+=c; return x; }
-- 
2.43.0


From c56eb408c0cb6dafeee67104e8816b813104cd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 49/53] fix: second derivative of squares and powers of
 univariate second differentials

---
 source/algebra/fixed_univariate_differential.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/algebra/fixed_univariate_differential.hpp b/source/algebra/fixed_univariate_differential.hpp
index a6e9448..9bde7c8 100644
--- a/source/algebra/fixed_univariate_differential.hpp
+++ b/source/algebra/fixed_univariate_differential.hpp
@@ -395,10 +395,10 @@ template<class X> struct AlgebraOperations<UnivariateSecondDifferential<X>,X> {
         return compose(UnivariateSecondDifferential<X>(op,x.value()),x); }
 
     static UnivariateSecondDifferential<X> apply(Sqr, const UnivariateSecondDifferential<X>& x) {
-        return UnivariateSecondDifferential<X>( sqr(x._value), (2*x._value)*x._gradient, (x._value)*x._half_hessian + sqr(x._gradient) ); }
+        return UnivariateSecondDifferential<X>( sqr(x._value), (2*x._value)*x._gradient, (2*x._value)*x._half_hessian + sqr(x._gradient) ); }
 
     static UnivariateSecondDifferential<X> apply(Pow, const UnivariateSecondDifferential<X>& x, Int n) {
-        return UnivariateSecondDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient, hlf(n*(n-1)*pow(x._value,n-2))*x._half_hessian ); }
+        return UnivariateSecondDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient, (n*pow(x._value,n-1))*x._half_hessian + hlf(n*(n-1)*pow(x._value,n-2))*sqr(x._gradient) ); }
 
     //ddf(y)/dxdx = d/dx ( f'(y) dy/dx) = f''(y) dy/dx dy/dx + f'(y) ddy/dxdx
 
-- 
2.43.0


From 4b3f4cfb62235fbcd6bf72eb7d99b839d7cc1a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 50/53] fix: second-order terms of functions of second
 differentials

---
 source/algebra/fixed_differential.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/algebra/fixed_differential.hpp b/source/algebra/fixed_differential.hpp
index 2347fd2..694452e 100644
--- a/source/algebra/fixed_differential.hpp
+++ b/source/algebra/fixed_differential.hpp
@@ -101,7 +101,7 @@ Matrix<X> outer(const Vector<X>& v) {
 
 template<class X>
 Matrix<X> outer(const Covector<X>& u1, const Covector<X>& u2) {
-    Matrix<X> r(u1.size(),u2.size());
+    Matrix<X> r(u1.size(),u2.size(),u1.zero_element());
     for(SizeType i1=0; i1!=u1.size(); ++i1) {
         for(SizeType i2=0; i2!=u2.size(); ++i2) {
             r[i1][i2]=u1[i1]*u2[i2];
@@ -629,51 +629,51 @@ template<class X> struct AlgebraOperations<SecondDifferential<X>,X> {
     }
 
     static SecondDifferential<X> apply(Sqr, const SecondDifferential<X>& x) {
-        return SecondDifferential<X>( sqr(x._value), (2*x._value)*x._gradient, (2*x._value)*x._half_hessian + outer(x._gradient)/2 );
+        return SecondDifferential<X>( sqr(x._value), (2*x._value)*x._gradient, (2*x._value)*x._half_hessian + outer(x._gradient) );
     }
 
     static SecondDifferential<X> apply(Pow, const SecondDifferential<X>& x, Int n) {
-        return SecondDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient, n*(n-1)/2*pow(x._value,n-2)*x._half_hessian, SeriesTag() );
+        return SecondDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient, (n*pow(x._value,n-1))*x._half_hessian + (n*(n-1)/2*pow(x._value,n-2))*outer(x._gradient), SeriesTag() );
     }
 
     static SecondDifferential<X> apply(Sqrt, const SecondDifferential<X>& x) {
         X sqrt_val = sqrt(x._value);
         X rec_dbl_sqrt_val = rec(2*sqrt_val);
         X neg_rec_quad_pow_val = neg(rec(4*sqrt_val*x._value));
-        return SecondDifferential<X>( sqrt_val, rec_dbl_sqrt_val*x._gradient, rec_dbl_sqrt_val*x._half_hessian + neg_rec_quad_pow_val * outer(x._gradient), SeriesTag() );
+        return SecondDifferential<X>( sqrt_val, rec_dbl_sqrt_val*x._gradient, rec_dbl_sqrt_val*x._half_hessian + hlf(neg_rec_quad_pow_val) * outer(x._gradient), SeriesTag() );
     }
 
     static SecondDifferential<X> apply(Exp, const SecondDifferential<X>& x) {
         X exp_val = exp(x._value);
-        return SecondDifferential<X>( exp_val, exp_val*x._gradient, exp_val*x._half_hessian+exp_val*outer(x._gradient), SeriesTag() );
+        return SecondDifferential<X>( exp_val, exp_val*x._gradient, exp_val*x._half_hessian+hlf(exp_val)*outer(x._gradient), SeriesTag() );
     }
 
     static SecondDifferential<X> apply(Log, const SecondDifferential<X>& x) {
         X log_val = log(x._value);
         X rec_val = rec(x._value);
         X neg_sqr_rec_val = neg(sqr(rec_val));
-        return SecondDifferential<X>( log_val, rec_val*x._gradient, rec_val*x._half_hessian+neg_sqr_rec_val*outer(x._gradient), SeriesTag() );
+        return SecondDifferential<X>( log_val, rec_val*x._gradient, rec_val*x._half_hessian+hlf(neg_sqr_rec_val)*outer(x._gradient), SeriesTag() );
     }
 
     static SecondDifferential<X> apply(Sin, const SecondDifferential<X>& x) {
         X sin_val = sin(x._value);
         X cos_val = cos(x._value);
         X neg_sin_val = neg(sin_val);
-        return SecondDifferential<X>( sin_val, cos_val*x._gradient, cos_val*x._half_hessian+neg_sin_val*outer(x._gradient), SeriesTag() );
+        return SecondDifferential<X>( sin_val, cos_val*x._gradient, cos_val*x._half_hessian+hlf(neg_sin_val)*outer(x._gradient), SeriesTag() );
     }
 
     static SecondDifferential<X> apply(Cos, const SecondDifferential<X>& x) {
         X cos_val = cos(x._value);
         X neg_sin_val = neg(sin(x._value));
         X neg_cos_val = neg(cos_val);
-        return SecondDifferential<X>( cos_val, neg_sin_val*x._gradient, neg_sin_val*x._half_hessian+neg_cos_val*outer(x._gradient), SeriesTag() );
+        return SecondDifferential<X>( cos_val, neg_sin_val*x._gradient, neg_sin_val*x._half_hessian+hlf(neg_cos_val)*outer(x._gradient), SeriesTag() );
     }
 
     static SecondDifferential<X> apply(Tan, const SecondDifferential<X>& x) {
         X tan_val = tan(x._value);
         X sqr_sec_val = sqr(rec(cos(x._value)));
         X dbl_tan_sqr_sec_val = 2*tan_val*sqr_sec_val;
-        return SecondDifferential<X>( tan_val, sqr_sec_val*x._gradient, sqr_sec_val*x._half_hessian+dbl_tan_sqr_sec_val*outer(x._gradient), SeriesTag() );
+        return SecondDifferential<X>( tan_val, sqr_sec_val*x._gradient, sqr_sec_val*x._half_hessian+hlf(dbl_tan_sqr_sec_val)*outer(x._gradient), SeriesTag() );
     }
 
 };
-- 
2.43.0


From cc0c4da247fb4f240e1d9668616772b00429dfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 51/53] fix: first coefficient of nul, pos and hlf of a graded
 series

---
 source/algebra/graded.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/algebra/graded.hpp b/source/algebra/graded.hpp
index 4a6e07a..af930be 100644
--- a/source/algebra/graded.hpp
+++ b/source/algebra/graded.hpp
@@ -259,12 +259,12 @@ template<class A> ClosureExpression<Atan,Graded<A>> atan(const Graded<A>& a) {
     return make_expression(Atan(),a); }
 
 template<class A> Void nul(Graded<A>& r, const Graded<A>& a) {
-    ARIADNE_ASSERT(r.degree()+1u == a.degree());
+    ARIADNE_ASSERT(r.size()+1u <= a.size());
     r.append(nul(a.back()));
 }
 
 template<class A> Void pos(Graded<A>& r, const Graded<A>& a) {
-    ARIADNE_ASSERT(r.degree()+1u == a.degree());
+    ARIADNE_ASSERT(r.size()+1u <= a.size());
     r.append(pos(a.back()));
 }
 
@@ -274,7 +274,7 @@ template<class A> Void neg(Graded<A>& r, const Graded<A>& a) {
 }
 
 template<class A> Void hlf(Graded<A>& r, const Graded<A>& a) {
-    ARIADNE_ASSERT(r.degree()+1u == a.degree());
+    ARIADNE_ASSERT(r.size()+1u <= a.size());
     r.append(hlf(a.back()));
 }
 
-- 
2.43.0


From 65a1bbb473b97f1af31340b156c8239dad80d2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 52/53] fix: product of a graded series with a constant

---
 source/algebra/graded.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/algebra/graded.hpp b/source/algebra/graded.hpp
index af930be..89847ef 100644
--- a/source/algebra/graded.hpp
+++ b/source/algebra/graded.hpp
@@ -205,7 +205,7 @@ template<class A> inline ClosureExpression<Div,Graded<A>,Graded<A>> operator/(co
 template<class A, class B> Graded<A> add(const Graded<A>& a, const B& c) {
     Graded<A> r(a); r[0]+=c; return r;  }
 template<class A, class B> Graded<A> mul(const Graded<A>& a, const B& c) {
-    Graded<A> r(a); r*=c; return r;  }
+    Graded<A> r(a); for(SizeType i=0; i!=r.size(); ++i) { r[i]*=c; } return r;  }
 
 
 template<class A> Graded<A> add(const GenericNumericType<A>& c, const Graded<A>& a) {
@@ -213,7 +213,7 @@ template<class A> Graded<A> add(const GenericNumericType<A>& c, const Graded<A>&
 template<class A> Graded<A> sub(const GenericNumericType<A>& c, const Graded<A>& a) {
     ARIADNE_NOT_IMPLEMENTED; }
 template<class A> Graded<A> mul(const GenericNumericType<A>& c, const Graded<A>& a) {
-    Graded<A> r(a); r[0]*=c; return r;  }
+    Graded<A> r(a); for(SizeType i=0; i!=r.size(); ++i) { r[i]*=c; } return r;  }
 template<class A> Graded<A> div(const GenericNumericType<A>& c, const Graded<A>& a) {
     ARIADNE_NOT_IMPLEMENTED; }
 
-- 
2.43.0


From f78250b3b285f8a4eb96258abe3a0b21b7c7c0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 53/53] fix: make_graded_variable

---
 source/algebra/graded.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/graded.hpp b/source/algebra/graded.hpp
index 89847ef..4366be4 100644
--- a/source/algebra/graded.hpp
+++ b/source/algebra/graded.hpp
@@ -516,7 +516,7 @@ template<class X> Differential<X> make_differential_variable(SizeType as, Degree
 template<class X> Graded<X> make_graded_constant(const X& val, DegreeType deg) {
     Graded<X> res(val); X z=nul(val); while(res.degree()<deg) { res.append(z); } return res; }
 template<class X> Graded<X> make_graded_variable(const X& val, DegreeType deg) {
-    ARIADNE_PRECONDITION(deg>=1u); Graded<X> res(val); X z=nul(val); res.append(z+1); while(res.degree()<deg) { res.apend(z); } return res; }
+    ARIADNE_PRECONDITION(deg>=1u); Graded<X> res(val); X z=nul(val); res.append(z+1); while(res.degree()<deg) { res.append(z); } return res; }
 
 template<class X> Graded<X> make_graded(const X& val) {
     return Graded<X>(val); }
-- 
2.43.0

