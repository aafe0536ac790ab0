// Expressions over differentials and power series, each of them one obligation: the value of the wrapper named w_<operation> is compared with the Taylor coefficients.
#include "numeric/numeric.hpp"
#include "numeric/floats.hpp"
#include "numeric/float_approximation.hpp"
#include "numeric/float_bounds.hpp"
#include "numeric/rational.hpp"
#include "algebra/vector.hpp"
#include "algebra/covector.hpp"
#include "algebra/matrix.hpp"
#include "algebra/matrix.tpl.hpp"
#include "algebra/algebra.hpp"
#include "algebra/expansion.hpp"
#include "algebra/expansion.inl.hpp"
#include "algebra/expansion.tpl.hpp"
#include "algebra/operations.hpp"
#include "algebra/series.hpp"
#include "algebra/univariate_differential.hpp"
#include "algebra/univariate_differential.tpl.hpp"
#include "algebra/differential.hpp"
#include "algebra/differential.tpl.hpp"
#include "algebra/fixed_univariate_differential.hpp"
#include "algebra/fixed_differential.hpp"
#include "algebra/graded.hpp"
namespace Ariadne {
template class Expansion<MultiIndex,Rational>;
template class SortedExpansion<MultiIndex,Rational,GradedIndexLess>;
template<class F> inline Bool compatible(Approximation<F> const&, Approximation<F> const&) { return true; }
template<class F> inline Bool compatible(Bounds<F> const&, Bounds<F> const&) { return true; }
inline Bool compatible(Rational const&, Rational const&) { return true; }
template<class X> struct WUA { typedef UnivariateDifferential<X> D;
    static D w_pos(D const& a) { return pos(a); }
    static D w_neg(D const& a) { return neg(a); }
    static D w_sqr(D const& a) { return sqr(a); }
    static D w_rec(D const& a) { return rec(a); }
    static D w_sqrt(D const& a) { return sqrt(a); }
    static D w_exp(D const& a) { return exp(a); }
    static D w_log(D const& a) { return log(a); }
    static D w_sin(D const& a) { return sin(a); }
    static D w_cos(D const& a) { return cos(a); }
    static D w_tan(D const& a) { return tan(a); }
    static D w_asin(D const& a) { return asin(a); }
    static D w_acos(D const& a) { return acos(a); }
    static D w_atan(D const& a) { return atan(a); }
    static D w_abs(D const& a) { return abs(a); }
    static D w_hlf(D const& a) { return hlf(a); }
    static D w_add(D const& a, D const& b) { return a+b; }
    static D w_sub(D const& a, D const& b) { return a-b; }
    static D w_mul(D const& a, D const& b) { return a*b; }
    static D w_div(D const& a, D const& b) { return a/b; }
    static D w_idiv(D a, D const& b) { return (a/=b,a); }
    static D w_cadd(D const& a, X const& c) { return a+c; }
    static D w_csub(D const& a, X const& c) { return a-c; }
    static D w_cmul(D const& a, X const& c) { return a*c; }
    static D w_cdiv(D const& a, X const& c) { return a/c; }
    static D w_addc(X const& c, D const& a) { return c+a; }
    static D w_subc(X const& c, D const& a) { return c-a; }
    static D w_mulc(X const& c, D const& a) { return c*a; }
    static D w_divc(X const& c, D const& a) { return c/a; }
    static D w_cisub(D a, X const& c) { return (a-=c,a); }
    static D w_cidiv(D a, X const& c) { return (a/=c,a); }
    static D w_selfdiv(D a) { return (a/=a,a); }
    static D w_pow(D const& a, Int n) { return pow(a,n); }
    static D w_compose(D const& a, D const& b) { return compose(a,b); }
    static D w_composeself(D const& a) { return compose(a,a); }
    static D w_derivative(D const& a) { return derivative(a); }
    static D w_antiderivative(D const& a) { return antiderivative(a); }
    static D w_antiderivativec(D const& a, X const& c) { return antiderivative(a,c); }
    static D w_constant(DegreeType n, X const& c) { return D::constant(n,c); }
    static D w_variable(DegreeType n, X const& c) { return D::variable(n,c); }
    static X w_value(D const& a) { return a.value(); }
    static X w_gradient(D const& a) { return a.gradient(); }
    static X w_halfhessian(D const& a) { return a.half_hessian(); }
    static X w_hessian(D const& a) { return a.hessian(); }
    static D w_ser_pos(DegreeType n, X const& c) { return D(n,Series<X>(Pos(),c)); }
    static D w_ser_neg(DegreeType n, X const& c) { return D(n,Series<X>(Neg(),c)); }
    static D w_ser_hlf(DegreeType n, X const& c) { return D(n,Series<X>(Hlf(),c)); }
    static D w_ser_sqr(DegreeType n, X const& c) { return D(n,Series<X>(Sqr(),c)); }
    static D w_ser_rec(DegreeType n, X const& c) { return D(n,Series<X>(Rec(),c)); }
    static D w_ser_sqrt(DegreeType n, X const& c) { return D(n,Series<X>(Sqrt(),c)); }
    static D w_ser_exp(DegreeType n, X const& c) { return D(n,Series<X>(Exp(),c)); }
    static D w_ser_log(DegreeType n, X const& c) { return D(n,Series<X>(Log(),c)); }
    static D w_ser_sin(DegreeType n, X const& c) { return D(n,Series<X>(Sin(),c)); }
    static D w_ser_cos(DegreeType n, X const& c) { return D(n,Series<X>(Cos(),c)); }
    static D w_ser_tan(DegreeType n, X const& c) { return D(n,Series<X>(Tan(),c)); }
    static D w_ser_atan(DegreeType n, X const& c) { return D(n,Series<X>(Atan(),c)); }
    static D w_ser_nul(DegreeType n, X const& c) { return D(n,Series<X>(Nul(),c)); }
    static D w_serop_pos(DegreeType n, X const& c) { return D(Pos(),n,c); }
    static D w_serop_neg(DegreeType n, X const& c) { return D(Neg(),n,c); }
    static D w_serop_hlf(DegreeType n, X const& c) { return D(Hlf(),n,c); }
    static D w_serop_sqr(DegreeType n, X const& c) { return D(Sqr(),n,c); }
    static D w_serop_rec(DegreeType n, X const& c) { return D(Rec(),n,c); }
    static D w_serop_sqrt(DegreeType n, X const& c) { return D(Sqrt(),n,c); }
    static D w_serop_exp(DegreeType n, X const& c) { return D(Exp(),n,c); }
    static D w_serop_log(DegreeType n, X const& c) { return D(Log(),n,c); }
    static D w_serop_sin(DegreeType n, X const& c) { return D(Sin(),n,c); }
    static D w_serop_cos(DegreeType n, X const& c) { return D(Cos(),n,c); }
    static D w_serop_tan(DegreeType n, X const& c) { return D(Tan(),n,c); }
    static D w_serop_atan(DegreeType n, X const& c) { return D(Atan(),n,c); }
    static D w_serop_nul(DegreeType n, X const& c) { return D(Nul(),n,c); }
};
template struct WUA<FloatDPApproximation>;
template<class X> struct WUB { typedef UnivariateDifferential<X> D;
    static D w_pos(D const& a) { return pos(a); }
    static D w_neg(D const& a) { return neg(a); }
    static D w_sqr(D const& a) { return sqr(a); }
    static D w_rec(D const& a) { return rec(a); }
    static D w_sqrt(D const& a) { return sqrt(a); }
    static D w_exp(D const& a) { return exp(a); }
    static D w_log(D const& a) { return log(a); }
    static D w_sin(D const& a) { return sin(a); }
    static D w_cos(D const& a) { return cos(a); }
    static D w_tan(D const& a) { return tan(a); }
    static D w_asin(D const& a) { return asin(a); }
    static D w_acos(D const& a) { return acos(a); }
    static D w_atan(D const& a) { return atan(a); }
    static D w_abs(D const& a) { return abs(a); }
    static D w_hlf(D const& a) { return hlf(a); }
    static D w_add(D const& a, D const& b) { return a+b; }
    static D w_sub(D const& a, D const& b) { return a-b; }
    static D w_mul(D const& a, D const& b) { return a*b; }
    static D w_div(D const& a, D const& b) { return a/b; }
    static D w_idiv(D a, D const& b) { return (a/=b,a); }
    static D w_cadd(D const& a, X const& c) { return a+c; }
    static D w_csub(D const& a, X const& c) { return a-c; }
    static D w_cmul(D const& a, X const& c) { return a*c; }
    static D w_cdiv(D const& a, X const& c) { return a/c; }
    static D w_addc(X const& c, D const& a) { return c+a; }
    static D w_subc(X const& c, D const& a) { return c-a; }
    static D w_mulc(X const& c, D const& a) { return c*a; }
    static D w_divc(X const& c, D const& a) { return c/a; }
    static D w_cisub(D a, X const& c) { return (a-=c,a); }
    static D w_cidiv(D a, X const& c) { return (a/=c,a); }
    static D w_selfdiv(D a) { return (a/=a,a); }
    static D w_pow(D const& a, Int n) { return pow(a,n); }
    static D w_compose(D const& a, D const& b) { return compose(a,b); }
    static D w_composeself(D const& a) { return compose(a,a); }
    static D w_derivative(D const& a) { return derivative(a); }
    static D w_antiderivative(D const& a) { return antiderivative(a); }
    static D w_antiderivativec(D const& a, X const& c) { return antiderivative(a,c); }
    static D w_constant(DegreeType n, X const& c) { return D::constant(n,c); }
    static D w_variable(DegreeType n, X const& c) { return D::variable(n,c); }
    static X w_value(D const& a) { return a.value(); }
    static X w_gradient(D const& a) { return a.gradient(); }
    static X w_halfhessian(D const& a) { return a.half_hessian(); }
    static X w_hessian(D const& a) { return a.hessian(); }
    static D w_ser_pos(DegreeType n, X const& c) { return D(n,Series<X>(Pos(),c)); }
    static D w_ser_neg(DegreeType n, X const& c) { return D(n,Series<X>(Neg(),c)); }
    static D w_ser_hlf(DegreeType n, X const& c) { return D(n,Series<X>(Hlf(),c)); }
    static D w_ser_sqr(DegreeType n, X const& c) { return D(n,Series<X>(Sqr(),c)); }
    static D w_ser_rec(DegreeType n, X const& c) { return D(n,Series<X>(Rec(),c)); }
    static D w_ser_sqrt(DegreeType n, X const& c) { return D(n,Series<X>(Sqrt(),c)); }
    static D w_ser_exp(DegreeType n, X const& c) { return D(n,Series<X>(Exp(),c)); }
    static D w_ser_log(DegreeType n, X const& c) { return D(n,Series<X>(Log(),c)); }
    static D w_ser_sin(DegreeType n, X const& c) { return D(n,Series<X>(Sin(),c)); }
    static D w_ser_cos(DegreeType n, X const& c) { return D(n,Series<X>(Cos(),c)); }
    static D w_ser_tan(DegreeType n, X const& c) { return D(n,Series<X>(Tan(),c)); }
    static D w_ser_atan(DegreeType n, X const& c) { return D(n,Series<X>(Atan(),c)); }
    static D w_ser_nul(DegreeType n, X const& c) { return D(n,Series<X>(Nul(),c)); }
    static D w_serop_pos(DegreeType n, X const& c) { return D(Pos(),n,c); }
    static D w_serop_neg(DegreeType n, X const& c) { return D(Neg(),n,c); }
    static D w_serop_hlf(DegreeType n, X const& c) { return D(Hlf(),n,c); }
    static D w_serop_sqr(DegreeType n, X const& c) { return D(Sqr(),n,c); }
    static D w_serop_rec(DegreeType n, X const& c) { return D(Rec(),n,c); }
    static D w_serop_sqrt(DegreeType n, X const& c) { return D(Sqrt(),n,c); }
    static D w_serop_exp(DegreeType n, X const& c) { return D(Exp(),n,c); }
    static D w_serop_log(DegreeType n, X const& c) { return D(Log(),n,c); }
    static D w_serop_sin(DegreeType n, X const& c) { return D(Sin(),n,c); }
    static D w_serop_cos(DegreeType n, X const& c) { return D(Cos(),n,c); }
    static D w_serop_tan(DegreeType n, X const& c) { return D(Tan(),n,c); }
    static D w_serop_atan(DegreeType n, X const& c) { return D(Atan(),n,c); }
    static D w_serop_nul(DegreeType n, X const& c) { return D(Nul(),n,c); }
};
template struct WUB<FloatDPBounds>;
template<class X> struct WUR { typedef UnivariateDifferential<X> D;
    static D w_pos(D const& a) { return pos(a); }
    static D w_neg(D const& a) { return neg(a); }
    static D w_sqr(D const& a) { return sqr(a); }
    static D w_rec(D const& a) { return rec(a); }
    static D w_asin(D const& a) { return asin(a); }
    static D w_acos(D const& a) { return acos(a); }
    static D w_abs(D const& a) { return abs(a); }
    static D w_hlf(D const& a) { return hlf(a); }
    static D w_add(D const& a, D const& b) { return a+b; }
    static D w_sub(D const& a, D const& b) { return a-b; }
    static D w_mul(D const& a, D const& b) { return a*b; }
    static D w_div(D const& a, D const& b) { return a/b; }
    static D w_idiv(D a, D const& b) { return (a/=b,a); }
    static D w_cadd(D const& a, X const& c) { return a+c; }
    static D w_csub(D const& a, X const& c) { return a-c; }
    static D w_cmul(D const& a, X const& c) { return a*c; }
    static D w_cdiv(D const& a, X const& c) { return a/c; }
    static D w_addc(X const& c, D const& a) { return c+a; }
    static D w_subc(X const& c, D const& a) { return c-a; }
    static D w_mulc(X const& c, D const& a) { return c*a; }
    static D w_divc(X const& c, D const& a) { return c/a; }
    static D w_cisub(D a, X const& c) { return (a-=c,a); }
    static D w_cidiv(D a, X const& c) { return (a/=c,a); }
    static D w_selfdiv(D a) { return (a/=a,a); }
    static D w_compose(D const& a, D const& b) { return compose(a,b); }
    static D w_composeself(D const& a) { return compose(a,a); }
    static D w_derivative(D const& a) { return derivative(a); }
    static D w_antiderivative(D const& a) { return antiderivative(a); }
    static D w_antiderivativec(D const& a, X const& c) { return antiderivative(a,c); }
    static D w_constant(DegreeType n, X const& c) { return D::constant(n,c); }
    static D w_variable(DegreeType n, X const& c) { return D::variable(n,c); }
    static X w_value(D const& a) { return a.value(); }
    static X w_gradient(D const& a) { return a.gradient(); }
    static X w_halfhessian(D const& a) { return a.half_hessian(); }
    static X w_hessian(D const& a) { return a.hessian(); }
    static D w_ser_pos(DegreeType n, X const& c) { return D(n,Series<X>(Pos(),c)); }
    static D w_ser_neg(DegreeType n, X const& c) { return D(n,Series<X>(Neg(),c)); }
    static D w_ser_hlf(DegreeType n, X const& c) { return D(n,Series<X>(Hlf(),c)); }
    static D w_ser_sqr(DegreeType n, X const& c) { return D(n,Series<X>(Sqr(),c)); }
    static D w_ser_rec(DegreeType n, X const& c) { return D(n,Series<X>(Rec(),c)); }
    static D w_ser_nul(DegreeType n, X const& c) { return D(n,Series<X>(Nul(),c)); }
    static D w_serop_pos(DegreeType n, X const& c) { return D(Pos(),n,c); }
    static D w_serop_neg(DegreeType n, X const& c) { return D(Neg(),n,c); }
    static D w_serop_hlf(DegreeType n, X const& c) { return D(Hlf(),n,c); }
    static D w_serop_sqr(DegreeType n, X const& c) { return D(Sqr(),n,c); }
    static D w_serop_rec(DegreeType n, X const& c) { return D(Rec(),n,c); }
    static D w_serop_nul(DegreeType n, X const& c) { return D(Nul(),n,c); }
};
template struct WUR<Rational>;
template<class X> struct WFUA { typedef UnivariateFirstDifferential<X> D;
    static D w_pos(D const& a) { return pos(a); }
    static D w_neg(D const& a) { return neg(a); }
    static D w_sqrt(D const& a) { return sqrt(a); }
    static D w_exp(D const& a) { return exp(a); }
    static D w_log(D const& a) { return log(a); }
    static D w_sin(D const& a) { return sin(a); }
    static D w_cos(D const& a) { return cos(a); }
    static D w_tan(D const& a) { return tan(a); }
    static D w_asin(D const& a) { return asin(a); }
    static D w_acos(D const& a) { return acos(a); }
    static D w_atan(D const& a) { return atan(a); }
    static D w_add(D const& a, D const& b) { return a+b; }
    static D w_sub(D const& a, D const& b) { return a-b; }
    static D w_mul(D const& a, D const& b) { return a*b; }
    static D w_div(D const& a, D const& b) { return a/b; }
    static D w_iadd(D a, D const& b) { return (a+=b,a); }
    static D w_isub(D a, D const& b) { return (a-=b,a); }
    static D w_imul(D a, D const& b) { return (a*=b,a); }
    static D w_idiv(D a, D const& b) { return (a/=b,a); }
    static D w_cadd(D const& a, X const& c) { return a+c; }
    static D w_csub(D const& a, X const& c) { return a-c; }
    static D w_cmul(D const& a, X const& c) { return a*c; }
    static D w_cdiv(D const& a, X const& c) { return a/c; }
    static D w_addc(X const& c, D const& a) { return c+a; }
    static D w_subc(X const& c, D const& a) { return c-a; }
    static D w_mulc(X const& c, D const& a) { return c*a; }
    static D w_ciadd(D a, X const& c) { return (a+=c,a); }
    static D w_cisub(D a, X const& c) { return (a-=c,a); }
    static D w_cimul(D a, X const& c) { return (a*=c,a); }
    static D w_cidiv(D a, X const& c) { return (a/=c,a); }
    static D w_self(D a) { return (a*=a,a); }
    static D w_selfdiv(D a) { return (a/=a,a); }
    static D w_selfadd(D a) { return (a+=a,a); }
    static D w_selfsub(D a) { return (a-=a,a); }
    static D w_pow(D const& a, Int n) { return pow(a,n); }
    static decltype(auto) w_eq(D const& a, D const& b) { return a==b; }
    static decltype(auto) w_ne(D const& a, D const& b) { return a!=b; }
    static D w_constant(X const& c) { return D::constant(c); }
    static D w_variable(X const& c) { return D::variable(c); }
    static X w_value(D const& a) { return a.value(); }
    static X w_gradient(D const& a) { return a.gradient(); }
    static D w_assign(D a, X const& c) { return (a=c,a); }
    static D w_zero(D const& a) { return a.create_zero(); }
    static D w_clear(D a) { return (a.clear(),a); }
    static D w_serop_pos(X const& c) { return D(Pos(),c); }
    static D w_serop_neg(X const& c) { return D(Neg(),c); }
    static D w_serop_hlf(X const& c) { return D(Hlf(),c); }
    static D w_serop_sqr(X const& c) { return D(Sqr(),c); }
    static D w_serop_rec(X const& c) { return D(Rec(),c); }
    static D w_serop_sqrt(X const& c) { return D(Sqrt(),c); }
    static D w_serop_exp(X const& c) { return D(Exp(),c); }
    static D w_serop_log(X const& c) { return D(Log(),c); }
    static D w_serop_sin(X const& c) { return D(Sin(),c); }
    static D w_serop_cos(X const& c) { return D(Cos(),c); }
    static D w_serop_tan(X const& c) { return D(Tan(),c); }
    static D w_serop_atan(X const& c) { return D(Atan(),c); }
    static D w_serop_nul(X const& c) { return D(Nul(),c); }
    static D w_ser_pos(X const& c) { return D(Series<X>(Pos(),c)); }
    static D w_ser_neg(X const& c) { return D(Series<X>(Neg(),c)); }
    static D w_ser_hlf(X const& c) { return D(Series<X>(Hlf(),c)); }
    static D w_ser_sqr(X const& c) { return D(Series<X>(Sqr(),c)); }
    static D w_ser_rec(X const& c) { return D(Series<X>(Rec(),c)); }
    static D w_ser_sqrt(X const& c) { return D(Series<X>(Sqrt(),c)); }
    static D w_ser_exp(X const& c) { return D(Series<X>(Exp(),c)); }
    static D w_ser_log(X const& c) { return D(Series<X>(Log(),c)); }
    static D w_ser_sin(X const& c) { return D(Series<X>(Sin(),c)); }
    static D w_ser_cos(X const& c) { return D(Series<X>(Cos(),c)); }
    static D w_ser_tan(X const& c) { return D(Series<X>(Tan(),c)); }
    static D w_ser_atan(X const& c) { return D(Series<X>(Atan(),c)); }
    static D w_ser_nul(X const& c) { return D(Series<X>(Nul(),c)); }
};
template struct WFUA<FloatDPApproximation>;
template<class X> struct WFUB { typedef UnivariateFirstDifferential<X> D;
    static D w_pos(D const& a) { return pos(a); }
    static D w_neg(D const& a) { return neg(a); }
    static D w_sqrt(D const& a) { return sqrt(a); }
    static D w_exp(D const& a) { return exp(a); }
    static D w_log(D const& a) { return log(a); }
    static D w_sin(D const& a) { return sin(a); }
    static D w_cos(D const& a) { return cos(a); }
    static D w_tan(D const& a) { return tan(a); }
    static D w_atan(D const& a) { return atan(a); }
    static D w_add(D const& a, D const& b) { return a+b; }
    static D w_sub(D const& a, D const& b) { return a-b; }
    static D w_mul(D const& a, D const& b) { return a*b; }
    static D w_div(D const& a, D const& b) { return a/b; }
    static D w_iadd(D a, D const& b) { return (a+=b,a); }
    static D w_isub(D a, D const& b) { return (a-=b,a); }
    static D w_imul(D a, D const& b) { return (a*=b,a); }
    static D w_idiv(D a, D const& b) { return (a/=b,a); }
    static D w_cadd(D const& a, X const& c) { return a+c; }
    static D w_csub(D const& a, X const& c) { return a-c; }
    static D w_cmul(D const& a, X const& c) { return a*c; }
    static D w_cdiv(D const& a, X const& c) { return a/c; }
    static D w_addc(X const& c, D const& a) { return c+a; }
    static D w_subc(X const& c, D const& a) { return c-a; }
    static D w_mulc(X const& c, D const& a) { return c*a; }
    static D w_ciadd(D a, X const& c) { return (a+=c,a); }
    static D w_cisub(D a, X const& c) { return (a-=c,a); }
    static D w_cimul(D a, X const& c) { return (a*=c,a); }
    static D w_cidiv(D a, X const& c) { return (a/=c,a); }
    static D w_self(D a) { return (a*=a,a); }
    static D w_selfdiv(D a) { return (a/=a,a); }
    static D w_selfadd(D a) { return (a+=a,a); }
    static D w_selfsub(D a) { return (a-=a,a); }
    static D w_pow(D const& a, Int n) { return pow(a,n); }
    static decltype(auto) w_eq(D const& a, D const& b) { return a==b; }
    static decltype(auto) w_ne(D const& a, D const& b) { return a!=b; }
    static D w_constant(X const& c) { return D::constant(c); }
    static D w_variable(X const& c) { return D::variable(c); }
    static X w_value(D const& a) { return a.value(); }
    static X w_gradient(D const& a) { return a.gradient(); }
    static D w_assign(D a, X const& c) { return (a=c,a); }
    static D w_zero(D const& a) { return a.create_zero(); }
    static D w_clear(D a) { return (a.clear(),a); }
    static D w_serop_pos(X const& c) { return D(Pos(),c); }
    static D w_serop_neg(X const& c) { return D(Neg(),c); }
    static D w_serop_hlf(X const& c) { return D(Hlf(),c); }
    static D w_serop_sqr(X const& c) { return D(Sqr(),c); }
    static D w_serop_rec(X const& c) { return D(Rec(),c); }
    static D w_serop_sqrt(X const& c) { return D(Sqrt(),c); }
    static D w_serop_exp(X const& c) { return D(Exp(),c); }
    static D w_serop_log(X const& c) { return D(Log(),c); }
    static D w_serop_sin(X const& c) { return D(Sin(),c); }
    static D w_serop_cos(X const& c) { return D(Cos(),c); }
    static D w_serop_tan(X const& c) { return D(Tan(),c); }
    static D w_serop_atan(X const& c) { return D(Atan(),c); }
    static D w_serop_nul(X const& c) { return D(Nul(),c); }
    static D w_ser_pos(X const& c) { return D(Series<X>(Pos(),c)); }
    static D w_ser_neg(X const& c) { return D(Series<X>(Neg(),c)); }
    static D w_ser_hlf(X const& c) { return D(Series<X>(Hlf(),c)); }
    static D w_ser_sqr(X const& c) { return D(Series<X>(Sqr(),c)); }
    static D w_ser_rec(X const& c) { return D(Series<X>(Rec(),c)); }
    static D w_ser_sqrt(X const& c) { return D(Series<X>(Sqrt(),c)); }
    static D w_ser_exp(X const& c) { return D(Series<X>(Exp(),c)); }
    static D w_ser_log(X const& c) { return D(Series<X>(Log(),c)); }
    static D w_ser_sin(X const& c) { return D(Series<X>(Sin(),c)); }
    static D w_ser_cos(X const& c) { return D(Series<X>(Cos(),c)); }
    static D w_ser_tan(X const& c) { return D(Series<X>(Tan(),c)); }
    static D w_ser_atan(X const& c) { return D(Series<X>(Atan(),c)); }
    static D w_ser_nul(X const& c) { return D(Series<X>(Nul(),c)); }
};
template struct WFUB<FloatDPBounds>;
template<class X> struct WFUR { typedef UnivariateFirstDifferential<X> D;
    static D w_pos(D const& a) { return pos(a); }
    static D w_neg(D const& a) { return neg(a); }
    static D w_abs(D const& a) { return abs(a); }
    static D w_add(D const& a, D const& b) { return a+b; }
    static D w_sub(D const& a, D const& b) { return a-b; }
    static D w_mul(D const& a, D const& b) { return a*b; }
    static D w_div(D const& a, D const& b) { return a/b; }
    static D w_iadd(D a, D const& b) { return (a+=b,a); }
    static D w_isub(D a, D const& b) { return (a-=b,a); }
    static D w_imul(D a, D const& b) { return (a*=b,a); }
    static D w_idiv(D a, D const& b) { return (a/=b,a); }
    static D w_cadd(D const& a, X const& c) { return a+c; }
    static D w_csub(D const& a, X const& c) { return a-c; }
    static D w_cmul(D const& a, X const& c) { return a*c; }
    static D w_cdiv(D const& a, X const& c) { return a/c; }
    static D w_addc(X const& c, D const& a) { return c+a; }
    static D w_subc(X const& c, D const& a) { return c-a; }
    static D w_mulc(X const& c, D const& a) { return c*a; }
    static D w_ciadd(D a, X const& c) { return (a+=c,a); }
    static D w_cisub(D a, X const& c) { return (a-=c,a); }
    static D w_cimul(D a, X const& c) { return (a*=c,a); }
    static D w_cidiv(D a, X const& c) { return (a/=c,a); }
    static D w_self(D a) { return (a*=a,a); }
    static D w_selfdiv(D a) { return (a/=a,a); }
    static D w_selfadd(D a) { return (a+=a,a); }
    static D w_selfsub(D a) { return (a-=a,a); }
    static D w_min(D const& a, D const& b) { return min(a,b); }
    static D w_max(D const& a, D const& b) { return max(a,b); }
    static D w_pow(D const& a, Int n) { return pow(a,n); }
    static decltype(auto) w_eq(D const& a, D const& b) { return a==b; }
    static decltype(auto) w_ne(D const& a, D const& b) { return a!=b; }
    static D w_constant(X const& c) { return D::constant(c); }
    static D w_variable(X const& c) { return D::variable(c); }
    static X w_value(D const& a) { return a.value(); }
    static X w_gradient(D const& a) { return a.gradient(); }
    static D w_assign(D a, X const& c) { return (a=c,a); }
    static D w_zero(D const& a) { return a.create_zero(); }
    static D w_clear(D a) { return (a.clear(),a); }
    static D w_serop_pos(X const& c) { return D(Pos(),c); }
    static D w_serop_neg(X const& c) { return D(Neg(),c); }
    static D w_serop_hlf(X const& c) { return D(Hlf(),c); }
    static D w_serop_sqr(X const& c) { return D(Sqr(),c); }
    static D w_serop_rec(X const& c) { return D(Rec(),c); }
    static D w_serop_nul(X const& c) { return D(Nul(),c); }
    static D w_ser_pos(X const& c) { return D(Series<X>(Pos(),c)); }
    static D w_ser_neg(X const& c) { return D(Series<X>(Neg(),c)); }
    static D w_ser_hlf(X const& c) { return D(Series<X>(Hlf(),c)); }
    static D w_ser_sqr(X const& c) { return D(Series<X>(Sqr(),c)); }
    static D w_ser_rec(X const& c) { return D(Series<X>(Rec(),c)); }
    static D w_ser_nul(X const& c) { return D(Series<X>(Nul(),c)); }
};
template struct WFUR<Rational>;
template<class X> struct WSUA { typedef UnivariateSecondDifferential<X> D;
    static D w_pos(D const& a) { return pos(a); }
    static D w_neg(D const& a) { return neg(a); }
    static D w_sqr(D const& a) { return sqr(a); }
    static D w_rec(D const& a) { return rec(a); }
    static D w_sqrt(D const& a) { return sqrt(a); }
    static D w_exp(D const& a) { return exp(a); }
    static D w_log(D const& a) { return log(a); }
    static D w_sin(D const& a) { return sin(a); }
    static D w_cos(D const& a) { return cos(a); }
    static D w_tan(D const& a) { return tan(a); }
    static D w_asin(D const& a) { return asin(a); }
    static D w_acos(D const& a) { return acos(a); }
    static D w_atan(D const& a) { return atan(a); }
    static D w_abs(D const& a) { return abs(a); }
    static D w_hlf(D const& a) { return hlf(a); }
    static D w_add(D const& a, D const& b) { return a+b; }
    static D w_sub(D const& a, D const& b) { return a-b; }
    static D w_mul(D const& a, D const& b) { return a*b; }
    static D w_div(D const& a, D const& b) { return a/b; }
    static D w_iadd(D a, D const& b) { return (a+=b,a); }
    static D w_isub(D a, D const& b) { return (a-=b,a); }
    static D w_imul(D a, D const& b) { return (a*=b,a); }
    static D w_idiv(D a, D const& b) { return (a/=b,a); }
    static D w_cadd(D const& a, X const& c) { return a+c; }
    static D w_csub(D const& a, X const& c) { return a-c; }
    static D w_cmul(D const& a, X const& c) { return a*c; }
    static D w_cdiv(D const& a, X const& c) { return a/c; }
    static D w_addc(X const& c, D const& a) { return c+a; }
    static D w_subc(X const& c, D const& a) { return c-a; }
    static D w_mulc(X const& c, D const& a) { return c*a; }
    static D w_divc(X const& c, D const& a) { return c/a; }
    static D w_ciadd(D a, X const& c) { return (a+=c,a); }
    static D w_cisub(D a, X const& c) { return (a-=c,a); }
    static D w_cimul(D a, X const& c) { return (a*=c,a); }
    static D w_cidiv(D a, X const& c) { return (a/=c,a); }
    static D w_self(D a) { return (a*=a,a); }
    static D w_selfdiv(D a) { return (a/=a,a); }
    static D w_selfadd(D a) { return (a+=a,a); }
    static D w_selfsub(D a) { return (a-=a,a); }
    static D w_min(D const& a, D const& b) { return min(a,b); }
    static D w_max(D const& a, D const& b) { return max(a,b); }
    static D w_pow(D const& a, Int n) { return pow(a,n); }
    static decltype(auto) w_eq(D const& a, D const& b) { return a==b; }
    static decltype(auto) w_ne(D const& a, D const& b) { return a!=b; }
    static D w_compose(D const& a, D const& b) { return compose(a,b); }
    static D w_constant(X const& c) { return D::constant(c); }
    static D w_variable(X const& c) { return D::variable(c); }
    static X w_value(D const& a) { return a.value(); }
    static X w_gradient(D const& a) { return a.gradient(); }
    static X w_halfhessian(D const& a) { return a.half_hessian(); }
    static X w_hessian(D const& a) { return a.hessian(); }
    static D w_assign(D a, X const& c) { return (a=c,a); }
    static D w_zero(D const& a) { return a.create_zero(); }
    static D w_clear(D a) { return (a.clear(),a); }
    static D w_serop_pos(X const& c) { return D(Pos(),c); }
    static D w_serop_neg(X const& c) { return D(Neg(),c); }
    static D w_serop_hlf(X const& c) { return D(Hlf(),c); }
    static D w_serop_sqr(X const& c) { return D(Sqr(),c); }
    static D w_serop_rec(X const& c) { return D(Rec(),c); }
    static D w_serop_sqrt(X const& c) { return D(Sqrt(),c); }
    static D w_serop_exp(X const& c) { return D(Exp(),c); }
    static D w_serop_log(X const& c) { return D(Log(),c); }
    static D w_serop_sin(X const& c) { return D(Sin(),c); }
    static D w_serop_cos(X const& c) { return D(Cos(),c); }
    static D w_serop_tan(X const& c) { return D(Tan(),c); }
    static D w_serop_atan(X const& c) { return D(Atan(),c); }
    static D w_serop_nul(X const& c) { return D(Nul(),c); }
    static D w_ser_pos(X const& c) { return D(Series<X>(Pos(),c)); }
    static D w_ser_neg(X const& c) { return D(Series<X>(Neg(),c)); }
    static D w_ser_hlf(X const& c) { return D(Series<X>(Hlf(),c)); }
    static D w_ser_sqr(X const& c) { return D(Series<X>(Sqr(),c)); }
    static D w_ser_rec(X const& c) { return D(Series<X>(Rec(),c)); }
    static D w_ser_sqrt(X const& c) { return D(Series<X>(Sqrt(),c)); }
    static D w_ser_exp(X const& c) { return D(Series<X>(Exp(),c)); }
    static D w_ser_log(X const& c) { return D(Series<X>(Log(),c)); }
    static D w_ser_sin(X const& c) { return D(Series<X>(Sin(),c)); }
    static D w_ser_cos(X const& c) { return D(Series<X>(Cos(),c)); }
    static D w_ser_tan(X const& c) { return D(Series<X>(Tan(),c)); }
    static D w_ser_atan(X const& c) { return D(Series<X>(Atan(),c)); }
    static D w_ser_nul(X const& c) { return D(Series<X>(Nul(),c)); }
};
template struct WSUA<FloatDPApproximation>;
template<class X> struct WSUB { typedef UnivariateSecondDifferential<X> D;
    static D w_pos(D const& a) { return pos(a); }
    static D w_neg(D const& a) { return neg(a); }
    static D w_sqr(D const& a) { return sqr(a); }
    static D w_rec(D const& a) { return rec(a); }
    static D w_sqrt(D const& a) { return sqrt(a); }
    static D w_exp(D const& a) { return exp(a); }
    static D w_log(D const& a) { return log(a); }
    static D w_sin(D const& a) { return sin(a); }
    static D w_cos(D const& a) { return cos(a); }
    static D w_tan(D const& a) { return tan(a); }
    static D w_asin(D const& a) { return asin(a); }
    static D w_acos(D const& a) { return acos(a); }
    static D w_atan(D const& a) { return atan(a); }
    static D w_abs(D const& a) { return abs(a); }
    static D w_hlf(D const& a) { return hlf(a); }
    static D w_add(D const& a, D const& b) { return a+b; }
    static D w_sub(D const& a, D const& b) { return a-b; }
    static D w_mul(D const& a, D const& b) { return a*b; }
    static D w_div(D const& a, D const& b) { return a/b; }
    static D w_iadd(D a, D const& b) { return (a+=b,a); }
    static D w_isub(D a, D const& b) { return (a-=b,a); }
    static D w_imul(D a, D const& b) { return (a*=b,a); }
    static D w_idiv(D a, D const& b) { return (a/=b,a); }
    static D w_cadd(D const& a, X const& c) { return a+c; }
    static D w_csub(D const& a, X const& c) { return a-c; }
    static D w_cmul(D const& a, X const& c) { return a*c; }
    static D w_cdiv(D const& a, X const& c) { return a/c; }
    static D w_addc(X const& c, D const& a) { return c+a; }
    static D w_subc(X const& c, D const& a) { return c-a; }
    static D w_mulc(X const& c, D const& a) { return c*a; }
    static D w_divc(X const& c, D const& a) { return c/a; }
    static D w_ciadd(D a, X const& c) { return (a+=c,a); }
    static D w_cisub(D a, X const& c) { return (a-=c,a); }
    static D w_cimul(D a, X const& c) { return (a*=c,a); }
    static D w_cidiv(D a, X const& c) { return (a/=c,a); }
    static D w_self(D a) { return (a*=a,a); }
    static D w_selfdiv(D a) { return (a/=a,a); }
    static D w_selfadd(D a) { return (a+=a,a); }
    static D w_selfsub(D a) { return (a-=a,a); }
    static D w_min(D const& a, D const& b) { return min(a,b); }
    static D w_max(D const& a, D const& b) { return max(a,b); }
    static D w_pow(D const& a, Int n) { return pow(a,n); }
    static decltype(auto) w_eq(D const& a, D const& b) { return a==b; }
    static decltype(auto) w_ne(D const& a, D const& b) { return a!=b; }
    static D w_compose(D const& a, D const& b) { return compose(a,b); }
    static D w_constant(X const& c) { return D::constant(c); }
    static D w_variable(X const& c) { return D::variable(c); }
    static X w_value(D const& a) { return a.value(); }
    static X w_gradient(D const& a) { return a.gradient(); }
    static X w_halfhessian(D const& a) { return a.half_hessian(); }
    static X w_hessian(D const& a) { return a.hessian(); }
    static D w_assign(D a, X const& c) { return (a=c,a); }
    static D w_zero(D const& a) { return a.create_zero(); }
    static D w_clear(D a) { return (a.clear(),a); }
    static D w_serop_pos(X const& c) { return D(Pos(),c); }
    static D w_serop_neg(X const& c) { return D(Neg(),c); }
    static D w_serop_hlf(X const& c) { return D(Hlf(),c); }
    static D w_serop_sqr(X const& c) { return D(Sqr(),c); }
    static D w_serop_rec(X const& c) { return D(Rec(),c); }
    static D w_serop_sqrt(X const& c) { return D(Sqrt(),c); }
    static D w_serop_exp(X const& c) { return D(Exp(),c); }
    static D w_serop_log(X const& c) { return D(Log(),c); }
    static D w_serop_sin(X const& c) { return D(Sin(),c); }
    static D w_serop_cos(X const& c) { return D(Cos(),c); }
    static D w_serop_tan(X const& c) { return D(Tan(),c); }
    static D w_serop_atan(X const& c) { return D(Atan(),c); }
    static D w_serop_nul(X const& c) { return D(Nul(),c); }
    static D w_ser_pos(X const& c) { return D(Series<X>(Pos(),c)); }
    static D w_ser_neg(X const& c) { return D(Series<X>(Neg(),c)); }
    static D w_ser_hlf(X const& c) { return D(Series<X>(Hlf(),c)); }
    static D w_ser_sqr(X const& c) { return D(Series<X>(Sqr(),c)); }
    static D w_ser_rec(X const& c) { return D(Series<X>(Rec(),c)); }
    static D w_ser_sqrt(X const& c) { return D(Series<X>(Sqrt(),c)); }
    static D w_ser_exp(X const& c) { return D(Series<X>(Exp(),c)); }
    static D w_ser_log(X const& c) { return D(Series<X>(Log(),c)); }
    static D w_ser_sin(X const& c) { return D(Series<X>(Sin(),c)); }
    static D w_ser_cos(X const& c) { return D(Series<X>(Cos(),c)); }
    static D w_ser_tan(X const& c) { return D(Series<X>(Tan(),c)); }
    static D w_ser_atan(X const& c) { return D(Series<X>(Atan(),c)); }
    static D w_ser_nul(X const& c) { return D(Series<X>(Nul(),c)); }
};
template struct WSUB<FloatDPBounds>;
template<class X> struct WSUR { typedef UnivariateSecondDifferential<X> D;
    static D w_pos(D const& a) { return pos(a); }
    static D w_neg(D const& a) { return neg(a); }
    static D w_sqr(D const& a) { return sqr(a); }
    static D w_rec(D const& a) { return rec(a); }
    static D w_abs(D const& a) { return abs(a); }
    static D w_hlf(D const& a) { return hlf(a); }
    static D w_add(D const& a, D const& b) { return a+b; }
    static D w_sub(D const& a, D const& b) { return a-b; }
    static D w_mul(D const& a, D const& b) { return a*b; }
    static D w_div(D const& a, D const& b) { return a/b; }
    static D w_iadd(D a, D const& b) { return (a+=b,a); }
    static D w_isub(D a, D const& b) { return (a-=b,a); }
    static D w_imul(D a, D const& b) { return (a*=b,a); }
    static D w_idiv(D a, D const& b) { return (a/=b,a); }
    static D w_cadd(D const& a, X const& c) { return a+c; }
    static D w_csub(D const& a, X const& c) { return a-c; }
    static D w_cmul(D const& a, X const& c) { return a*c; }
    static D w_cdiv(D const& a, X const& c) { return a/c; }
    static D w_addc(X const& c, D const& a) { return c+a; }
    static D w_subc(X const& c, D const& a) { return c-a; }
    static D w_mulc(X const& c, D const& a) { return c*a; }
    static D w_divc(X const& c, D const& a) { return c/a; }
    static D w_ciadd(D a, X const& c) { return (a+=c,a); }
    static D w_cisub(D a, X const& c) { return (a-=c,a); }
    static D w_cimul(D a, X const& c) { return (a*=c,a); }
    static D w_cidiv(D a, X const& c) { return (a/=c,a); }
    static D w_self(D a) { return (a*=a,a); }
    static D w_selfdiv(D a) { return (a/=a,a); }
    static D w_selfadd(D a) { return (a+=a,a); }
    static D w_selfsub(D a) { return (a-=a,a); }
    static D w_min(D const& a, D const& b) { return min(a,b); }
    static D w_max(D const& a, D const& b) { return max(a,b); }
    static D w_pow(D const& a, Int n) { return pow(a,n); }
    static decltype(auto) w_eq(D const& a, D const& b) { return a==b; }
    static decltype(auto) w_ne(D const& a, D const& b) { return a!=b; }
    static D w_compose(D const& a, D const& b) { return compose(a,b); }
    static D w_constant(X const& c) { return D::constant(c); }
    static D w_variable(X const& c) { return D::variable(c); }
    static X w_value(D const& a) { return a.value(); }
    static X w_gradient(D const& a) { return a.gradient(); }
    static X w_halfhessian(D const& a) { return a.half_hessian(); }
    static X w_hessian(D const& a) { return a.hessian(); }
    static D w_assign(D a, X const& c) { return (a=c,a); }
    static D w_zero(D const& a) { return a.create_zero(); }
    static D w_clear(D a) { return (a.clear(),a); }
    static D w_serop_pos(X const& c) { return D(Pos(),c); }
    static D w_serop_neg(X const& c) { return D(Neg(),c); }
    static D w_serop_hlf(X const& c) { return D(Hlf(),c); }
    static D w_serop_sqr(X const& c) { return D(Sqr(),c); }
    static D w_serop_rec(X const& c) { return D(Rec(),c); }
    static D w_serop_nul(X const& c) { return D(Nul(),c); }
    static D w_ser_pos(X const& c) { return D(Series<X>(Pos(),c)); }
    static D w_ser_neg(X const& c) { return D(Series<X>(Neg(),c)); }
    static D w_ser_hlf(X const& c) { return D(Series<X>(Hlf(),c)); }
    static D w_ser_sqr(X const& c) { return D(Series<X>(Sqr(),c)); }
    static D w_ser_rec(X const& c) { return D(Series<X>(Rec(),c)); }
    static D w_ser_nul(X const& c) { return D(Series<X>(Nul(),c)); }
};
template struct WSUR<Rational>;
template<class X> struct WFMA { typedef FirstDifferential<X> D; typedef UnivariateFirstDifferential<X> UD;
    static D w_pos(D const& a) { return pos(a); }
    static D w_neg(D const& a) { return neg(a); }
    static D w_sqr(D const& a) { return sqr(a); }
    static D w_rec(D const& a) { return rec(a); }
    static D w_sqrt(D const& a) { return sqrt(a); }
    static D w_exp(D const& a) { return exp(a); }
    static D w_log(D const& a) { return log(a); }
    static D w_sin(D const& a) { return sin(a); }
    static D w_cos(D const& a) { return cos(a); }
    static D w_tan(D const& a) { return tan(a); }
    static D w_asin(D const& a) { return asin(a); }
    static D w_acos(D const& a) { return acos(a); }
    static D w_atan(D const& a) { return atan(a); }
    static D w_hlf(D const& a) { return hlf(a); }
    static D w_add(D const& a, D const& b) { return a+b; }
    static D w_sub(D const& a, D const& b) { return a-b; }
    static D w_mul(D const& a, D const& b) { return a*b; }
    static D w_div(D const& a, D const& b) { return a/b; }
    static D w_iadd(D a, D const& b) { return (a+=b,a); }
    static D w_isub(D a, D const& b) { return (a-=b,a); }
    static D w_imul(D a, D const& b) { return (a*=b,a); }
    static D w_idiv(D a, D const& b) { return (a/=b,a); }
    static D w_cadd(D const& a, X const& c) { return a+c; }
    static D w_csub(D const& a, X const& c) { return a-c; }
    static D w_cmul(D const& a, X const& c) { return a*c; }
    static D w_cdiv(D const& a, X const& c) { return a/c; }
    static D w_addc(X const& c, D const& a) { return c+a; }
    static D w_subc(X const& c, D const& a) { return c-a; }
    static D w_mulc(X const& c, D const& a) { return c*a; }
    static D w_divc(X const& c, D const& a) { return c/a; }
    static D w_ciadd(D a, X const& c) { return (a+=c,a); }
    static D w_cisub(D a, X const& c) { return (a-=c,a); }
    static D w_cimul(D a, X const& c) { return (a*=c,a); }
    static D w_cidiv(D a, X const& c) { return (a/=c,a); }
    static D w_self(D a) { return (a*=a,a); }
    static D w_selfdiv(D a) { return (a/=a,a); }
    static D w_selfadd(D a) { return (a+=a,a); }
    static D w_selfsub(D a) { return (a-=a,a); }
    static D w_pow(D const& a, Int n) { return pow(a,n); }
    static decltype(auto) w_eq(D const& a, D const& b) { return a==b; }
    static decltype(auto) w_ne(D const& a, D const& b) { return a!=b; }
    static D w_compose(UD const& a, D const& b) { return compose(a,b); }
    static Vector<D> w_variables(Vector<X> const& c) { return D::variables(c); }
    static X w_value(D const& a) { return a.value(); }
    static Covector<X> w_gradient(D const& a) { return a.gradient(); }
    static D w_assign(D a, X const& c) { return (a=c,a); }
    static D w_clear(D a) { return (a.clear(),a); }
};
template struct WFMA<FloatDPApproximation>;
template<class X> struct WFMB { typedef FirstDifferential<X> D; typedef UnivariateFirstDifferential<X> UD;
    static D w_pos(D const& a) { return pos(a); }
    static D w_neg(D const& a) { return neg(a); }
    static D w_sqr(D const& a) { return sqr(a); }
    static D w_rec(D const& a) { return rec(a); }
    static D w_sqrt(D const& a) { return sqrt(a); }
    static D w_exp(D const& a) { return exp(a); }
    static D w_log(D const& a) { return log(a); }
    static D w_sin(D const& a) { return sin(a); }
    static D w_cos(D const& a) { return cos(a); }
    static D w_tan(D const& a) { return tan(a); }
    static D w_atan(D const& a) { return atan(a); }
    static D w_hlf(D const& a) { return hlf(a); }
    static D w_add(D const& a, D const& b) { return a+b; }
    static D w_sub(D const& a, D const& b) { return a-b; }
    static D w_mul(D const& a, D const& b) { return a*b; }
    static D w_div(D const& a, D const& b) { return a/b; }
    static D w_iadd(D a, D const& b) { return (a+=b,a); }
    static D w_isub(D a, D const& b) { return (a-=b,a); }
    static D w_imul(D a, D const& b) { return (a*=b,a); }
    static D w_idiv(D a, D const& b) { return (a/=b,a); }
    static D w_cadd(D const& a, X const& c) { return a+c; }
    static D w_csub(D const& a, X const& c) { return a-c; }
    static D w_cmul(D const& a, X const& c) { return a*c; }
    static D w_cdiv(D const& a, X const& c) { return a/c; }
    static D w_addc(X const& c, D const& a) { return c+a; }
    static D w_subc(X const& c, D const& a) { return c-a; }
    static D w_mulc(X const& c, D const& a) { return c*a; }
    static D w_divc(X const& c, D const& a) { return c/a; }
    static D w_ciadd(D a, X const& c) { return (a+=c,a); }
    static D w_cisub(D a, X const& c) { return (a-=c,a); }
    static D w_cimul(D a, X const& c) { return (a*=c,a); }
    static D w_cidiv(D a, X const& c) { return (a/=c,a); }
    static D w_self(D a) { return (a*=a,a); }
    static D w_selfdiv(D a) { return (a/=a,a); }
    static D w_selfadd(D a) { return (a+=a,a); }
    static D w_selfsub(D a) { return (a-=a,a); }
    static D w_pow(D const& a, Int n) { return pow(a,n); }
    static decltype(auto) w_eq(D const& a, D const& b) { return a==b; }
    static decltype(auto) w_ne(D const& a, D const& b) { return a!=b; }
    static D w_compose(UD const& a, D const& b) { return compose(a,b); }
    static Vector<D> w_variables(Vector<X> const& c) { return D::variables(c); }
    static X w_value(D const& a) { return a.value(); }
    static Covector<X> w_gradient(D const& a) { return a.gradient(); }
    static D w_assign(D a, X const& c) { return (a=c,a); }
    static D w_clear(D a) { return (a.clear(),a); }
};
template struct WFMB<FloatDPBounds>;
template<class X> struct WFMR { typedef FirstDifferential<X> D; typedef UnivariateFirstDifferential<X> UD;
    static D w_pos(D const& a) { return pos(a); }
    static D w_neg(D const& a) { return neg(a); }
    static D w_sqr(D const& a) { return sqr(a); }
    static D w_rec(D const& a) { return rec(a); }
    static D w_abs(D const& a) { return abs(a); }
    static D w_hlf(D const& a) { return hlf(a); }
    static D w_add(D const& a, D const& b) { return a+b; }
    static D w_sub(D const& a, D const& b) { return a-b; }
    static D w_mul(D const& a, D const& b) { return a*b; }
    static D w_div(D const& a, D const& b) { return a/b; }
    static D w_iadd(D a, D const& b) { return (a+=b,a); }
    static D w_isub(D a, D const& b) { return (a-=b,a); }
    static D w_imul(D a, D const& b) { return (a*=b,a); }
    static D w_idiv(D a, D const& b) { return (a/=b,a); }
    static D w_cadd(D const& a, X const& c) { return a+c; }
    static D w_csub(D const& a, X const& c) { return a-c; }
    static D w_cmul(D const& a, X const& c) { return a*c; }
    static D w_cdiv(D const& a, X const& c) { return a/c; }
    static D w_addc(X const& c, D const& a) { return c+a; }
    static D w_subc(X const& c, D const& a) { return c-a; }
    static D w_mulc(X const& c, D const& a) { return c*a; }
    static D w_divc(X const& c, D const& a) { return c/a; }
    static D w_ciadd(D a, X const& c) { return (a+=c,a); }
    static D w_cisub(D a, X const& c) { return (a-=c,a); }
    static D w_cimul(D a, X const& c) { return (a*=c,a); }
    static D w_cidiv(D a, X const& c) { return (a/=c,a); }
    static D w_self(D a) { return (a*=a,a); }
    static D w_selfdiv(D a) { return (a/=a,a); }
    static D w_selfadd(D a) { return (a+=a,a); }
    static D w_selfsub(D a) { return (a-=a,a); }
    static D w_min(D const& a, D const& b) { return min(a,b); }
    static D w_max(D const& a, D const& b) { return max(a,b); }
    static D w_pow(D const& a, Int n) { return pow(a,n); }
    static decltype(auto) w_eq(D const& a, D const& b) { return a==b; }
    static decltype(auto) w_ne(D const& a, D const& b) { return a!=b; }
    static D w_compose(UD const& a, D const& b) { return compose(a,b); }
    static D w_constant(SizeType n, X const& c) { return D::constant(n,c); }
    static D w_variable(SizeType n, X const& c, SizeType j) { return D::variable(n,c,j); }
    static Vector<D> w_variables(Vector<X> const& c) { return D::variables(c); }
    static X w_value(D const& a) { return a.value(); }
    static Covector<X> w_gradient(D const& a) { return a.gradient(); }
    static D w_assign(D a, X const& c) { return (a=c,a); }
    static D w_clear(D a) { return (a.clear(),a); }
};
template struct WFMR<Rational>;
template<class X> struct WSMA { typedef SecondDifferential<X> D; typedef UnivariateSecondDifferential<X> UD;
    static D w_pos(D const& a) { return pos(a); }
    static D w_neg(D const& a) { return neg(a); }
    static D w_add(D const& a, D const& b) { return a+b; }
    static D w_sub(D const& a, D const& b) { return a-b; }
    static D w_mul(D const& a, D const& b) { return a*b; }
    static D w_iadd(D a, D const& b) { return (a+=b,a); }
    static D w_isub(D a, D const& b) { return (a-=b,a); }
    static D w_imul(D a, D const& b) { return (a*=b,a); }
    static D w_cadd(D const& a, X const& c) { return a+c; }
    static D w_csub(D const& a, X const& c) { return a-c; }
    static D w_cmul(D const& a, X const& c) { return a*c; }
    static D w_cdiv(D const& a, X const& c) { return a/c; }
    static D w_addc(X const& c, D const& a) { return c+a; }
    static D w_subc(X const& c, D const& a) { return c-a; }
    static D w_mulc(X const& c, D const& a) { return c*a; }
    static D w_ciadd(D a, X const& c) { return (a+=c,a); }
    static D w_cisub(D a, X const& c) { return (a-=c,a); }
    static D w_cimul(D a, X const& c) { return (a*=c,a); }
    static D w_cidiv(D a, X const& c) { return (a/=c,a); }
    static D w_self(D a) { return (a*=a,a); }
    static D w_selfadd(D a) { return (a+=a,a); }
    static D w_selfsub(D a) { return (a-=a,a); }
    static D w_pow(D const& a, Int n) { return pow(a,n); }
    static decltype(auto) w_eq(D const& a, D const& b) { return a==b; }
    static decltype(auto) w_ne(D const& a, D const& b) { return a!=b; }
    static D w_constant(SizeType n, X const& c) { return D::constant(n,c); }
    static D w_variable(SizeType n, X const& c, SizeType j) { return D::variable(n,c,j); }
    static Vector<D> w_variables(Vector<X> const& c) { return D::variables(c); }
    static X w_value(D const& a) { return a.value(); }
    static Covector<X> w_gradient(D const& a) { return a.gradient(); }
    static Matrix<X> w_hessian(D const& a) { return a.hessian(); }
    static D w_assign(D a, X const& c) { return (a=c,a); }
    static D w_clear(D a) { return (a.clear(),a); }
    static D w_sqr(D const& a) { return sqr(a); }
    static D w_sqrt(D const& a) { return sqrt(a); }
    static D w_exp(D const& a) { return exp(a); }
    static D w_log(D const& a) { return log(a); }
    static D w_sin(D const& a) { return sin(a); }
    static D w_cos(D const& a) { return cos(a); }
    static D w_tan(D const& a) { return tan(a); }
};
template struct WSMA<FloatDPApproximation>;
template<class X> struct WSMB { typedef SecondDifferential<X> D; typedef UnivariateSecondDifferential<X> UD;
    static D w_pos(D const& a) { return pos(a); }
    static D w_neg(D const& a) { return neg(a); }
    static D w_add(D const& a, D const& b) { return a+b; }
    static D w_sub(D const& a, D const& b) { return a-b; }
    static D w_mul(D const& a, D const& b) { return a*b; }
    static D w_iadd(D a, D const& b) { return (a+=b,a); }
    static D w_isub(D a, D const& b) { return (a-=b,a); }
    static D w_imul(D a, D const& b) { return (a*=b,a); }
    static D w_cadd(D const& a, X const& c) { return a+c; }
    static D w_csub(D const& a, X const& c) { return a-c; }
    static D w_cmul(D const& a, X const& c) { return a*c; }
    static D w_cdiv(D const& a, X const& c) { return a/c; }
    static D w_addc(X const& c, D const& a) { return c+a; }
    static D w_subc(X const& c, D const& a) { return c-a; }
    static D w_mulc(X const& c, D const& a) { return c*a; }
    static D w_ciadd(D a, X const& c) { return (a+=c,a); }
    static D w_cisub(D a, X const& c) { return (a-=c,a); }
    static D w_cimul(D a, X const& c) { return (a*=c,a); }
    static D w_cidiv(D a, X const& c) { return (a/=c,a); }
    static D w_self(D a) { return (a*=a,a); }
    static D w_selfadd(D a) { return (a+=a,a); }
    static D w_selfsub(D a) { return (a-=a,a); }
    static D w_pow(D const& a, Int n) { return pow(a,n); }
    static decltype(auto) w_eq(D const& a, D const& b) { return a==b; }
    static decltype(auto) w_ne(D const& a, D const& b) { return a!=b; }
    static D w_constant(SizeType n, X const& c) { return D::constant(n,c); }
    static D w_variable(SizeType n, X const& c, SizeType j) { return D::variable(n,c,j); }
    static Vector<D> w_variables(Vector<X> const& c) { return D::variables(c); }
    static X w_value(D const& a) { return a.value(); }
    static Covector<X> w_gradient(D const& a) { return a.gradient(); }
    static Matrix<X> w_hessian(D const& a) { return a.hessian(); }
    static D w_assign(D a, X const& c) { return (a=c,a); }
    static D w_clear(D a) { return (a.clear(),a); }
    static D w_sqr(D const& a) { return sqr(a); }
    static D w_sqrt(D const& a) { return sqrt(a); }
    static D w_exp(D const& a) { return exp(a); }
    static D w_log(D const& a) { return log(a); }
    static D w_sin(D const& a) { return sin(a); }
    static D w_cos(D const& a) { return cos(a); }
    static D w_tan(D const& a) { return tan(a); }
};
template struct WSMB<FloatDPBounds>;
template<class X> struct WSMR { typedef SecondDifferential<X> D; typedef UnivariateSecondDifferential<X> UD;
    static D w_pos(D const& a) { return pos(a); }
    static D w_neg(D const& a) { return neg(a); }
    static D w_sqr(D const& a) { return sqr(a); }
    static D w_rec(D const& a) { return rec(a); }
    static D w_abs(D const& a) { return abs(a); }
    static D w_add(D const& a, D const& b) { return a+b; }
    static D w_sub(D const& a, D const& b) { return a-b; }
    static D w_mul(D const& a, D const& b) { return a*b; }
    static D w_div(D const& a, D const& b) { return a/b; }
    static D w_iadd(D a, D const& b) { return (a+=b,a); }
    static D w_isub(D a, D const& b) { return (a-=b,a); }
    static D w_imul(D a, D const& b) { return (a*=b,a); }
    static D w_idiv(D a, D const& b) { return (a/=b,a); }
    static D w_cadd(D const& a, X const& c) { return a+c; }
    static D w_csub(D const& a, X const& c) { return a-c; }
    static D w_cmul(D const& a, X const& c) { return a*c; }
    static D w_cdiv(D const& a, X const& c) { return a/c; }
    static D w_addc(X const& c, D const& a) { return c+a; }
    static D w_subc(X const& c, D const& a) { return c-a; }
    static D w_mulc(X const& c, D const& a) { return c*a; }
    static D w_divc(X const& c, D const& a) { return c/a; }
    static D w_ciadd(D a, X const& c) { return (a+=c,a); }
    static D w_cisub(D a, X const& c) { return (a-=c,a); }
    static D w_cimul(D a, X const& c) { return (a*=c,a); }
    static D w_cidiv(D a, X const& c) { return (a/=c,a); }
    static D w_self(D a) { return (a*=a,a); }
    static D w_selfdiv(D a) { return (a/=a,a); }
    static D w_selfadd(D a) { return (a+=a,a); }
    static D w_selfsub(D a) { return (a-=a,a); }
    static D w_min(D const& a, D const& b) { return min(a,b); }
    static D w_max(D const& a, D const& b) { return max(a,b); }
    static D w_pow(D const& a, Int n) { return pow(a,n); }
    static decltype(auto) w_eq(D const& a, D const& b) { return a==b; }
    static decltype(auto) w_ne(D const& a, D const& b) { return a!=b; }
    static D w_compose(UD const& a, D const& b) { return compose(a,b); }
    static Vector<D> w_variables(Vector<X> const& c) { return D::variables(c); }
    static X w_value(D const& a) { return a.value(); }
    static Covector<X> w_gradient(D const& a) { return a.gradient(); }
    static Matrix<X> w_hessian(D const& a) { return a.hessian(); }
    static D w_assign(D a, X const& c) { return (a=c,a); }
    static D w_clear(D a) { return (a.clear(),a); }
};
template struct WSMR<Rational>;
template<class X> struct WGA { typedef Graded<X> D;
    static D w_nul(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=nul(t); } return r; }
    static D w_pos(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=pos(t); } return r; }
    static D w_neg(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=neg(t); } return r; }
    static D w_hlf(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=hlf(t); } return r; }
    static D w_sqr(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=sqr(t); } return r; }
    static D w_rec(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=rec(t); } return r; }
    static D w_sqrt(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=sqrt(t); } return r; }
    static D w_exp(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=exp(t); } return r; }
    static D w_log(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=log(t); } return r; }
    static D w_sin(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=sin(t); } return r; }
    static D w_cos(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=cos(t); } return r; }
    static D w_add(D const& a, D const& b) { D r; D s; D t; for(SizeType i=0; i!=a.size(); ++i) { s.append(a[i]); t.append(b[i]); r=s+t; } return r; }
    static D w_sub(D const& a, D const& b) { D r; D s; D t; for(SizeType i=0; i!=a.size(); ++i) { s.append(a[i]); t.append(b[i]); r=s-t; } return r; }
    static D w_mul(D const& a, D const& b) { D r; D s; D t; for(SizeType i=0; i!=a.size(); ++i) { s.append(a[i]); t.append(b[i]); r=s*t; } return r; }
    static D w_div(D const& a, D const& b) { D r; D s; D t; for(SizeType i=0; i!=a.size(); ++i) { s.append(a[i]); t.append(b[i]); r=s/t; } return r; }
    static D w_pow(D const& a, Int n) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=pow(t,n); } return r; }
    static D w_cadd(D const& a, X const& c) { return a+c; }
    static D w_cmul(D const& a, X const& c) { return a*c; }
    static D w_constant(DegreeType n, X const& c) { return D::constant(c,n); }
    static D w_variable(DegreeType n, X const& c) { return D::variable(c,n); }
    static D w_constant2(DegreeType n, X const& c) { return make_graded_constant(c,n); }
    static D w_antidiff(D const& a, X const& c) { D r(c); D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=antidifferential(t); } return r; }
    static D w_zero(D const& a) { return a.create_zero(); }
    static D w_variable2(DegreeType n, X const& c) { return make_graded_variable(c,n); }
};
template struct WGA<FloatDPApproximation>;
template<class X> struct WGB { typedef Graded<X> D;
    static D w_nul(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=nul(t); } return r; }
    static D w_pos(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=pos(t); } return r; }
    static D w_neg(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=neg(t); } return r; }
    static D w_hlf(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=hlf(t); } return r; }
    static D w_sqr(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=sqr(t); } return r; }
    static D w_rec(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=rec(t); } return r; }
    static D w_sqrt(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=sqrt(t); } return r; }
    static D w_exp(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=exp(t); } return r; }
    static D w_log(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=log(t); } return r; }
    static D w_sin(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=sin(t); } return r; }
    static D w_cos(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=cos(t); } return r; }
    static D w_add(D const& a, D const& b) { D r; D s; D t; for(SizeType i=0; i!=a.size(); ++i) { s.append(a[i]); t.append(b[i]); r=s+t; } return r; }
    static D w_sub(D const& a, D const& b) { D r; D s; D t; for(SizeType i=0; i!=a.size(); ++i) { s.append(a[i]); t.append(b[i]); r=s-t; } return r; }
    static D w_mul(D const& a, D const& b) { D r; D s; D t; for(SizeType i=0; i!=a.size(); ++i) { s.append(a[i]); t.append(b[i]); r=s*t; } return r; }
    static D w_div(D const& a, D const& b) { D r; D s; D t; for(SizeType i=0; i!=a.size(); ++i) { s.append(a[i]); t.append(b[i]); r=s/t; } return r; }
    static D w_pow(D const& a, Int n) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=pow(t,n); } return r; }
    static D w_cadd(D const& a, X const& c) { return a+c; }
    static D w_cmul(D const& a, X const& c) { return a*c; }
    static D w_constant(DegreeType n, X const& c) { return D::constant(c,n); }
    static D w_variable(DegreeType n, X const& c) { return D::variable(c,n); }
    static D w_constant2(DegreeType n, X const& c) { return make_graded_constant(c,n); }
    static D w_antidiff(D const& a, X const& c) { D r(c); D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=antidifferential(t); } return r; }
    static D w_zero(D const& a) { return a.create_zero(); }
    static D w_variable2(DegreeType n, X const& c) { return make_graded_variable(c,n); }
};
template struct WGB<FloatDPBounds>;
template<class X> struct WGR { typedef Graded<X> D;
    static D w_nul(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=nul(t); } return r; }
    static D w_pos(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=pos(t); } return r; }
    static D w_neg(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=neg(t); } return r; }
    static D w_hlf(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=hlf(t); } return r; }
    static D w_sqr(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=sqr(t); } return r; }
    static D w_rec(D const& a) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=rec(t); } return r; }
    static D w_add(D const& a, D const& b) { D r; D s; D t; for(SizeType i=0; i!=a.size(); ++i) { s.append(a[i]); t.append(b[i]); r=s+t; } return r; }
    static D w_sub(D const& a, D const& b) { D r; D s; D t; for(SizeType i=0; i!=a.size(); ++i) { s.append(a[i]); t.append(b[i]); r=s-t; } return r; }
    static D w_mul(D const& a, D const& b) { D r; D s; D t; for(SizeType i=0; i!=a.size(); ++i) { s.append(a[i]); t.append(b[i]); r=s*t; } return r; }
    static D w_div(D const& a, D const& b) { D r; D s; D t; for(SizeType i=0; i!=a.size(); ++i) { s.append(a[i]); t.append(b[i]); r=s/t; } return r; }
    static D w_pow(D const& a, Int n) { D r; D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=pow(t,n); } return r; }
    static D w_cadd(D const& a, X const& c) { return a+c; }
    static D w_cmul(D const& a, X const& c) { return a*c; }
    static D w_constant(DegreeType n, X const& c) { return D::constant(c,n); }
    static D w_variable(DegreeType n, X const& c) { return D::variable(c,n); }
    static D w_constant2(DegreeType n, X const& c) { return make_graded_constant(c,n); }
    static D w_antidiff(D const& a, X const& c) { D r(c); D t; for(SizeType i=0; i!=a.size(); ++i) { t.append(a[i]); r=antidifferential(t); } return r; }
    static D w_zero(D const& a) { return a.create_zero(); }
    static D w_variable2(DegreeType n, X const& c) { return make_graded_variable(c,n); }
};
template struct WGR<Rational>;
template<class X> struct WDA { typedef Differential<X> D; typedef UnivariateDifferential<X> UD;
    static D w_pos(D const& a) { return pos(a); }
    static D w_neg(D const& a) { return neg(a); }
    static D w_sqr(D const& a) { return sqr(a); }
    static D w_rec(D const& a) { return rec(a); }
    static D w_sqrt(D const& a) { return sqrt(a); }
    static D w_exp(D const& a) { return exp(a); }
    static D w_log(D const& a) { return log(a); }
    static D w_sin(D const& a) { return sin(a); }
    static D w_cos(D const& a) { return cos(a); }
    static D w_tan(D const& a) { return tan(a); }
    static D w_asin(D const& a) { return asin(a); }
    static D w_acos(D const& a) { return acos(a); }
    static D w_atan(D const& a) { return atan(a); }
    static D w_abs(D const& a) { return abs(a); }
    static D w_hlf(D const& a) { return hlf(a); }
    static D w_add(D const& a, D const& b) { return a+b; }
    static D w_sub(D const& a, D const& b) { return a-b; }
    static D w_mul(D const& a, D const& b) { return a*b; }
    static D w_div(D const& a, D const& b) { return a/b; }
    static D w_iadd(D a, D const& b) { return (a+=b,a); }
    static D w_isub(D a, D const& b) { return (a-=b,a); }
    static D w_imul(D a, D const& b) { return (a*=b,a); }
    static D w_idiv(D a, D const& b) { return (a/=b,a); }
    static D w_cadd(D const& a, X const& c) { return a+c; }
    static D w_csub(D const& a, X const& c) { return a-c; }
    static D w_cmul(D const& a, X const& c) { return a*c; }
    static D w_cdiv(D const& a, X const& c) { return a/c; }
    static D w_addc(X const& c, D const& a) { return c+a; }
    static D w_subc(X const& c, D const& a) { return c-a; }
    static D w_mulc(X const& c, D const& a) { return c*a; }
    static D w_divc(X const& c, D const& a) { return c/a; }
    static D w_ciadd(D a, X const& c) { return (a+=c,a); }
    static D w_cisub(D a, X const& c) { return (a-=c,a); }
    static D w_cimul(D a, X const& c) { return (a*=c,a); }
    static D w_cidiv(D a, X const& c) { return (a/=c,a); }
    static D w_self(D a) { return (a*=a,a); }
    static D w_selfdiv(D a) { return (a/=a,a); }
    static D w_selfadd(D a) { return (a+=a,a); }
    static D w_selfsub(D a) { return (a-=a,a); }
    static D w_min(D const& a, D const& b) { return min(a,b); }
    static D w_max(D const& a, D const& b) { return max(a,b); }
    static D w_pow(D const& a, Int n) { return pow(a,n); }
    static decltype(auto) w_eq(D const& a, D const& b) { return a==b; }
    static decltype(auto) w_ne(D const& a, D const& b) { return a!=b; }
    static D w_compose(UD const& a, D const& b) { return compose(a,b); }
    static D w_composev(D const& a, Vector<D> const& b) { return compose(a,b); }
    static D w_derivative(D const& a, SizeType k) { return derivative(a,k); }
    static D w_antiderivative(D const& a, SizeType k) { return antiderivative(a,k); }
    static D w_constant(SizeType n, DegreeType d, X const& c) { return D::constant(n,d,c); }
    static D w_variable(SizeType n, DegreeType d, X const& c, SizeType j) { return D::variable(n,d,c,j); }
    static Vector<D> w_variables(DegreeType d, Vector<X> const& c) { return D::variables(d,c); }
    static Vector<D> w_constants(SizeType n, DegreeType d, Vector<X> const& c) { return D::constants(n,d,c); }
    static D w_affine(DegreeType d, X const& c, Covector<X> const& g) { return D::affine(d,c,g); }
    static Vector<D> w_affinev(DegreeType d, Vector<X> const& c, Matrix<X> const& g) { return D::affine(d,c,g); }
    static X w_value(D const& a) { return a.value(); }
    static Covector<X> w_gradient(D const& a) { return a.gradient(); }
    static Matrix<X> w_halfhessian(D const& a) { return a.half_hessian(); }
    static Matrix<X> w_hessian(D const& a) { return a.hessian(); }
    static D w_assign(D a, X const& c) { return (a=c,a); }
    static D w_clear(D a) { return (a.clear(),a); }
    static D w_zero(D const& a) { return a.create_zero(); }
    static D w_setvalue(D a, X const& c) { return (a.set_value(c),a); }
    static D w_setgradient(D a, X const& c, SizeType j) { return (a.set_gradient(j,c),a); }
    static D w_setdegree(D a, DegreeType d) { return (a.set_degree(d),a); }
    static Vector<D> w_vcompose(Vector<D> const& a, Vector<D> const& b) { return compose(a,b); }
    static Vector<D> w_vcomposeself(Vector<D> const& a) { return compose(a,a); }
    static Matrix<X> w_jacobian(Vector<D> const& a) { return a.jacobian(); }
    static Vector<X> w_vvalue(Vector<D> const& a) { return a.value(); }
    static Vector<D> w_vderivative(Vector<D> const& a, SizeType k) { return derivative(a,k); }
    static Vector<D> w_vantiderivative(Vector<D> const& a, SizeType k) { return antiderivative(a,k); }
};
template struct WDA<FloatDPApproximation>;
template<class X> struct WDB { typedef Differential<X> D; typedef UnivariateDifferential<X> UD;
    static D w_pos(D const& a) { return pos(a); }
    static D w_neg(D const& a) { return neg(a); }
    static D w_sqr(D const& a) { return sqr(a); }
    static D w_rec(D const& a) { return rec(a); }
    static D w_sqrt(D const& a) { return sqrt(a); }
    static D w_exp(D const& a) { return exp(a); }
    static D w_log(D const& a) { return log(a); }
    static D w_sin(D const& a) { return sin(a); }
    static D w_cos(D const& a) { return cos(a); }
    static D w_tan(D const& a) { return tan(a); }
    static D w_asin(D const& a) { return asin(a); }
    static D w_acos(D const& a) { return acos(a); }
    static D w_atan(D const& a) { return atan(a); }
    static D w_abs(D const& a) { return abs(a); }
    static D w_hlf(D const& a) { return hlf(a); }
    static D w_add(D const& a, D const& b) { return a+b; }
    static D w_sub(D const& a, D const& b) { return a-b; }
    static D w_mul(D const& a, D const& b) { return a*b; }
    static D w_div(D const& a, D const& b) { return a/b; }
    static D w_iadd(D a, D const& b) { return (a+=b,a); }
    static D w_isub(D a, D const& b) { return (a-=b,a); }
    static D w_imul(D a, D const& b) { return (a*=b,a); }
    static D w_idiv(D a, D const& b) { return (a/=b,a); }
    static D w_cadd(D const& a, X const& c) { return a+c; }
    static D w_csub(D const& a, X const& c) { return a-c; }
    static D w_cmul(D const& a, X const& c) { return a*c; }
    static D w_cdiv(D const& a, X const& c) { return a/c; }
    static D w_addc(X const& c, D const& a) { return c+a; }
    static D w_subc(X const& c, D const& a) { return c-a; }
    static D w_mulc(X const& c, D const& a) { return c*a; }
    static D w_divc(X const& c, D const& a) { return c/a; }
    static D w_ciadd(D a, X const& c) { return (a+=c,a); }
    static D w_cisub(D a, X const& c) { return (a-=c,a); }
    static D w_cimul(D a, X const& c) { return (a*=c,a); }
    static D w_cidiv(D a, X const& c) { return (a/=c,a); }
    static D w_self(D a) { return (a*=a,a); }
    static D w_selfdiv(D a) { return (a/=a,a); }
    static D w_selfadd(D a) { return (a+=a,a); }
    static D w_selfsub(D a) { return (a-=a,a); }
    static D w_min(D const& a, D const& b) { return min(a,b); }
    static D w_max(D const& a, D const& b) { return max(a,b); }
    static D w_pow(D const& a, Int n) { return pow(a,n); }
    static decltype(auto) w_eq(D const& a, D const& b) { return a==b; }
    static decltype(auto) w_ne(D const& a, D const& b) { return a!=b; }
    static D w_compose(UD const& a, D const& b) { return compose(a,b); }
    static D w_composev(D const& a, Vector<D> const& b) { return compose(a,b); }
    static D w_derivative(D const& a, SizeType k) { return derivative(a,k); }
    static D w_antiderivative(D const& a, SizeType k) { return antiderivative(a,k); }
    static D w_constant(SizeType n, DegreeType d, X const& c) { return D::constant(n,d,c); }
    static D w_variable(SizeType n, DegreeType d, X const& c, SizeType j) { return D::variable(n,d,c,j); }
    static Vector<D> w_variables(DegreeType d, Vector<X> const& c) { return D::variables(d,c); }
    static Vector<D> w_constants(SizeType n, DegreeType d, Vector<X> const& c) { return D::constants(n,d,c); }
    static D w_affine(DegreeType d, X const& c, Covector<X> const& g) { return D::affine(d,c,g); }
    static Vector<D> w_affinev(DegreeType d, Vector<X> const& c, Matrix<X> const& g) { return D::affine(d,c,g); }
    static X w_value(D const& a) { return a.value(); }
    static Covector<X> w_gradient(D const& a) { return a.gradient(); }
    static Matrix<X> w_halfhessian(D const& a) { return a.half_hessian(); }
    static Matrix<X> w_hessian(D const& a) { return a.hessian(); }
    static D w_assign(D a, X const& c) { return (a=c,a); }
    static D w_clear(D a) { return (a.clear(),a); }
    static D w_zero(D const& a) { return a.create_zero(); }
    static D w_setvalue(D a, X const& c) { return (a.set_value(c),a); }
    static D w_setgradient(D a, X const& c, SizeType j) { return (a.set_gradient(j,c),a); }
    static D w_setdegree(D a, DegreeType d) { return (a.set_degree(d),a); }
    static Vector<D> w_vcompose(Vector<D> const& a, Vector<D> const& b) { return compose(a,b); }
    static Vector<D> w_vcomposeself(Vector<D> const& a) { return compose(a,a); }
    static Matrix<X> w_jacobian(Vector<D> const& a) { return a.jacobian(); }
    static Vector<X> w_vvalue(Vector<D> const& a) { return a.value(); }
    static Vector<D> w_vderivative(Vector<D> const& a, SizeType k) { return derivative(a,k); }
    static Vector<D> w_vantiderivative(Vector<D> const& a, SizeType k) { return antiderivative(a,k); }
};
template struct WDB<FloatDPBounds>;
template<class X> struct WDR { typedef Differential<X> D; typedef UnivariateDifferential<X> UD;
    static D w_pos(D const& a) { return pos(a); }
    static D w_neg(D const& a) { return neg(a); }
    static D w_sqr(D const& a) { return sqr(a); }
    static D w_rec(D const& a) { return rec(a); }
    static D w_asin(D const& a) { return asin(a); }
    static D w_acos(D const& a) { return acos(a); }
    static D w_abs(D const& a) { return abs(a); }
    static D w_hlf(D const& a) { return hlf(a); }
    static D w_add(D const& a, D const& b) { return a+b; }
    static D w_sub(D const& a, D const& b) { return a-b; }
    static D w_mul(D const& a, D const& b) { return a*b; }
    static D w_div(D const& a, D const& b) { return a/b; }
    static D w_iadd(D a, D const& b) { return (a+=b,a); }
    static D w_isub(D a, D const& b) { return (a-=b,a); }
    static D w_imul(D a, D const& b) { return (a*=b,a); }
    static D w_idiv(D a, D const& b) { return (a/=b,a); }
    static D w_cadd(D const& a, X const& c) { return a+c; }
    static D w_csub(D const& a, X const& c) { return a-c; }
    static D w_cmul(D const& a, X const& c) { return a*c; }
    static D w_cdiv(D const& a, X const& c) { return a/c; }
    static D w_addc(X const& c, D const& a) { return c+a; }
    static D w_subc(X const& c, D const& a) { return c-a; }
    static D w_mulc(X const& c, D const& a) { return c*a; }
    static D w_divc(X const& c, D const& a) { return c/a; }
    static D w_ciadd(D a, X const& c) { return (a+=c,a); }
    static D w_cisub(D a, X const& c) { return (a-=c,a); }
    static D w_cimul(D a, X const& c) { return (a*=c,a); }
    static D w_cidiv(D a, X const& c) { return (a/=c,a); }
    static D w_self(D a) { return (a*=a,a); }
    static D w_selfdiv(D a) { return (a/=a,a); }
    static D w_selfadd(D a) { return (a+=a,a); }
    static D w_selfsub(D a) { return (a-=a,a); }
    static D w_min(D const& a, D const& b) { return min(a,b); }
    static D w_max(D const& a, D const& b) { return max(a,b); }
    static decltype(auto) w_eq(D const& a, D const& b) { return a==b; }
    static decltype(auto) w_ne(D const& a, D const& b) { return a!=b; }
    static D w_compose(UD const& a, D const& b) { return compose(a,b); }
    static D w_composev(D const& a, Vector<D> const& b) { return compose(a,b); }
    static D w_derivative(D const& a, SizeType k) { return derivative(a,k); }
    static D w_antiderivative(D const& a, SizeType k) { return antiderivative(a,k); }
    static D w_constant(SizeType n, DegreeType d, X const& c) { return D::constant(n,d,c); }
    static D w_variable(SizeType n, DegreeType d, X const& c, SizeType j) { return D::variable(n,d,c,j); }
    static Vector<D> w_variables(DegreeType d, Vector<X> const& c) { return D::variables(d,c); }
    static Vector<D> w_constants(SizeType n, DegreeType d, Vector<X> const& c) { return D::constants(n,d,c); }
    static D w_affine(DegreeType d, X const& c, Covector<X> const& g) { return D::affine(d,c,g); }
    static Vector<D> w_affinev(DegreeType d, Vector<X> const& c, Matrix<X> const& g) { return D::affine(d,c,g); }
    static X w_value(D const& a) { return a.value(); }
    static Covector<X> w_gradient(D const& a) { return a.gradient(); }
    static Matrix<X> w_halfhessian(D const& a) { return a.half_hessian(); }
    static Matrix<X> w_hessian(D const& a) { return a.hessian(); }
    static D w_assign(D a, X const& c) { return (a=c,a); }
    static D w_clear(D a) { return (a.clear(),a); }
    static D w_zero(D const& a) { return a.create_zero(); }
    static D w_setvalue(D a, X const& c) { return (a.set_value(c),a); }
    static D w_setgradient(D a, X const& c, SizeType j) { return (a.set_gradient(j,c),a); }
    static D w_setdegree(D a, DegreeType d) { return (a.set_degree(d),a); }
    static Vector<D> w_vcompose(Vector<D> const& a, Vector<D> const& b) { return compose(a,b); }
    static Vector<D> w_vcomposeself(Vector<D> const& a) { return compose(a,a); }
    static Matrix<X> w_jacobian(Vector<D> const& a) { return a.jacobian(); }
    static Vector<X> w_vvalue(Vector<D> const& a) { return a.value(); }
    static Vector<D> w_vderivative(Vector<D> const& a, SizeType k) { return derivative(a,k); }
    static Vector<D> w_vantiderivative(Vector<D> const& a, SizeType k) { return antiderivative(a,k); }
};
template struct WDR<Rational>;
} // namespace Ariadne
