// Instances of the formula templates that the analysis reads; never compiled into anything.
#include "numeric/numeric.hpp"
#include "numeric/real.hpp"
#include "numeric/number.hpp"
#include "algebra/vector.hpp"
#include "function/formula.hpp"
#include "numeric/operators.hpp"
#include "symbolic/templates.tpl.hpp"
#include "function/formula.tpl.hpp"
#include "numeric/operators.tpl.hpp"
namespace Ariadne {
template Real evaluate(const Formula<Real>&, const Vector<Real>&);
template Vector<Real> evaluate(const Vector<Formula<Real>>&, const Vector<Real>&);
template Real direct_evaluate(const Formula<Real>&, const Vector<Real>&);
template Real evaluate(const Formula<EffectiveNumber>&, const Vector<Real>&);
template Real direct_evaluate(const Formula<EffectiveNumber>&, const Vector<Real>&);

template<class Y> void use_formula_operations(Formula<Y> f, Formula<Y> g, Y const& c, Int n) {
    +f; -f; f+g; f-g; f*g; f/g; f+c; f-c; f*c; f/c; c+f; c-f; c*f; c/f; f+n; f-n; f*n; f/n; n+f; n-f; n*f; n/f;
    f+=g; f-=g; f*=g; f/=g; f+=c; f-=c; f*=c; f/=c; f+=n; f-=n; f*=n; f/=n;
    add(f,g); sub(f,g); mul(f,g); div(f,g); add(f,c); sub(f,c); mul(f,c); div(f,c); add(c,f); sub(c,f); mul(c,f); div(c,f);
    nul(f); pos(f); neg(f); sqr(f); hlf(f); rec(f); pow(f,n); sqrt(f); exp(f); log(f); sin(f); cos(f); tan(f); asin(f); acos(f); atan(f); abs(f); max(f,g); min(f,g); max(f,c); min(f,c); max(c,f); min(c,f);
}
template void use_formula_operations(Formula<Real>, Formula<Real>, Real const&, Int);
template void use_formula_operations(Formula<EffectiveNumber>, Formula<EffectiveNumber>, EffectiveNumber const&, Int);
}
