// Instantiates the templates of the library on effective reals which the library itself does not instantiate.
#include "numeric/numeric.hpp"
#include "numeric/real.hpp"
#include "numeric/lower_real.hpp"
#include "numeric/upper_real.hpp"
namespace Ariadne {
void use_real(Real& x, Real const& y, PositiveReal const& p, int n, Nat m, Integer const& z, Dyadic const& w, Rational const& q) {
    x+y; x-y; x*y; x/y; +x; -x; x+=y; x-=y; x*=y; x/=y;
    x+n; x-n; x*n; x/n; n+x; n-x; n*x; n/x;
    x+z; x-w; x*q; x/q; q+x; q-x; w*x; z/x;
    x<y; x<=y; x>y; x>=y; x==y; x!=y;
    p+p; p*p;
    Bounds<FloatMP>(x,MultiplePrecision(64)); Ball<FloatMP>(x,MultiplePrecision(64)); UpperBound<FloatMP>(x,MultiplePrecision(64)); LowerBound<FloatMP>(x,MultiplePrecision(64));
    Ball<FloatDP>(x,DoublePrecision()); 
}
}
