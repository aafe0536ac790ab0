#include "numeric/numeric.hpp"
#include "numeric/integer.hpp"
#include "numeric/dyadic.hpp"
#include "numeric/rational.hpp"
#include "numeric/decimal.hpp"
#include "numeric/real.hpp"
using namespace Ariadne;
template<class X, class Y> void rel(X const& x, Y const& y) { x==y; x!=y; x<y; x>y; x<=y; x>=y; }
template<class X, class Y> void arith(X const& x, Y const& y) { x+y; x-y; x*y; x/y; max(x,y); min(x,y); rel(x,y); }
template<class X> void un(X const& x) { +x; -x; nul(x); pos(x); neg(x); sqr(x); hlf(x); abs(x); sgn(x); pow(x,3u); pow(x,-2); }
void use(Integer z, Dyadic w, Rational q, Decimal d, int n, unsigned m, double x, ExactDouble e) {
    un(z); un(w); un(q); un(d); rec(z); rec(w); rec(q);
    arith(z,z); arith(z,w); arith(z,q); arith(z,d); arith(w,z); arith(w,w); arith(w,q); arith(w,d); arith(q,z); arith(q,w); arith(q,q); arith(q,d); arith(d,z); arith(d,w); arith(d,q); arith(d,d);
    arith(z,n); arith(n,z); arith(w,n); arith(n,w); arith(q,n); arith(n,q); arith(d,n); arith(n,d); arith(z,m); arith(w,m); arith(q,m);
    z+=z; z-=z; z*=z; ++z; --z; w+=w; w-=w; w*=w; q+=q; q-=q; q*=q; q/=q; d+=d;
    Dyadic w1(z); Dyadic w2(n); Dyadic w3(m); Dyadic w4(e); Dyadic w5(x); Dyadic w6(z,m); Rational q1(z); Rational q2(w); Rational q3(z,z); Rational q4(n); Rational q5(e); Decimal d1(n); Decimal d2(w); Rational q6(d); Rational q7(n,n);
    Integer z1((unsigned long)m), z2((long)n), z3(Int32(n)), z4(Nat32(m)), z5((unsigned long long)m), z6(m), z7(n), z8((short)1);
    w*(two^n); w/(two^n); w/two; z/two; n/two;
}
