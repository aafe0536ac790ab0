// Expressions of linear algebra, each of them one obligation: the value of the wrapper named w_<operation> is compared with the operation.
#include "numeric/numeric.hpp"
#include "numeric/floats.hpp"
#include "numeric/rational.hpp"
#include "algebra/vector.hpp"
#include "algebra/covector.hpp"
#include "algebra/matrix.hpp"
#include "algebra/symmetric_matrix.hpp"
#include "algebra/diagonal_matrix.hpp"
#include "algebra/matrix.tpl.hpp"
namespace Ariadne {
template<class X> struct W {
    typedef Vector<X> V; typedef Covector<X> U; typedef Matrix<X> M; typedef SizeType Z;
    static V w_vpos(V const& v) { return +v; }
    static V w_vneg(V const& v) { return -v; }
    static V w_vadd(V const& v, V const& w) { return v+w; }
    static V w_vsub(V const& v, V const& w) { return v-w; }
    static V w_vsmul(X const& x, V const& v) { return x*v; }
    static V w_vmuls(V const& v, X const& x) { return v*x; }
    static V w_vdivs(V const& v, X const& x) { return v/x; }
    static V w_viadd(V v, V const& w) { v+=w; return v; }
    static V w_visub(V v, V const& w) { v-=w; return v; }
    static V w_vimuls(V v, X const& x) { v*=x; return v; }
    static V w_vidivs(V v, X const& x) { v/=x; return v; }
    static V w_vpos2(V const& v) { return pos(v); }
    static V w_vneg2(V const& v) { return neg(v); }
    static V w_vadd2(V const& v, V const& w) { return add(v,w); }
    static V w_vsub2(V const& v, V const& w) { return sub(v,w); }
    static V w_vsmul2(X const& x, V const& v) { return mul(x,v); }
    static V w_vmuls2(V const& v, X const& x) { return mul(v,x); }
    static V w_vdivs2(V const& v, X const& x) { return div(v,x); }
    static X w_dot(V const& v, V const& w) { return dot(v,w); }
    static decltype(auto) w_vnorm(V const& v) { return norm(v); }
    static decltype(auto) w_veq(V const& v, V const& w) { return v==w; }
    static decltype(auto) w_vne(V const& v, V const& w) { return v!=w; }
    static V w_join2(V const& v, V const& w) { return join(v,w); }
    static V w_join3(V const& v, V const& w, V const& u) { return join(v,w,u); }
    static V w_join4(V const& v, X const& x, V const& w) { return join(v,x,w); }
    static V w_join5(X const& x, V const& w) { return join(x,w); }
    static V w_join6(V const& v, X const& x) { return join(v,x); }
    static V w_join7(V const& v, V const& w, X const& x) { return join(v,w,x); }
    static V w_vrange(V const& v, Z i, Z j) { return project(v,Range(i,j)); }
    static V w_vrange2(V const& v, Z i, Z j) { return v[Range(i,j)]; }
    static V w_vcopy(V const& v) { return V(v); }
    static V w_elementwise(V const& v, X const& x) { return elementwise([&x](X const& y){return y+x;},v); }
    static U w_uneg(U const& v) { return -v; }
    static U w_uadd(U const& v, U const& w) { return v+w; }
    static U w_usub(U const& v, U const& w) { return v-w; }
    static U w_usmul(X const& x, U const& v) { return x*v; }
    static U w_umuls(U const& v, X const& x) { return v*x; }
    static U w_udivs(U const& v, X const& x) { return v/x; }
    static U w_uiadd(U v, U const& w) { v+=w; return v; }
    static U w_uisub(U v, U const& w) { v-=w; return v; }
    static U w_uimuls(U v, X const& x) { v*=x; return v; }
    static U w_uidivs(U v, X const& x) { v/=x; return v; }
    static X w_umulv(U const& u, V const& v) { return u*v; }
    static U w_cojoin2(U const& v, U const& w) { return cojoin(v,w); }
    static U w_cojoin5(X const& x, U const& w) { return cojoin(x,w); }
    static U w_cojoin6(U const& v, X const& x) { return cojoin(v,x); }
    static U w_urange(U const& v, Z i, Z j) { return project(v,Range(i,j)); }
    static U w_transpose_v(V const& v) { return transpose(v); }
    static V w_transpose_u(U const& u) { return transpose(u); }
    static M w_mneg(M const& A) { return -A; }
    static M w_mpos(M const& A) { return +A; }
    static M w_madd(M const& A, M const& B) { return A+B; }
    static M w_msub(M const& A, M const& B) { return A-B; }
    static M w_msmul(X const& x, M const& A) { return x*A; }
    static M w_mmuls(M const& A, X const& x) { return A*x; }
    static M w_mdivs(M const& A, X const& x) { return A/x; }
    static M w_miadd(M A, M const& B) { A+=B; return A; }
    static M w_misub(M A, M const& B) { A-=B; return A; }
    static M w_mimuls(M A, X const& x) { A*=x; return A; }
    static M w_midivs(M A, X const& x) { A/=x; return A; }
    static M w_mmul(M const& A, M const& B) { return A*B; }
    static V w_mmulv(M const& A, V const& v) { return A*v; }
    static U w_umulm(U const& u, M const& A) { return u*A; }
    static M w_mtr(M const& A) { return transpose(A); }
    static M w_mmultr(M const& A, M const& B) { return A*transpose(B); }
    static M w_mtrmul(M const& A, M const& B) { return transpose(A)*B; }
    static V w_mtrmulv(M const& A, V const& v) { return transpose(A)*v; }
    static V w_mcolumn(M const& A, Z j) { return column(A,j); }
    static U w_mrow(M const& A, Z i) { return row(A,i); }
    static U w_mrow2(M const& A, Z i) { return A[i]; }
    static M w_mrange(M const& A, Z i, Z j, Z k, Z l) { return project(A,Range(i,j),Range(k,l)); }
    static M w_mrange2(M const& A, Z i, Z j, Z k, Z l) { return A[Range(i,j)][Range(k,l)]; }
    static V w_mrangecolumn(M const& A, Z i, Z j, Z k) { return A[Range(i,j)][k]; }
    static U w_mrowrange(M const& A, Z i, Z k, Z l) { return A[i][Range(k,l)]; }
    static M w_msetrange(M A, Z i, Z j, Z k, Z l, M const& B) { A[Range(i,j)][Range(k,l)]=B; return A; }
    static M w_msetrow(M A, Z i, U const& u) { A[i]=u; return A; }
    static M w_mset(M A, Z i, Z j, X const& x) { A.set(i,j,x); return A; }
    static M w_msetat(M A, Z i, Z j, X const& x) { A[i][j]=x; return A; }
    static X w_mget(M const& A, Z i, Z j) { return A.get(i,j); }
    static X w_mgetat(M const& A, Z i, Z j) { return A[i][j]; }
    static M w_mzero(Z m, Z n, X const& x) { return M::zero(m,n,x); }
    static M w_midentity(Z n, X const& x) { return M::identity(n,x); }
    static decltype(auto) w_meq(M const& A, M const& B) { return A==B; }
    static M w_mjoin(M const& A, M const& B) { return join(A,B); }
    static M w_mjoinu(M const& A, U const& u) { return join(A,u); }
    static M w_ujoinm(U const& u, M const& A) { return join(u,A); }
    static M w_mcojoin(M const& A, M const& B) { return cojoin(A,B); }
    static M w_mcojoinv(M const& A, V const& v) { return cojoin(A,v); }
    static M w_vcojoinm(V const& v, M const& A) { return cojoin(v,A); }
    static decltype(auto) w_mnorm(M const& A) { return norm(A); }
    static M w_inverse(M const& A) { return inverse(A); }
    static M w_solve(M const& A, M const& B) { return solve(A,B); }
    static V w_solvev(M const& A, V const& b) { return solve(A,b); }
    static M w_lu_inverse(M const& A) { return lu_inverse(A); }
    static M w_lu_solve(M const& A, M const& B) { return lu_solve(A,B); }
    static V w_lu_solvev(M const& A, V const& b) { return lu_solve(A,b); }
    static M w_pivot(PivotMatrix const& P, M const& A) { return P*A; }
};
template<class X> struct WB {
    typedef Vector<X> V; typedef Covector<X> U; typedef Matrix<X> M; typedef SizeType Z;
    static M w_gs_solve(M const& A, M const& B) { return gs_solve(A,B); }
    static V w_gs_solvev(M const& A, V const& b) { return gs_solve(A,b); }
    static M w_gs_inverse(M const& A) { return gs_inverse(A); }
    static decltype(auto) w_sup_norm(M const& A) { return sup_norm(A); }
    static decltype(auto) w_log_norm(M const& A) { return log_norm(A); }
    static decltype(auto) w_vsup_norm(V const& v) { return sup_norm(v); }
    static decltype(auto) w_vtwo_norm(V const& v) { return two_norm(v); }
    static V w_gs_step(M const& A, V const& b, V x) { gs_step(A,b,x); return x; }
    static Tuple<PivotMatrix,M,M> w_plu(M const& A) { return triangular_decomposition(A); }
    static Tuple<M,M> w_orth(M const& A) { return orthogonal_decomposition(A); }
    static Tuple<M,M> w_gram(M const& A) { return gram_schmidt_orthogonalisation(A); }
};
template<class X> struct WR {
    static Matrix<X> w_pivotm(PivotMatrix const& P) { return P; }
};
template<class X> struct WA {
    typedef Matrix<X> M;
    static Tuple<M,M,PivotMatrix> w_qr(M const& A, Bool p) { return orthogonal_decomposition(A,p); }
    static decltype(auto) w_row_norms(M const& A) { return row_norms(A); }
};
template<class X> struct WS {
    typedef SymmetricMatrix<X> S; typedef Matrix<X> M;
    static M w_sadd(M const& A, M const& B) { return S(A)+S(B); }
    static M w_ssub(M const& A, M const& B) { return S(A)-S(B); }
    static M w_ssmul(X const& x, M const& A) { return x*S(A); }
    static M w_smuls(M const& A, X const& x) { return S(A)*x; }
    static M w_sdivs(M const& A, X const& x) { return S(A)/x; }
    static M w_sm(M const& A) { return S(A); }
    static M w_outer(M const& A) { return outer(A); }
    static M w_symmetrize(M const& A) { return symmetrize(A); }
};
template<class X> struct WD {
    typedef DiagonalMatrix<X> D; typedef Matrix<X> M; typedef Vector<X> V;
    static M w_dm(V const& d) { return D(d); }
    static M w_dneg(V const& d) { return -D(d); }
    static M w_dadd(V const& d, V const& e) { return D(d)+D(e); }
    static M w_dsub(V const& d, V const& e) { return D(d)-D(e); }
    static M w_dmul(V const& d, V const& e) { return D(d)*D(e); }
    static M w_ddiv(V const& d, V const& e) { return D(d)/D(e); }
    static M w_dsmul(X const& x, V const& e) { return x*D(e); }
    static M w_dmuls(V const& d, X const& x) { return D(d)*x; }
    static M w_ddivs(V const& d, X const& x) { return D(d)/x; }
    static M w_dinv(V const& d) { return inverse(D(d)); }
    static M w_madddiag(M const& A, V const& d) { return A+D(d); }
    static M w_daddm(V const& d, M const& A) { return D(d)+A; }
    static M w_msubd(M const& A, V const& d) { return A-D(d); }
    static M w_dsubm(V const& d, M const& A) { return D(d)-A; }
    static M w_mmuld(M const& A, V const& d) { return A*D(d); }
    static M w_dmulm(V const& d, M const& A) { return D(d)*A; }
    static M w_dmultr(V const& d, M const& A) { return D(d)*transpose(A); }
    static V w_dmulv(V const& d, V const& v) { return D(d)*v; }
    static V w_vmuld(V const& v, V const& d) { return v*D(d); }
    static V w_vdivd(V const& v, V const& d) { return v/D(d); }
};
template<class X> struct WC {
    typedef Vector<X> V; typedef Covector<X> U; typedef Matrix<X> M; typedef SizeType Z;
    static decltype(auto) w_ueq(U const& u, U const& v) { return u==v; }
    static V w_vgen(V const& v, Z n) { return V(n,[&v](SizeType i){return v[v.size()-1u-i];}); }
    static M w_mgen(M const& A, Z m, Z n) { return M(m,n,[&A](SizeType i, SizeType j){return A[j][i];}); }
    static V w_vfill(Z n, X const& x) { return V(n,x); }
    static M w_mfill(Z m, Z n, X const& x) { return M(m,n,x); }
    static M w_mptr(M const& A) { return M(A.row_size(),A.column_size(),A.begin()); }
    static M w_mexpr(M const& A, M const& B, X const& x) { return A+x*B; }
    static M w_mchain(M const& A, M const& B, M const& C) { return A*B*C; }
    static V w_mchainv(M const& A, M const& B, V const& v) { return A*B*v; }
    static V w_vexpr(V const& v, V const& w, X const& x) { return v+x*w; }
    static V w_vexpr2(V const& v, V const& w, X const& x) { return v-w/x; }
    static U w_uexpr(U const& v, U const& w, X const& x) { return v-w/x; }
    static M w_mresize(M A, Z m, Z n) { A.resize(m,n); return A; }
    static V w_vresize(V v, Z n) { v.resize(n); return v; }
    static V w_vset(V v, Z i, X const& x) { v.set(i,x); return v; }
    static V w_vsetat(V v, Z i, X const& x) { v[i]=x; return v; }
    static V w_vaddtr(V const& v, U const& u) { return v+transpose(u); }
    static V w_vcomp(V const& v, V const& w) { return elementwise([](X const& x, X const& y){return x*y-y;},v,w); }
};
template struct W<Rational>; template struct WR<Rational>; template struct W<Bounds<FloatDP>>; template struct WB<Bounds<FloatDP>>; template struct WA<Approximation<FloatDP>>; template struct WD<Rational>; template struct WD<Bounds<FloatDP>>; template struct WC<Rational>; template struct WC<Bounds<FloatDP>>; template struct WS<Approximation<FloatDP>>;
}
