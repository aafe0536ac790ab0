// Uses every connective of every logical class so that its definition is instantiated for analysis (never compiled to run).
#include "numeric/logical.hpp"
#include "numeric/sequence.hpp"
#include "numeric/sign.hpp"
using namespace Ariadne;
template<class L> void finite(L const& a, L const& b) {
    (void)(!a); (void)(a&&b); (void)(a||b); (void)(a^b); (void)(a==b); (void)(a!=b);
    (void)definitely(a); (void)possibly(a); (void)probably(a); (void)decide(a); (void)is_determinate(a); (void)is_indeterminate(a);
}
template<class L> void effective(L const& a, L const& b, Effort e) {
    (void)(!a); (void)(a&&b); (void)(a||b); (void)(a^b); (void)(a==b); (void)(a!=b); (void)a.check(e); (void)check(a,e);
    (void)definitely(a,e); (void)possibly(a,e); (void)probably(a,e); (void)decide(a,e);
    (void)definitely(a); (void)possibly(a); (void)probably(a); (void)decide(a);
}
void use(Boolean b, Bool bb, ValidatedKleenean vk, ValidatedSierpinskian vs, ValidatedNegatedSierpinskian vns, ValidatedLowerKleenean vlk, ValidatedUpperKleenean vuk, ApproximateKleenean ak,
         Kleenean k, Sierpinskian s, NegatedSierpinskian ns, LowerKleenean lk, UpperKleenean uk, NaiveKleenean nk, Effort e, Indeterminate i) {
    finite(b,b); finite(vk,vk); finite(vs,vs); finite(vns,vns); finite(vlk,vlk); finite(vuk,vuk); finite(ak,ak);
    effective(k,k,e); effective(s,s,e); effective(ns,ns,e); effective(lk,lk,e); effective(uk,uk,e); effective(nk,nk,e);
    (void)(b&&bb); (void)(bb&&b); (void)(b||bb); (void)(bb||b);
    (void)(s||b); (void)(b||s); (void)(ns&&b); (void)(b&&ns);
    { ValidatedKleenean r1(b), r2(bb), r3(vs), r4(vns), r5(k,e); ValidatedSierpinskian r6(bb), r7(s,e); ValidatedNegatedSierpinskian r8(bb), r9(ns,e); }
    { ValidatedLowerKleenean r1(b), r2(bb), r3(vs), r4(vk), r5(lk,e); ValidatedUpperKleenean r6(b), r7(bb), r8(vk), r9(vns), r10(uk,e); }
    { ApproximateKleenean r1(b), r2(bb), r3(vk), r4(vlk), r5(vuk), r6(k,e); Boolean r7(bb); bool r8=b; }
    { Kleenean r1(b), r2(bb), r3(s), r4(ns), r5(i); LowerKleenean r6(b), r7(bb), r8(s), r9(k), r10(i); UpperKleenean r11(b), r12(bb), r13(ns), r14(k), r15(i); NaiveKleenean r16(k), r17(lk), r18(uk), r19(b), r20(s), r21(ns), r22(i); Sierpinskian r23(bb), r24(i); NegatedSierpinskian r25(bb), r26(i); ValidatedSierpinskian r27=i; ValidatedKleenean r28=i; }
    (void)choose(lk,lk); (void)decide(i); (void)decide(i,e);
    (void)definitely(bb); (void)possibly(bb); (void)probably(bb); (void)decide(bb);
}
