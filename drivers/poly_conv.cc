#include "poly_ops.hh"
using namespace vd;
template <class A, class B> static void two() { register_conv<A, B>(); register_conv<B, A>(); }
void init_conv() {
    using Oc = lex_<custom_var_order>; using Oh = grlex_<custom_var_order>; using Ou = univariate_priority_order;
    AllConv<ZZ, grlex, lex, Ou, Oc, Oh>::all();
    AllConv<QQ, grlex, lex, Ou, Oc, Oh>::all();
    register_conv<polynomial_<ZZ>, polynomial_<QQ>>(); register_conv<polynomial_<ZZ>, polynomial_<QQ, lex>>(); register_conv<polynomial_<ZZ, lex>, polynomial_<QQ>>();
    register_conv<polynomial_<ZZ, Oc>, polynomial_<QQ, Ou>>();
    register_conv<polynomial_<QQ>, polynomial_<ZZ>>(); register_conv<polynomial_<QQ>, polynomial_<ZZ, lex>>(); register_conv<polynomial_<QQ, lex>, polynomial_<ZZ>>();
    register_conv<polynomial_<QQ, Ou>, polynomial_<ZZ, Oc>>();
    register_conv<polynomial_<Zp>, polynomial_<ZZ>>(); register_conv<polynomial_<Zp>, polynomial_<ZZ, lex>>(); register_conv<polynomial_<Zp, lex>, polynomial_<ZZ>>();
    convs()[{"ZU", "QU"}] = [](Obj& t, Obj& f, bool) { poly_convert(dynamic_cast<PV<upolynomial_<ZZ>>&>(f).p, dynamic_cast<PV<upolynomial_<QQ>>&>(t).p); };
    convs()[{"QU", "ZU"}] = [](Obj& t, Obj& f, bool) { poly_convert(dynamic_cast<PV<upolynomial_<QQ>>&>(f).p, dynamic_cast<PV<upolynomial_<ZZ>>&>(t).p); };
    convs()[{"PU", "ZU"}] = [](Obj& t, Obj& f, bool) { poly_convert(dynamic_cast<PV<upolynomial_<Zp>>&>(f).p, dynamic_cast<PV<upolynomial_<ZZ>>&>(t).p); };
    convs()[{"ZU", "PU"}] = [](Obj& t, Obj& f, bool) { dynamic_cast<PV<upolynomial_<Zp>>&>(t).p = polynomial_mod(dynamic_cast<PV<upolynomial_<ZZ>>&>(f).p, cur_prime()); };
}
