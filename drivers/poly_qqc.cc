#include "poly_ops.hh"
using C = clpoly::QQ;
namespace vd {
template struct PV<polynomial_<C, lex_<custom_var_order>>>;
template struct PV<polynomial_<C, grlex_<custom_var_order>>>;
}
using namespace vd;
void init_qqc() {
    register_type<polynomial_<C, lex_<custom_var_order>>>("Qc");
    register_type<polynomial_<C, grlex_<custom_var_order>>>("Qh");
}
