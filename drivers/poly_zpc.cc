#include "poly_ops.hh"
using C = clpoly::Zp;
namespace vd {
template struct PV<polynomial_<C, lex_<custom_var_order>>>;
template struct PV<polynomial_<C, grlex_<custom_var_order>>>;
}
using namespace vd;
void init_zpc() {
    register_type<polynomial_<C, lex_<custom_var_order>>>("Pc");
    register_type<polynomial_<C, grlex_<custom_var_order>>>("Ph");
}
