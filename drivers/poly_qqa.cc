#include "poly_ops.hh"
using C = clpoly::QQ;
namespace vd {
template struct PV<polynomial_<C>>;
template struct PV<polynomial_<C, lex>>;
}
using namespace vd;
void init_qqa() {
    register_type<polynomial_<C>>("Qg");
    register_type<polynomial_<C, lex>>("Ql");
}
