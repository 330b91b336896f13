#include "poly_ops.hh"
using C = clpoly::Zp;
namespace vd {
template struct PV<polynomial_<C>>;
template struct PV<polynomial_<C, lex>>;
}
using namespace vd;
void init_zpa() {
    register_type<polynomial_<C>>("Pg");
    register_type<polynomial_<C, lex>>("Pl");
}
