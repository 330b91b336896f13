#include "poly_ops.hh"
using C = clpoly::ZZ;
namespace vd {
template struct PV<polynomial_<C>>;
template struct PV<polynomial_<C, lex>>;
}
using namespace vd;
void init_zza() {
    register_type<polynomial_<C>>("Zg");
    register_type<polynomial_<C, lex>>("Zl");
}
