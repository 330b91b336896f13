#include "poly_ops.hh"
using C = clpoly::Zp;
namespace vd {
template struct PV<upolynomial_<C>>;
template struct PV<polynomial_<C, univariate_priority_order>>;
}
using namespace vd;
void init_zpb() {
    register_type<upolynomial_<C>>("PU");
    register_type<polynomial_<C, univariate_priority_order>>("Pu");
}
