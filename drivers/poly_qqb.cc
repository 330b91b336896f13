#include "poly_ops.hh"
using C = clpoly::QQ;
namespace vd {
template struct PV<upolynomial_<C>>;
template struct PV<polynomial_<C, univariate_priority_order>>;
}
using namespace vd;
void init_qqb() {
    register_type<upolynomial_<C>>("QU");
    register_type<polynomial_<C, univariate_priority_order>>("Qu");
}
