#include "poly_ops.hh"
using C = clpoly::ZZ;
namespace vd {
template struct PV<upolynomial_<C>>;
template struct PV<polynomial_<C, univariate_priority_order>>;
}
using namespace vd;
void init_zzb() {
    register_type<upolynomial_<C>>("ZU");
    register_type<polynomial_<C, univariate_priority_order>>("Zu");
}
