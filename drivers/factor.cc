// factorization over ZZ, QQ (univariate and multivariate) and Z/p (C13, C14, C15)
#define VD_MAIN
#include "poly_ops.hh"
using namespace vd;
static void reset() { escale() = 1; __g_use_large_prime = false; forget_orders(); }
OP("vars") { std::vector<std::string> v; while (a.more()) v.push_back(a.s()); set_universe(v); return "0"; }
OP("prime") { cur_prime() = a.u(); Zp::set_prime(cur_prime()); return "0"; }
// which end of the prime table the univariate algorithm starts from
OP("large") { __g_use_large_prime = a.n() != 0; return "0"; }

template <class P> static std::string answer(const factorization<P>& r) {
    using C = typename P::coeff_type;
    return "[" + Coef<C>::js(r.content) + "," + jlist(r.factors, [](const auto& t) { return "[" + jpoly(t.first) + "," + jint((long long)t.second) + "]"; }) + "]";
}
template <class P> static std::string multi(const std::string& ord, Args& a) {
    P f = read_poly<P>(a, order_of<typename P::compare_type>(ord));
    return answer(factorize(f));
}
// f fac <type> <order> operand
OP("f") {
    auto op = a.s(), t = a.s(), o = a.s();
    if (op != "fac") throw Script("operation " + op);
    if (t == "Zl") return multi<polynomial_<ZZ, lex>>(o, a);
    if (t == "Zg") return multi<polynomial_<ZZ>>(o, a);
    if (t == "Zc") return multi<polynomial_<ZZ, lex_<custom_var_order>>>(o, a);
    if (t == "Ql") return multi<polynomial_<QQ, lex>>(o, a);
    if (t == "Qg") return multi<polynomial_<QQ>>(o, a);
    if (t == "Qc") return multi<polynomial_<QQ, lex_<custom_var_order>>>(o, a);
    if (t == "ZU") return answer(factorize(read_poly<upolynomial_<ZZ>>(a)));
    if (t == "PU") {
        auto r = __factor_Zp(read_poly<upolynomial_<Zp>>(a));
        return "[" + Coef<Zp>::js(r.first) + "," + jlist(r.second, [](const auto& x) { return "[" + jpoly(x.first) + "," + jint((long long)x.second) + "]"; }) + "]";
    }
    if (t == "PS") {                       // x^j f(x^q), q a power of the characteristic: multiplicities as quotient and remainder by q
        uint64_t q = a.u(), j = a.u();
        escale() = (int64_t)q;
        auto f = read_poly<upolynomial_<Zp>>(a);
        escale() = 1;
        for (auto& u : f) u.first = umonomial(u.first.deg() + (int64_t)j);
        auto r = __factor_Zp(f);
        return "[" + Coef<Zp>::js(r.first) + "," + jlist(r.second, [q](const auto& x) { return "[" + jpoly(x.first) + "," + jint((long long)(x.second / q)) + "," + jint((long long)std::min<uint64_t>(x.second % q, 1000000)) + "]"; }) + "]";
    }
    throw Script("type " + t);
}
int main(int argc, char** argv) { create_variables(100); return run(argc, argv, reset); }
