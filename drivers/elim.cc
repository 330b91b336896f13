// resultants, subresultants, discriminants; characteristic sets and zero decompositions (C16, C18)
#define VD_MAIN
#include "poly_ops.hh"
#include <clpoly/charset.hh>
using namespace vd;
static void reset() { escale() = 1; forget_orders(); }
OP("vars") { std::vector<std::string> v; while (a.more()) v.push_back(a.s()); set_universe(v); return "0"; }
OP("prime") { cur_prime() = a.u(); Zp::set_prime(cur_prime()); return "0"; }

template <class P> static std::string multi(const std::string& op, const std::string& ord, Args& a) {
    using O = typename P::compare_type;
    const O* o = order_of<O>(ord);
    variable v = uvar(a.n());
    P f = read_poly<P>(a, o);
    if constexpr (std::is_same<typename P::coeff_type, ZZ>::value) if (op == "disc") return jpoly(discriminant(f, v));
    P g = read_poly<P>(a, o);
    if (op == "res") return jpoly(resultant(f, g, v));
    if (op == "sub") return jpolys(subresultant(f, g, v));
    if (op == "sub0") return jpolys(subresultant(f, g, v, false));
    if (op == "bez") {
        univariate_priority_order cv(v);
        using Q = polynomial_<typename P::coeff_type, univariate_priority_order>;
        Q f1(&cv), g1(&cv); poly_convert(f, f1); poly_convert(g, g1);
        auto B = BezoutMatrix(f1, g1);
        Q d = det(B, (size_t)get_up_deg(f1));
        P r(o); poly_convert(std::move(d), r);
        return jpoly(r);
    }
    throw Script("operation " + op);
}
// e <op> <type> <order> variable operands
OP("e") {
    auto op = a.s(), t = a.s(), o = a.s();
    if (t == "Zl") return multi<polynomial_<ZZ, lex>>(op, o, a);
    if (t == "Zg") return multi<polynomial_<ZZ>>(op, o, a);
    if (t == "Zc") return multi<polynomial_<ZZ, lex_<custom_var_order>>>(op, o, a);
    if (t == "Ql") return multi<polynomial_<QQ, lex>>(op, o, a);
    if (t == "Qg") return multi<polynomial_<QQ>>(op, o, a);
    throw Script("type " + t);
}
using CS = polynomial_<ZZ, lex_<custom_var_order>>;
static std::string jsets(const std::vector<std::vector<CS>>& D) { return jlist(D, [](const std::vector<CS>& T) { return jpolys(T); }); }
// c <op> <order> n polynomials [f]
OP("c") {
    auto op = a.s(), t = a.s(), os = a.s();
    auto* o = order_of<lex_<custom_var_order>>(os);
    int n = (int)a.n(); std::vector<CS> P;
    for (int i = 0; i < n; ++i) P.push_back(read_poly<CS>(a, o));
    if (op == "cs") return jpolys(charset(P));
    if (op == "wu") return jsets(Wucharset(P));
    if (op == "grd") return jsets(GRDforZD(P));
    if (op == "rc") return jsets(ZDtoRC(P));
    if (op == "sqfree") return jsets(RCtoSqrfree(P));
    if (op == "reg") return is_regular(P) ? "true" : "false";
    if (op == "sas") {
        std::vector<std::vector<CS>> S{P};
        for (int k = 0; k < 3; ++k) { int m = (int)a.n(); S.emplace_back(); for (int i = 0; i < m; ++i) S.back().push_back(read_poly<CS>(a, o)); }
        return jlist(GRDforZDSAS(S), [](const std::vector<std::vector<CS>>& u) { return jsets(u); });
    }
    CS f = read_poly<CS>(a, o);
    auto W = op == "wrsd" ? wrsd(P, f) : op == "rsd" ? rsd(P, f) : throw Script("operation " + op);
    return "[" + jsets(W.first) + "," + jsets(W.second) + "]";
}
int main(int argc, char** argv) { create_variables(100); return run(argc, argv, reset); }
