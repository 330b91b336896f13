// gcd, extended gcd, contents, squarefree decompositions (C11, C12)
#define VD_MAIN
#include "poly_ops.hh"
using namespace vd;
static void reset() { escale() = 1; forget_orders(); }
OP("vars") { std::vector<std::string> v; while (a.more()) v.push_back(a.s()); set_universe(v); return "0"; }
OP("scale") { escale() = a.n(); return "0"; }
OP("prime") { cur_prime() = a.u(); Zp::set_prime(cur_prime()); return "0"; }

template <class P> static std::string factors(const std::vector<std::pair<P, uint64_t>>& l) {
    return jlist(l, [](const auto& t) { return "[" + jpoly(t.first) + "," + jint((long long)t.second) + "]"; });
}
template <class P> static std::string three(const P& r, const P& s, const P& t) { return "[" + jpoly(r) + "," + jpoly(s) + "," + jpoly(t) + "]"; }

template <class P> static std::string multi(const std::string& op, const std::string& ord, Args& a) {
    using O = typename P::compare_type;
    const O* o = order_of<O>(ord);
    if (op == "sqfb") {
        int n = (int)a.n(); std::vector<P> v;
        for (int i = 0; i < n; ++i) v.push_back(read_poly<P>(a, o));
        auto r = squarefreebasis(v);
        return "[" + jpolys(r.first) + "," + jlist(r.second, [](const auto& l) {
            return jlist(l, [](const auto& x) { return "[" + jint((long long)x.first + 1) + "," + jint((long long)x.second) + "]"; }); }) + "]";
    }
    P f = read_poly<P>(a, o);
    if (op == "sqf") return jbool(is_squarefree(f));
    if (op == "sqff") return factors(squarefreefactorize(f));
    if constexpr (is_lexo<O>::value) {
        if (op == "cont") return jpoly(cont(f));
        if (op == "pp") return jpoly(pp(f));
    }
    P g = read_poly<P>(a, o);
    if (op == "gcd") return jpoly(gcd(f, g));
    if (op == "gcd2") return jpoly(polynomial_GCD(f, g));
    if constexpr (is_lexo<O>::value) {
        P s(o), t(o);
        if (op == "xgcd") { P r = gcd(f, g, s, t); return three(r, s, t); }
    }
    throw Script("operation " + op);
}
template <class P> static std::string uni(const std::string& op, Args& a) {
    P f = read_poly<P>(a), g = read_poly<P>(a), s, t;
    if (op == "gcd" || op == "gcd2") return jpoly(polynomial_GCD(f, g));
    if (op == "xgcd") { P r = gcd(f, g, s, t); return three(r, s, t); }
    throw Script("operation " + op);
}
// g <op> <type> <order> operands
OP("g") {
    auto op = a.s(), t = a.s(), o = a.s();
    if (t == "Zl") return multi<polynomial_<ZZ, lex>>(op, o, a);
    if (t == "Zg") return multi<polynomial_<ZZ>>(op, o, a);
    if (t == "Zc") return multi<polynomial_<ZZ, lex_<custom_var_order>>>(op, o, a);
    if (t == "Zh") return multi<polynomial_<ZZ, grlex_<custom_var_order>>>(op, o, a);
    if (t == "ZU") return uni<upolynomial_<ZZ>>(op, a);
    if (t == "PU") return uni<upolynomial_<Zp>>(op, a);
    throw Script("type " + t);
}
int main(int argc, char** argv) { create_variables(100); return run(argc, argv, reset); }
