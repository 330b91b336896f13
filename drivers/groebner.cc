// Groebner bases, normal forms, ideal membership (C17)
#define VD_MAIN
#include "poly_ops.hh"
#include <clpoly/groebner.hh>
using namespace vd;
static void reset() { escale() = 1; forget_orders(); }
OP("vars") { std::vector<std::string> v; while (a.more()) v.push_back(a.s()); set_universe(v); return "0"; }
OP("prime") { cur_prime() = a.u(); Zp::set_prime(cur_prime()); return "0"; }
OP("none") { return "0"; }

template <class P> static std::string multi(const std::string& op, const std::string& ord, Args& a) {
    using O = typename P::compare_type; using T = typename P::coeff_type;
    const O* o = order_of<O>(ord);
    if (op == "sp") { P f = read_poly<P>(a, o), g = read_poly<P>(a, o); return jpoly(s_polynomial(f, g)); }
    int n = (int)a.n(); std::vector<P> F;
    for (int i = 0; i < n; ++i) F.push_back(read_poly<P>(a, o));
    if (op == "nf") { P f = read_poly<P>(a, o); return jpoly(normal_form(f, F)); }
    if constexpr (!std::is_same<T, Zp>::value) {
        if (op == "gb") return jpolys(groebner_basis(F));
        if (op == "obj") {
            Ideal<T, O> I(F);
            int k = (int)a.n(); bool lazy = a.n(); std::string first, mid = "[";
            if (!lazy) first = jpolys(I.groebner_basis());
            for (int i = 0; i < k; ++i) {
                P f = read_poly<P>(a, o);
                if (i) mid += ",";
                bool c = I.contains(f);
                mid += "[" + jbool(c) + "," + jpoly(I.reduce(f)) + "]";
            }
            if (lazy) { Ideal<T, O> J = I; first = jpolys(J.groebner_basis()); }
            return "[" + first + "," + mid + "]," + jpolys(I.groebner_basis()) + "," + jpolys(I.generators()) + "]";
        }
    }
    throw Script("operation " + op);
}
// b <op> <type> <order> n polynomials ...
OP("b") {
    auto op = a.s(), t = a.s(), o = a.s();
    if (t == "Zl") return multi<polynomial_<ZZ, lex>>(op, o, a);
    if (t == "Zg") return multi<polynomial_<ZZ>>(op, o, a);
    if (t == "Zc") return multi<polynomial_<ZZ, lex_<custom_var_order>>>(op, o, a);
    if (t == "Zh") return multi<polynomial_<ZZ, grlex_<custom_var_order>>>(op, o, a);
    if (t == "Ql") return multi<polynomial_<QQ, lex>>(op, o, a);
    if (t == "Qg") return multi<polynomial_<QQ>>(op, o, a);
    if (t == "Qc") return multi<polynomial_<QQ, lex_<custom_var_order>>>(op, o, a);
    if (t == "Qh") return multi<polynomial_<QQ, grlex_<custom_var_order>>>(op, o, a);
    if (t == "Pl") return multi<polynomial_<Zp, lex>>(op, o, a);
    if (t == "Pg") return multi<polynomial_<Zp>>(op, o, a);
    throw Script("type " + t);
}
int main(int argc, char** argv) { create_variables(100); return run(argc, argv, reset); }
