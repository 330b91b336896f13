// Random generators (C23).  Every command makes many draws and reports the distinct outcomes.
#define VD_MAIN
#include "polyio.hh"
#include <clpoly/random.hh>
using namespace vd;
static void reset() { escale() = 1; }
OP("vars") { std::vector<std::string> v; while (a.more()) v.push_back(a.s()); set_universe(v); return "0"; }
OP("none") { return "0"; }
template <class F> static std::string draws(int n, F f) {
    std::set<std::string> s; for (int i = 0; i < n; ++i) s.insert(f());
    return jlist(s, [](const std::string& x) { return x; });
}
static std::vector<variable> vlist(Args& a) { int n = (int)a.n(); std::vector<variable> v; for (int i = 0; i < n; ++i) v.push_back(uvar(a.n())); return v; }
static std::string num(uint64_t x) { return jint((long long)x); }
OP("select") { int k = (int)a.n(); size_t m = a.u(), n = a.u(); bool nr = a.n(); return draws(k, [&] { return jlist(nr ? random_select(m, n) : random_select(m, n, false), num); }); }
OP("sample") { int k = (int)a.n(); uint64_t n = a.u(); int c = (int)a.n(); std::vector<int> l; for (int i = 0; i < c; ++i) l.push_back((int)a.n());
    return draws(k, [&] { return jlist(RandomSample(l, n), [](int x) { return jint(x); }); }); }
OP("graph") { int k = (int)a.n(); double p = std::stod(a.s()); int c = (int)a.n(); std::vector<int> l; for (int i = 0; i < c; ++i) l.push_back((int)a.n());
    return draws(k, [&] { auto g = random_graph(l, p); return "[" + jlist(g.nodes(), [](int x) { return jint(x); }) + "," + jlist(g.adjacency_list(), [&](const std::set<uint64_t>& s) { return jlist(s, [&](uint64_t j) { return jint(g.node(j)); }); }) + "]"; }); }
// poly <draws> <Z|Q|R|U|V> <deg> <len> <lo> <hi> <const> <max denominator> <n variables...>
OP("poly") {
    int k = (int)a.n(); auto t = a.s(); uint64_t deg = a.u(), len = a.u(); int lo = (int)a.n(), hi = (int)a.n(); bool c = a.n(); int md = (int)a.n(); auto v = vlist(a);
    return draws(k, [&]() -> std::string {
        if (t == "Z") return jpoly(c ? random_polynomial<ZZ>(v, deg, len, {lo, hi}, true) : random_polynomial<ZZ>(v, deg, len, {lo, hi}));
        if (t == "Q") return jpoly(random_polynomial<QQ>(v, deg, len, {lo, hi}, c));
        if (t == "R") return jpoly(random_polynomial_QQ(v, deg, len, {lo, hi}, md, c));
        if (t == "U") return jpoly(random_upolynomial<ZZ>(deg, len, {lo, hi}));
        if (t == "V") return jpoly(random_upolynomial<QQ>(deg, len, {lo, hi}));
        throw Script("type " + t);
    });
}
OP("sparse") {
    int k = (int)a.n(); auto t = a.s(); uint64_t deg = a.u(); double p = std::stod(a.s()); int lo = (int)a.n(), hi = (int)a.n(); auto v = vlist(a);
    return draws(k, [&] { return t == "Z" ? jpoly(random_polynomial<ZZ>(v, deg, p, hi, lo)) : jpoly(random_polynomial<QQ>(v, deg, p, hi, lo)); });
}
OP("family") {
    int k = (int)a.n(); uint64_t deg = a.u(); double p = std::stod(a.s()), q = std::stod(a.s()); int lo = (int)a.n(), hi = (int)a.n(); auto v = vlist(a);
    return draws(k, [&] { return jpolys(random_polynomials<ZZ>(v, deg, p, q, hi, lo)); });
}
int main(int argc, char** argv) { create_variables(100); return run(argc, argv, reset); }
