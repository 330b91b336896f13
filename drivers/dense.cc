// Dense univariate polynomials over Z/p (C21): a machine of registers
#define VD_MAIN
#include "vdrv.hh"
#include <clpoly/dense_upoly_zp.hh>
using namespace vd;
using namespace clpoly;
using D = dense_upoly_zp;
static const int N = 6;
static D* reg[N];
static void reset() { for (auto& p : reg) { delete p; p = new D(); } }
static std::string num(uint64_t x) { return jdec(std::to_string(x)); }
// <<prime, coefficients from the constant term up>>; the accessors must tell one story
static std::string obj(const D& d) {
    std::string o = "["; size_t n = d.size();
    if (d.empty() != (n == 0) || d.deg() != (int64_t)n - 1 || d.lead() != (n ? d[n - 1] : 0) || d[n] || d[n + 1] || d[n + 1000]) throw Bad("accessors disagree");
    for (size_t i = 0; i < n; ++i) { if (i) o += ","; o += num(d[i]); }
    return "[" + num(d.prime()) + "," + o + "]]";
}
static std::string sparse(const upolynomial_<Zp>& f) {
    return jlist(f.begin(), f.end(), [](const std::pair<umonomial, Zp>& t) { return "[" + jint(t.first.deg()) + "," + num(t.second.number()) + "," + num(t.second.prime()) + "]"; });
}
static D& R(Args& a) { return *reg[a.n()]; }
OP("none") { return "0"; }
OP("def") { R(a) = D(); return "0"; }
OP("new") { D& d = R(a); d = D(a.u()); return obj(d); }
// set <r> <p> <n> c_0 ... c_{n-1}  (from the sparse representation)
OP("set") {
    D& d = R(a); uint64_t p = a.u(); int n = (int)a.n(); std::vector<uint64_t> c(n);
    for (auto& x : c) x = a.u();
    upolynomial_<Zp> f;
    for (int i = n - 1; i >= 0; --i) if (c[i]) f.push_back({umonomial(i), Zp(c[i], p)});
    d = D(f, p);
    return obj(d);
}
OP("copy") { D& d = R(a); D& s = R(a); d = s; return obj(d); }
OP("dup") { D& d = R(a); D& s = R(a); D t(s); d = std::move(t); return obj(d); }
OP("add") { D& c = R(a); D& x = R(a); D& y = R(a); D::add(c, x, y); return obj(c); }
OP("sub") { D& c = R(a); D& x = R(a); D& y = R(a); D::sub(c, x, y); return obj(c); }
OP("mul") { D& c = R(a); D& x = R(a); D& y = R(a); D::mul(c, x, y); return obj(c); }
OP("gcd") { D& c = R(a); D& x = R(a); D& y = R(a); D::gcd(c, x, y); return obj(c); }
OP("divrem") { D& q = R(a); D& r = R(a); D& x = R(a); D& y = R(a); D::divrem(q, r, x, y); return "[" + obj(q) + "," + obj(r) + "]"; }
OP("scale") { D& d = R(a); d.scalar_mul(a.u()); return obj(d); }
OP("sparse") { return sparse(R(a).to_upoly()); }
OP("nmul") { D& d = R(a); uint64_t x = a.u(), y = a.u(); return num(d.nmod_mul(x, y)); }
OP("ninv") { D& d = R(a); return num(d.nmod_inv(a.u())); }
OP("all") { std::string o = "["; for (int i = 0; i < N; ++i) { if (i) o += ","; o += obj(*reg[i]); } return o + "]"; }
int main(int argc, char** argv) { return run(argc, argv, reset); }
