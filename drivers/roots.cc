// real root isolation and real algebraic numbers (C19, C20)
#define VD_MAIN
#include "poly_ops.hh"
#include <clpoly/realroot.hh>
using namespace vd;
using Name = std::pair<std::string, int>;
static std::map<Name, uroot>& objs() { static std::map<Name, uroot> m; return m; }
static std::map<Name, std::string>& seen() { static std::map<Name, std::string> m; return m; }
static void reset() { objs().clear(); seen().clear(); escale() = 1; forget_orders(); }
OP("vars") { std::vector<std::string> v; while (a.more()) v.push_back(a.s()); set_universe(v); return "0"; }
static Name name(Args& a) { auto s = a.s(); return {s, (int)a.n()}; }
static std::string jname(const Name& n) { return "[" + jstr(n.first) + "," + jint(n.second) + "]"; }
static std::string jq(const QQ& q) { return Coef<QQ>::js(q); }
static std::string proj(const uroot& u) {
    if (u.isinf()) return "{\"t\":\"inf\"}";
    if (u.isneginf()) return "{\"t\":\"neginf\"}";
    return "{\"t\":\"num\",\"p\":" + jpoly(u.poly()) + ",\"a\":" + jq(u.left()) + ",\"b\":" + jq(u.right()) + "}";
}
static std::string rep(const std::string& v, const std::string& more = "") {
    std::string st; 
    for (auto& o : objs()) { auto p = proj(o.second); if (seen()[o.first] != p) { seen()[o.first] = p; st += (st.empty() ? "" : ",") + ("[" + jname(o.first) + "," + p + "]"); } }
    return "{\"v\":" + v + more + ",\"st\":[" + st + "]}";
}
using UZ = upolynomial_<ZZ>;
template <class P> static std::string rroot(const std::string& d, const std::string& ord, Args& a) {
    using O = typename P::compare_type; const O* o = order_of<O>(ord);
    int n = (int)a.n(); std::vector<P> F; for (int i = 0; i < n; ++i) F.push_back(read_poly<P>(a, o));
    auto r = realroot(F);
    if (r.first.size() != r.second.size()) throw Bad("as many multiplicity lists as roots");
    std::string s = "[";
    for (size_t i = 0; i < r.first.size(); ++i) {
        auto& u = r.first[i];
        if (u.isinf() || u.isneginf()) throw Bad("infinite root");
        s += (i ? "," : "") + ("[" + jpoly(u.poly()) + "," + jq(u.left()) + "," + jq(u.right()) + "," +
            jlist(r.second[i], [](const auto& x) { return "[" + jint((long long)x.first + 1) + "," + jint((long long)x.second) + "]"; }) + "]");
        objs()[{d, (int)i + 1}] = u;
    }
    return rep(s + "]");
}
OP("realroot") { auto d = a.s(), t = a.s(), o = a.s();
    if (t == "Zl") return rroot<polynomial_<ZZ, lex>>(d, o, a);
    if (t == "Zg") return rroot<polynomial_<ZZ>>(d, o, a);
    if (t == "Zc") return rroot<polynomial_<ZZ, lex_<custom_var_order>>>(d, o, a);
    if (t == "Zh") return rroot<polynomial_<ZZ, grlex_<custom_var_order>>>(d, o, a);
    throw Script("type " + t); }
static std::string jiv(const std::vector<std::pair<QQ, QQ>>& l) { return jlist(l, [](const auto& x) { return "[" + jq(x.first) + "," + jq(x.second) + "]"; }); }
OP("usp") { auto f = read_poly<UZ>(a); return jiv(uspensky(f)); }
static std::vector<UZ> ulist(Args& a) { int n = (int)a.n(); std::vector<UZ> F; for (int i = 0; i < n; ++i) F.push_back(read_poly<UZ>(a)); return F; }
OP("uspl") { auto F = ulist(a); auto r = uspensky(F); return "[" + jiv(r.first) + "," + jlist(r.second, [](size_t i) { return jint((long long)i + 1); }) + "]"; }
OP("bound") { auto f = read_poly<UZ>(a); return Coef<ZZ>::js(RealRootBound(f)); }
OP("signs") { auto f = read_poly<UZ>(a); return jint((long long)coeffsignchanges(f)); }
static QQ rdq(Args& a) { return Coef<QQ>::read(a); }
OP("xf") { auto k = a.s(); auto f = read_poly<UZ>(a); ZZ B = Coef<ZZ>::read(a); QQ l = rdq(a), r = rdq(a);
    if (k == "1toinf") return jpoly(_upolynomial_1toinf(f));
    if (k == "Bto1") return jpoly(_upolynomial_Bto1(f, B));
    if (k == "01to012") return jpoly(_upolynomial_01to012(f));
    if (k == "01to121") return jpoly(_upolynomial_01to121(f));
    if (k == "Rtoab") return jpoly(_upolynomial_Rtoab(f, l, r));
    throw Script("xf " + k); }
OP("xfl") { auto k = a.s(); auto F = ulist(a); ZZ B = Coef<ZZ>::read(a); int i = (int)a.n() - 1;
    auto R = k == "1toinf" ? _upolynomial_1toinf(F) : _upolynomial_Bto1(F, B);
    if (R.size() != F.size()) throw Bad("length");
    return jpoly(R.at(i)); }
OP("new") { auto n = name(a); auto f = read_poly<UZ>(a); QQ l = rdq(a), r = rdq(a); objs()[n] = uroot(f, l, r); return rep("0"); }
OP("inf") { auto n = name(a); objs()[n] = a.n() > 0 ? uroot::inf() : uroot::neginf(); return rep("0"); }
OP("copy") { auto d = name(a), x = name(a); uroot t = objs().at(x); objs()[d] = t; return rep("0"); }
OP("move") { auto d = name(a), x = name(a); uroot t = objs().at(x); objs()[d] = std::move(t); return rep("0"); }
OP("cmp") { auto k = a.s(); auto& x = objs().at(name(a)); auto& y = objs().at(name(a));
    if (k == "comp") return rep(jint(uroot::comp(&x, &y)));
    bool b = k == "lt" ? x < y : k == "gt" ? x > y : k == "le" ? x <= y : k == "ge" ? x >= y : k == "eq" ? x == y : x != y;
    return rep(jbool(b)); }
// cmpq <op> <side> <x> then a rational, or l|r|m <object>: that object's current left end, right end, midpoint
OP("cmpq") { auto k = a.s(), side = a.s(); auto& x = objs().at(name(a)); auto w = a.s(); QQ q;
    if (w == "q") q = rdq(a);
    else { auto& y = objs().at(name(a)); if (!y.isinf() && !y.isneginf()) { q = w == "l" ? y.left() : w == "r" ? y.right() : (y.left() + y.right()) / QQ(2); } }
    std::string v;
    if (k == "comp") v = jint(uroot::comp(&x, q));
    else if (side == "R") v = jbool(k == "lt" ? x < q : k == "gt" ? x > q : k == "le" ? x <= q : k == "ge" ? x >= q : k == "eq" ? x == q : x != q);
    else v = jbool(k == "lt" ? q > x : k == "gt" ? q < x : k == "le" ? q >= x : k == "ge" ? q <= x : k == "eq" ? q == x : q != x);
    return rep(v, ",\"q\":" + jq(q)); }
OP("shrink") { auto& x = objs().at(name(a)); if (!x.isinf() && !x.isneginf()) x.shrinkinterval(); 
    return rep("0"); }
OP("single") { auto& x = objs().at(name(a)); return jbool(x.is_single()); }
int main(int argc, char** argv) { create_variables(100); return run(argc, argv, reset); }
