// Driver: monomials under every order.
#define VD_MAIN
#include "poly_ops.hh"
using namespace vd;
struct MB { virtual ~MB() {} virtual std::string exec(const std::string&, Args&) = 0; virtual std::string rep(const std::string&) = 0; };
template <class O> struct MM : MB {
    using M = basic_monomial<O>;
    const O* o; std::map<std::string, M> R;
    MM(const std::string& s) : o(order_of<O>(s)) {}
    M& m(Args& a) { auto n = a.s(); auto it = R.find(n); if (it == R.end()) throw Bad("no register " + n); return it->second; }
    std::vector<std::pair<variable, int64_t>> pairs(Args& a) {
        int k = (int)a.n(); std::vector<std::pair<variable, int64_t>> v;
        for (int i = 0; i < k; ++i) { auto x = uvar(a.n()); v.emplace_back(x, a.n()); }
        return v; }
    std::string rep(const std::string& v) override {
        return "{\"v\":" + v + ",\"st\":" + jlist(R, [](const std::pair<const std::string, M>& p) { return "[" + jstr(p.first) + "," + jexps(p.second) + "]"; }) + "}"; }
    M fresh() { M x(o); return x; }
    static bool isdef() { return std::is_same<O, grlex>::value || std::is_same<O, lex>::value; }
    std::string exec(const std::string& op, Args& a) override {
        if (op == "new") { auto n = a.s(); auto k = a.s(); auto v = pairs(a);
            if (isdef() && k == "ctor") { M x(v); R.insert_or_assign(n, x); }
            else if (isdef() && k == "mctor") { M x(std::move(v)); R.insert_or_assign(n, std::move(x)); }
            else if (k == "raw") { M x(o); x.data() = v; x.normalization(); R.insert_or_assign(n, x); }
            else if (k == "massign") { if (!R.count(n)) R.emplace(n, fresh()); R.at(n) = std::move(v); }
            else { if (!R.count(n)) R.emplace(n, fresh()); R.at(n) = v; }
            return rep("0"); }
        if (op == "var") { auto n = a.s(); auto v = uvar(a.n()); if (isdef()) { M x(v); R.insert_or_assign(n, x); } else { if (!R.count(n)) R.emplace(n, fresh()); R.at(n) = v; } return rep("0"); }
        if (op == "powv") { auto n = a.s(); auto v = uvar(a.n()); auto e = a.n();
            if constexpr (std::is_same<O, grlex>::value) { R.insert_or_assign(n, pow(v, e)); } else { M x(o); x = std::vector<std::pair<variable, int64_t>>{{v, e}}; R.insert_or_assign(n, x); }
            return rep("0"); }
        if (op == "one") { auto n = a.s(); R.insert_or_assign(n, fresh()); return rep("0"); }
        if (op == "clear") { m(a).clear(); return rep("0"); }
        if (op == "push") { auto& x = m(a); auto v = uvar(a.n()); x.push_back({v, a.n()}); return rep("0"); }
        if (op == "pop") { m(a).pop_back(); return rep("0"); }
        if (op == "bin") { auto k = a.s(); auto d = a.s(); auto& x = m(a); auto& y = m(a); std::string v = "0";
            if (k == "mul") { M t = x * y; R.insert_or_assign(d, t); }
            else if (k == "mul3") { if (!R.count(d)) R.emplace(d, fresh()); __mono_mult__(R.at(d), m2(x), m2(y)); }
            else if (k == "quo") { M t = x / y; R.insert_or_assign(d, t); }
            else if (k == "gcd") { M t = gcd(x, y); R.insert_or_assign(d, t); }
            else if (k == "lcm") { M t = lcm(x, y); R.insert_or_assign(d, t); }
            else if (k == "divx") { M t(o); bool b = is_divexact(t, x, y); v = jbool(b); if (b) R.insert_or_assign(d, t); else R.erase(d); }
            else throw Script("bin " + k);
            return rep(v); }
        if (op == "pow") { auto d = a.s(); auto& x = m(a); auto e = a.n(); M t = pow(x, e); R.insert_or_assign(d, t); return rep("0"); }
        if (op == "copy") { auto d = a.s(); auto k = a.s(); auto& x = m(a); if (k == "c") { M t(x); R.erase(d); R.emplace(d, t); } else { if (!R.count(d)) R.emplace(d, M()); R.at(d) = x; } return rep("0"); }
        if (op == "move") { auto d = a.s(); auto k = a.s(); auto n = a.s(); auto& x = R.at(n);
            if (d == n) { x = std::move(x); return rep("0"); }
            if (k == "c") { M t(std::move(x)); R.erase(n); R.erase(d); R.emplace(d, std::move(t)); } else { if (!R.count(d)) R.emplace(d, M()); R.at(d) = std::move(x); R.erase(n); }
            return rep("0"); }
        if (op == "swap") { auto& x = m(a); auto& y = m(a); x.swap(y); return rep("0"); }
        if (op == "cmp") { auto& x = m(a); auto& y = m(a);
            return rep("[" + jbool((*o)(x, y)) + "," + jbool(x == y) + "," + jbool(x != y) + "," + jbool(x > y) + "," + jbool(x < y) + "," + jbool(x >= y) + "," + jbool(x <= y)
                + "," + jbool(hash_value(x) == hash_value(y) && std::hash<M>()(x) == std::hash<M>()(y)) + "]"); }
        if (op == "q") { auto& x = m(a);
            std::string ds = "["; for (size_t i = 0; i < U().size(); ++i) ds += (i ? "," : "") + jint(x.deg(U()[i])); ds += "]";
            std::ostringstream s; s << x;
            return rep("{\"deg\":" + jint(x.deg()) + ",\"degs\":" + ds + ",\"size\":" + jint(x.size()) + ",\"empty\":" + jbool(x.empty())
                + ",\"normal\":" + jbool(x.empty() || x.is_normal()) + ",\"txt\":[" + jtokens(s.str()) + "," + jtokens(x.str()) + "]}"); }
        if (op == "vcmp") { std::string s = "["; for (size_t i = 0; i < U().size(); ++i) { s += (i ? ",[" : "["); for (size_t j = 0; j < U().size(); ++j) s += std::string(j ? "," : "") + jbool((*o)(U()[i], U()[j])); s += "]"; }
            return rep(s + "]"); }
        throw Script("mono op " + op);
    }
    const M& m2(const M& x) { return x; }
};
static std::unique_ptr<MB> cur;
static void reset() { cur.reset(); forget_orders(); }
OP("vars") { std::vector<std::string> v; while (a.more()) v.push_back(a.s()); set_universe(v); return "0"; }
OP("order") { auto t = a.s(), s = a.s();
    if (t == "g") cur.reset(new MM<grlex>(s)); else if (t == "l") cur.reset(new MM<lex>(s)); else if (t == "u") cur.reset(new MM<univariate_priority_order>(s));
    else if (t == "c") cur.reset(new MM<lex_<custom_var_order>>(s)); else if (t == "h") cur.reset(new MM<grlex_<custom_var_order>>(s)); else throw Script("order");
    return cur->rep("0"); }
OP("m") { auto op = a.s(); return cur->exec(op, a); }
int main(int argc, char** argv) { create_variables(100); return run(argc, argv, reset); }
