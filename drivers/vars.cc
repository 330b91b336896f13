// Driver: the variable registry.  Slots hold variable handles; only the public API is used.
#define VD_MAIN
#include "vdrv.hh"
#include <clpoly/clpoly.hh>
#include <set>
using namespace clpoly; using namespace vd;

static std::map<int, variable> S;
static std::map<int, std::string> known;             // name each slot had when it was filled
static std::set<std::size_t> made;                   // every serial seen in this case
static std::size_t top = 0;                          // greatest serial ever seen
static void reset() {
    for (auto s : made) if (s) variable::del_variable(s);
    made.clear(); S.clear(); known.clear();
}
static variable& slot(Args& a) { int k = (int)a.n(); auto it = S.find(k); if (it == S.end()) throw Bad("empty slot"); return it->second; }
static void fill(int k, const variable& v) { S[k] = v; made.insert(v.serial()); top = std::max(top, v.serial()); known[k] = v.name(); }
// names: plain text, "@N<slot>" the name a slot was filled under, "@S<slot><suffix>" the name an anonymous
// variable with that serial would like to have, "@P<k><suffix>" the same for the k-th next anonymous variable
static std::string nm(const std::string& t) {
    if (t[0] != '@') return t;
    size_t q = 2; while (q < t.size() && isdigit((unsigned char)t[q])) ++q;
    int k = std::stoi(t.substr(2, q - 2)); std::string suf = t.substr(q);
    if (t[1] == 'N') return known.count(k) ? known[k] + suf : "none" + suf;
    if (t[1] == 'S') return "#var_" + std::to_string(S.count(k) ? S[k].serial() : 0) + suf;
    std::vector<std::size_t> t2;                     // create k anonymous variables and delete them again
    for (int i = 0; i < k; ++i) t2.push_back(variable::new_variable().serial());
    for (int i = k; i-- > 0;) variable::del_variable(t2[i]);
    top = std::max(top, t2.back());
    return "#var_" + std::to_string(t2.back()) + suf;
}
static std::string ser(std::size_t s) { return jint((long long)s); }
static std::string show(const variable& v) { return "[" + ser(v.serial()) + "," + jstr(v.name()) + "]"; }
// what the library reports about the slots: [slot, serial, name] 
static std::string rep(const std::string& q, const std::string& v) {
    return "{\"q\":" + jstr(q) + ",\"v\":" + v + ",\"st\":" + jlist(S, [](const std::pair<const int, variable>& p) {
        return "[" + std::to_string(p.first) + "," + ser(p.second.serial()) + "," + jstr(p.second.name()) + "]"; }) + "}";
}
OP("get")   { int k = (int)a.n(); auto n = nm(a.s()); auto v = variable::get_variable(n); fill(k, v); return rep(n, show(v)); }
OP("ctor")  { int k = (int)a.n(); auto n = nm(a.s()); variable v(n); fill(k, v); return rep(n, show(v)); }
OP("newn")  { int k = (int)a.n(); auto n = nm(a.s()); auto v = variable::new_variable(n); fill(k, v); return rep(n, show(v)); }
OP("new")   { int k = (int)a.n(); auto v = variable::new_variable(); fill(k, v); return rep("", show(v)); }
OP("gets")  { int k = (int)a.n(); auto v = variable::get_variable(slot(a).serial()); fill(k, v); return rep("", show(v)); }
OP("deln")  { auto n = nm(a.s()); variable::del_variable(n); return rep(n, "0"); }
OP("dels")  { auto& v = slot(a); auto s = v.serial(); variable::del_variable(s); return rep("", ser(s)); }
OP("delx")  { variable::del_variable(top + 1000 + (std::size_t)a.n()); variable::del_variable((std::size_t)0); variable::del_variable(std::string()); return rep("", "0"); }
// leave no freed serials behind: the next creations extend the registry
OP("grow")  { for (;;) { auto v = variable::new_variable(); if (v.serial() > top) { top = v.serial(); variable::del_variable(top); variable::get_variable("g" + std::to_string(top)); break; } } return rep("", "0"); }
OP("copy")  { int k = (int)a.n(); auto v = slot(a); variable w; w = v; fill(k, w); return rep("", show(w)); }
OP("swap")  { int i = (int)a.n(), j = (int)a.n(); S.at(i).swap(S.at(j)); std::swap(known[i], known[j]); return rep("", "0"); }
OP("cmp")   { auto& x = slot(a); auto& y = slot(a); std::ostringstream o, p; o << x; p << y;
    bool h = std::hash<variable>()(x) == std::hash<variable>()(y);
    return rep("", "[" + jbool(x == y) + "," + jbool(x != y) + "," + jbool(x < y) + "," + jbool(x > y) + "," + jbool(x <= y) + "," + jbool(x >= y) + ","
        + jbool(h) + "," + jbool(less()(x, y)) + "," + jstr(o.str()) + "," + jstr(y.str()) + "]"); }
int main(int argc, char** argv) { return run(argc, argv, reset); }
