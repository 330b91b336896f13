// The polynomial register machine: one class per (coefficient ring, representation).
#ifndef POLY_OPS_HH
#define POLY_OPS_HH
#include <set>
#include "polyio.hh"
#include <memory>
namespace vd {
struct Obj {
    std::string shown;                       // last projection reported
    virtual ~Obj() {}
    virtual std::string json() = 0;
    virtual std::string exec(const std::string& op, Args& a) = 0;   // `this` is the first operand
};
using Regs = std::map<std::string, std::unique_ptr<Obj>>;
inline Regs& regs() { static Regs r; return r; }
inline Obj& obj(const std::string& n) { auto it = regs().find(n); if (it == regs().end()) throw Bad("no register " + n); return *it->second; }
// result of a call: its own value and every register whose projection changed
inline std::string report(const std::string& v) {
    std::string o = "{\"v\":" + v + ",\"st\":["; bool first = true;
    for (auto& k : regs()) {
        std::string j = k.second->json();
        if (j == k.second->shown) continue;
        k.second->shown = j;
        if (!first) o += ","; first = false;
        o += "[" + jstr(k.first) + "," + j + "]";
    }
    return o + "]}";
}

template <class P> struct PV;
template <class P> struct PVname { static inline std::string n; };
template <class P> struct is_upoly : std::false_type {};
template <class C> struct is_upoly<upolynomial_<C>> : std::true_type {};
template <class C> struct is_lexo : std::false_type {};
template <class V> struct is_lexo<lex_<V>> : std::true_type {};

// orders live as long as the process
// order objects made for a case live until its objects are gone
inline std::vector<std::shared_ptr<void>>& orders() { static std::vector<std::shared_ptr<void>> v; return v; }
inline void forget_orders() { std::vector<std::shared_ptr<void>>().swap(orders()); }
template <class T> const T* kept(T* p) { orders().emplace_back(std::shared_ptr<T>(p)); return p; }
template <class Cmp> const Cmp* order_of(const std::string& spec);
inline std::vector<variable> var_list(const std::string& s) {
    std::vector<variable> v; std::istringstream is(s); std::string t;
    while (std::getline(is, t, ',')) v.push_back(uvar(std::stoll(t)));
    return v;
}
template <> inline const grlex* order_of<grlex>(const std::string&) { return &grlex::init; }
template <> inline const lex* order_of<lex>(const std::string&) { return &lex::init; }
template <> inline const uless* order_of<uless>(const std::string&) { return &uless::init; }
template <> inline const univariate_priority_order* order_of<univariate_priority_order>(const std::string& s) {
    return kept(new univariate_priority_order(uvar(std::stoll(s))));
}
template <> inline const lex_<custom_var_order>* order_of<lex_<custom_var_order>>(const std::string& s) {
    return kept(new lex_<custom_var_order>(custom_var_order(var_list(s))));
}
template <> inline const grlex_<custom_var_order>* order_of<grlex_<custom_var_order>>(const std::string& s) {
    return kept(new grlex_<custom_var_order>(custom_var_order(var_list(s))));
}

using Maker = std::function<Obj*(const std::string& ord)>;           // an empty object of the type
inline std::map<std::string, Maker>& makers() { static std::map<std::string, Maker> m; return m; }
using Conv = std::function<void(Obj& to, Obj& from, bool move)>;
inline std::map<std::pair<std::string, std::string>, Conv>& convs() { static std::map<std::pair<std::string, std::string>, Conv> m; return m; }

template <class P> struct PV : Obj {
    using C = typename P::coeff_type; using M = typename P::monomial_type; using O = typename P::compare_type;
    P p;
    PV() {}
    explicit PV(const O* o) : p(o) {}
    static P& get(const std::string& n) {
        auto* q = dynamic_cast<PV<P>*>(&obj(n));
        if (!q) throw Script("register " + n + " has another type");
        return q->p;
    }
    static bool has(const std::string& n) { auto it = regs().find(n); return it != regs().end() && dynamic_cast<PV<P>*>(it->second.get()); }
    static P& dest(const std::string& n, const P& like) {   // existing object of the type, or a new one
        if (!has(n)) { auto* q = new PV<P>(like.comp_ptr()); regs()[n].reset(q); }
        return get(n);
    }
    static std::string put(const std::string& n, P v) { dest(n, v) = std::move(v); return report("0"); }
    std::string json() override {
        if (!comp_consistent_(p)) throw Bad("order of the object");
        return jpoly(p);
    }
    static bool comp_consistent_(const P&) { return true; }
    static std::string b(bool x) { return jbool(x); }

    std::string exec(const std::string& op, Args& a) override {
        if (op == "set") {                              // x route terms : (re)define x
            auto route = a.s(); auto t = read_terms<P>(a, p.comp_ptr());
            bool dflt = p.comp_ptr() == &O::init;      // constructors from a term list use the default order object
            if (route == "vec" && dflt) { P q(t); p = q; }
            else if (route == "mvec" && dflt) p = P(std::move(t));
            else if (route == "init" && dflt && t.size() <= 3) {
                if (t.size() == 0) p = std::initializer_list<std::pair<M, C>>{};
                if (t.size() == 1) p = {t[0]};
                if (t.size() == 2) { P q({t[0], t[1]}); p = std::move(q); }
                if (t.size() == 3) p = {t[0], t[1], t[2]};
            }
            else if (route == "data") { p.clear(); p.data() = std::move(t); p.normalization(); }
            else { p.clear(); for (auto& i : t) p.push_back(i); p.normalization(); }
            return report("0");
        }
        if (op == "add") { auto d = a.s(); auto& y = get(a.s()); return put(d, p + y); }
        if (op == "sub") { auto d = a.s(); auto& y = get(a.s()); return put(d, p - y); }
        if (op == "mul") { auto d = a.s(); auto& y = get(a.s()); return put(d, p * y); }
        if (op == "quo") { auto d = a.s(); auto& y = get(a.s()); return put(d, p / y); }
        if (op == "vadd" || op == "vsub" || op == "vmul" || op == "vquo") {     // destination may be an operand
            auto d = a.s(); auto& y = get(a.s()); auto& o = dest(d, p);
            if (op == "vquo" && y.empty()) { try { polynomial_div(o, p, y); } catch (...) { regs().erase(d); throw; } }
            if (op == "vadd") pair_vec_add(o.data(), p.data(), y.data(), p.comp());
            if (op == "vsub") pair_vec_sub(o.data(), p.data(), y.data(), p.comp());
            if (op == "vmul") pair_vec_multiplies(o.data(), p.data(), y.data(), p.comp());
            if (op == "vquo") polynomial_div(o, p, y);
            return report("0");
        }
        if constexpr (!std::is_same<C, QQ>::value) {
        if (op == "divqr") { auto q = a.s(); auto r = a.s(); auto& y = get(a.s()); auto& Q = dest(q, p); auto& R = dest(r, p);
            try { polynomial_div(Q, R, p, y); } catch (...) { regs().erase(q); regs().erase(r); throw; }   // destinations are unspecified then
            return report("0"); }
        if (op == "rem") { auto d = a.s(); auto& y = get(a.s()); return put(d, polynomial_rem(p, y)); }
        }
        if (op == "neg") { auto d = a.s(); return put(d, -p); }
        if (op == "pos") { auto d = a.s(); return put(d, +p); }
        if (op == "ineg") { pair_vec_negate(p.data()); return report("0"); }
        if (op == "pow") { auto d = a.s(); return put(d, pow(p, a.n())); }
        if (op == "scale") { auto d = a.s(); return put(d, p * Coef<C>::read(a)); }
        if (op == "copy") { auto d = a.s(); dest(d, p) = p; return report("0"); }
        if (op == "ctor") { auto d = a.s(); P q(p); if (!has(d)) dest(d, p); get(d) = q; return report("0"); }
        if (op == "move") { auto d = a.s(), x = a.s(); auto& o = dest(d, p); o = std::move(get(x)); if (d != x) regs().erase(x); return report("0"); }
        if (op == "swap") { auto& y = get(a.s()); p.swap(y); return report("0"); }
        if (op == "clear") { p.clear(); return report("0"); }
        if (op == "normal") { p.normalization(); return report("0"); }
        if (op == "cmp") { auto& y = get(a.s());
            bool eq = p == y, ne = p != y, h = true; int v = (ne == !eq) ? (eq ? 0 : 5) : 9;
            if constexpr (!std::is_same<C, Zp>::value) {
                bool lt = p < y, gt = p > y, le = p <= y, ge = p >= y;
                v = (int(lt) + int(gt) + int(eq) == 1 && ne == !eq && le == !gt && ge == !lt) ? (lt ? -1 : gt ? 1 : 0) : 9;
            }
            if constexpr (!is_upoly<P>::value) h = hash_value(p) == hash_value(y) && std::hash<P>()(p) == std::hash<P>()(y);
            return report("[" + std::to_string(v) + "," + b(h) + "]"); }
        if (op == "str") { std::ostringstream o; o << p; return report("[" + jtokens(o.str()) + "," + jtokens(p.str()) + "]"); }
        if (op == "strl" || op == "strs") {    // a vector or a set of polynomials of one type
            std::vector<P> v; int n = (int)a.n(); for (int i = 0; i < n; ++i) v.push_back(get(a.s()));
            std::ostringstream o; if (op == "strl") o << v; else if constexpr (!std::is_same<C, Zp>::value) o << std::set<P>(v.begin(), v.end());
            return report("[" + jtokens(o.str()) + "]"); }
        if (op == "query") return report(query());
        if constexpr (is_upoly<P>::value) {
            if (op == "deriv") { auto d = a.s(); return put(d, derivative(p)); }
            if (op == "euler") { auto d = a.s(); P x; if (!p.empty()) x.push_back({umonomial(1), Coef<C>::read(a)}); return put(d, derivative(p) * x); }
            if (op == "assign") { C c = Coef<C>::read(a); return report(Coef<C>::js(assign(p, c))); }
            if (op == "cscale") { auto d = a.s(); C c = Coef<C>::read(a); return put(d, c * p); }
            if constexpr (std::is_same<C, ZZ>::value) {
                if (op == "cont") return report(Coef<C>::js(cont(p)));
                if (op == "assignq") { QQ c = Coef<QQ>::read(a); return report(Coef<QQ>::js(assign<QQ>(p, c))); }
                if (op == "uprem") { auto d = a.s(); auto& y = get(a.s()); bool L = a.n(); P r; upoly_prem(r, p, y, uvar(1), L); return put(d, r); }
            }
        } else {
            if (op == "deriv") { auto d = a.s(); return put(d, derivative(p, uvar(a.n()))); }
            if (op == "euler") { auto d = a.s(); auto v = uvar(a.n()); return put(d, derivative(p, v) * power(v, Coef<C>::read(a))); }
            if (op == "assign") { auto d = a.s(); auto v = uvar(a.n()); C c = Coef<C>::read(a); return put(d, assign(p, v, c)); }
            if (op == "assignm") { auto d = a.s(); int n = (int)a.n(); std::map<variable, C> m;
                for (int i = 0; i < n; ++i) { auto v = uvar(a.n()); m[v] = Coef<C>::read(a); }
                return put(d, assign(p, m)); }
            if constexpr (is_lexo<O>::value) {
            if (op == "prem0") { auto d = a.s(); auto& y = get(a.s()); auto v = uvar(a.n()); bool L = a.n(); P r(p.comp_ptr()); prem(r, p, y, v, L); return put(d, r); }
            if (op == "pquo0") { auto q = a.s(); auto r = a.s(); auto& y = get(a.s()); auto v = uvar(a.n()); bool L = a.n();
                P R(p.comp_ptr()), Q(p.comp_ptr()); pquo(Q, R, p, y, v, L); dest(q, Q) = Q; dest(r, R) = R; return report("0"); }
            }
            if constexpr (!std::is_same<C, Zp>::value) {
            if (op == "prem") { auto d = a.s(); auto& y = get(a.s()); auto v = uvar(a.n()); bool L = a.n(); return put(d, prem(p, y, v, L)); }
            if (op == "pquo") { auto q = a.s(); auto r = a.s(); auto& y = get(a.s()); auto v = uvar(a.n()); bool L = a.n();
                P R(p.comp_ptr()); P Q = pquo(R, p, y, v, L); dest(q, Q) = Q; dest(r, R) = R; return report("0"); }
            if (op == "pquo1") { auto d = a.s(); auto& y = get(a.s()); auto v = uvar(a.n()); bool L = a.n(); return put(d, pquo(p, y, v, L)); }
            if (op == "coeff") { auto v = uvar(a.n()); return report(jpolys(coeff(p, v))); }
            }
            if (op == "lc") { auto d = a.s(); return put(d, leadcoeff(p, uvar(a.n()))); }
            if (op == "qvar") { auto v = uvar(a.n()); return report(jint(down(degree(p, v)))); }
            if constexpr (is_lexo<O>::value) {
                if (op == "first") { auto v = get_first_var(p); auto l = get_last_var_deg(p);
                    return report("[" + jint(Uidx().count(v.serial()) ? uindex(v) : 0) + "," + jint(down(get_first_deg(p))) + "," +
                        jint(Uidx().count(l.first.serial()) ? uindex(l.first) : 0) + "," + jint(down(l.second)) + "]"); }
                if (op == "deriv1") { auto d = a.s(); return put(d, derivative(p)); }
                if (op == "euler1") { auto d = a.s(); C one = Coef<C>::read(a); return put(d, derivative(p) * power(is_number(p) ? uvar(1) : get_first_var(p), one)); }
                if constexpr (std::is_same<C, ZZ>::value)
                    if (op == "lc1") { auto d = a.s(); return put(d, leadcoeff(p)); }
            }
            if constexpr (std::is_same<O, univariate_priority_order>::value) {
                if (op == "coeff1") return report(jpolys(coeff(p)));
                if (op == "updeg") { P o(p.comp_ptr()); auto d = leadcoeff(o, p); return report("[" + jint(down(get_up_deg(p))) + "," + jint(down(d)) + "," + jpoly(o) + "]"); }
            }
            if constexpr (std::is_same<C, ZZ>::value) {
                if (op == "mod") { using Q = polynomial_<Zp, O>; auto d = a.s(); Q q = a.n() ? polynomial_mod(P(p), cur_prime()) : polynomial_mod(p, cur_prime());
                    PV<Q>::dest(d, q) = q; return report("0"); }
                if (op == "assignq") { using Q = polynomial_<QQ, O>; auto d = a.s(); int n = (int)a.n(); std::map<variable, QQ> m;
                    for (int i = 0; i < n; ++i) { auto v = uvar(a.n()); m[v] = Coef<QQ>::read(a); }
                    Q q = assign<QQ>(p, m); PV<Q>::dest(d, q) = q; return report("0"); }
                if (op == "tou") { using Q = upolynomial_<ZZ>; auto d = a.s(); Q q; poly_convert(p, q); PV<Q>::dest(d, q) = q; return report("0"); }
                if (op == "touq") { using Q = upolynomial_<QQ>; auto d = a.s(); Q q; poly_convert(p, q); PV<Q>::dest(d, q) = q; return report("0"); }
            }
            if constexpr (std::is_same<C, QQ>::value)
                if (op == "tou") { using Q = upolynomial_<QQ>; auto d = a.s(); Q q; poly_convert(p, q); PV<Q>::dest(d, q) = q; return report("0"); }
            if constexpr (std::is_same<C, Zp>::value)
                if (op == "tou") { using Q = upolynomial_<Zp>; auto d = a.s(); Q q; poly_convert(p, q); PV<Q>::dest(d, q) = q; return report("0"); }
            if (op == "fromu") { auto& u = PV<upolynomial_<C>>::get(a.s()); auto v = uvar(a.n()); poly_convert(u, p, v); return report("0"); }
            if constexpr (std::is_same<O, grlex>::value) {
                if (op == "addc") { auto d = a.s(); C c = Coef<C>::read(a); return put(d, p + c); }
                if (op == "cadd") { auto d = a.s(); C c = Coef<C>::read(a); return put(d, c + p); }
                if (op == "subc") { auto d = a.s(); C c = Coef<C>::read(a); return put(d, p - c); }
                if (op == "csub") { auto d = a.s(); C c = Coef<C>::read(a); return put(d, c - p); }
                if constexpr (!std::is_same<C, Zp>::value) {
                    if (op == "addi") { auto d = a.s(); int64_t c = a.n(); return put(d, p + c); }
                    if (op == "iadd") { auto d = a.s(); int64_t c = a.n(); return put(d, c + p); }
                    if (op == "subi") { auto d = a.s(); int64_t c = a.n(); return put(d, p - c); }
                    if (op == "isub") { auto d = a.s(); int64_t c = a.n(); return put(d, c - p); }
                    if (op == "addm") { auto d = a.s(); return put(d, p + ReadMono<M>::get(a)); }
                    if (op == "madd") { auto d = a.s(); return put(d, ReadMono<M>::get(a) + p); }
                    if (op == "subm") { auto d = a.s(); return put(d, p - ReadMono<M>::get(a)); }
                    if (op == "msub") { auto d = a.s(); return put(d, ReadMono<M>::get(a) - p); }
                }
            }
        }
        throw Script("operation " + op + " on " + PVname<P>::n);
    }
    P power(const variable& v, const C& one) {          // the variable as a polynomial
        P x(p.comp_ptr());
        if constexpr (!is_upoly<P>::value) { M m(p.comp_ptr()); m.push_back({v, 1}); x.push_back({m, one}); }
        return x;
    }
    std::string query() {
        bool isn = is_number(p);
        std::string o = "{\"deg\":" + jint(down(degree(p))) + ",\"deg2\":" + jint(down(p.degree())) + ",\"size\":" + jint((long long)p.size()) + ",\"empty\":" + b(p.empty()) +
            ",\"zc\":" + b(zore_check<P>()(p)) + ",\"num\":" + b(isn);
        if constexpr (!is_upoly<P>::value) {
            o += ",\"vars\":" + jlist(p.variables(), [](const auto& x) { return "[" + jint(uindex(x.first)) + "," + jint(down(x.second)) + "]"; });
            o += ",\"vars2\":" + jlist(get_variables(std::vector<P>{p, p}), [](const auto& x) { return "[" + jint(uindex(x.first)) + "," + jint(down(x.second)) + "]"; });
            o += ",\"degs\":" + jlist(U(), [&](const variable& v) { return jint(down(degree(p, v))); });
            if constexpr (!std::is_same<C, Zp>::value) o += ",\"n\":" + (isn ? Coef<C>::js(tonum(p)) : std::string("[]"));
        }
        return o + "}";
    }
};

// each type's operations are compiled in one translation unit only
#define VD_SIX(K, C) K template struct PV<polynomial_<C>>; K template struct PV<polynomial_<C, lex>>; K template struct PV<upolynomial_<C>>; \
    K template struct PV<polynomial_<C, univariate_priority_order>>; K template struct PV<polynomial_<C, lex_<custom_var_order>>>; K template struct PV<polynomial_<C, grlex_<custom_var_order>>>;
VD_SIX(extern, ZZ) VD_SIX(extern, QQ) VD_SIX(extern, Zp)
template <class P> void register_type(const std::string& name) {
    PVname<P>::n = name;
    makers()[name] = [](const std::string& ord) -> Obj* { return new PV<P>(order_of<typename P::compare_type>(ord)); };
}
template <class From, class To> void register_conv() {
    convs()[{PVname<From>::n, PVname<To>::n}] = [](Obj& to, Obj& from, bool mv) {
        auto& t = dynamic_cast<PV<To>&>(to).p; auto& f = dynamic_cast<PV<From>&>(from).p;
        if (mv) { From c(f); poly_convert(std::move(c), t); } else poly_convert(f, t);
    };
}
template <class C, class... Os> struct AllConv {
    template <class O1> static void from() { (register_conv<polynomial_<C, O1>, polynomial_<C, Os>>(), ...); }
    static void all() { (from<Os>(), ...); }
};
} // namespace vd
#endif
