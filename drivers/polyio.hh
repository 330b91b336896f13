// Reading and projecting polynomials: shared by all drivers above the number layer.
#ifndef POLYIO_HH
#define POLYIO_HH
#include "vdrv.hh"
#include <clpoly/clpoly.hh>
namespace vd {
using namespace clpoly;

// the case's variable universe: index (1-based) <-> variable
inline std::vector<variable>& U() { static std::vector<variable> v; return v; }
inline std::map<std::size_t, int>& Uidx() { static std::map<std::size_t, int> m; return m; }
inline void set_universe(const std::vector<std::string>& names) {
    U().clear(); Uidx().clear();
    for (auto& n : names) { U().push_back(variable::get_variable(n)); Uidx()[U().back().serial()] = (int)U().size(); }
}
inline variable uvar(long long i) { if (i < 1 || i > (long long)U().size()) throw Script("variable index"); return U()[i - 1]; }
inline int uindex(const variable& v) {
    auto it = Uidx().find(v.serial());
    if (it == Uidx().end()) throw Bad("foreign variable " + v.name());
    return it->second;
}
// registered once: the serial order of v1, v2, ... is their index order
inline void create_variables(int n) { for (int i = 1; i <= n; ++i) variable::get_variable("v" + std::to_string(i)); }

// coefficients
inline uint64_t& cur_prime() { static uint64_t p = 0; return p; }
inline std::string text(const ZZ& z) { std::ostringstream o; o << z; return o.str(); }
template <class T> struct Coef;
template <> struct Coef<ZZ> {
    static ZZ read(Args& a) { return ZZ(a.s()); }
    static std::string js(const ZZ& z) { return jdec(text(z)); }
};
template <> struct Coef<QQ> {
    static QQ read(Args& a) {
        const std::string& t = a.s(); auto p = t.find('/');
        return p == std::string::npos ? QQ(ZZ(t)) : QQ(ZZ(t.substr(0, p)), ZZ(t.substr(p + 1)));
    }
    static std::string js(const QQ& q) {
        return "[" + jdec(text(q.get_num())) + "," + jdec(text(q.get_den())) + "]";
    }
};
template <> struct Coef<Zp> {
    static Zp read(Args& a) { return Zp(ZZ(a.s()), cur_prime()); }
    static std::string js(const Zp& z) {
        if (z.prime() != cur_prime()) throw Bad("prime " + std::to_string(z.prime()));
        return jdec(std::to_string(z.number()));
    }
};

// exponent scale: the objects under test hold x_i^(S e) wherever commands and projections say x_i^e
inline long long& escale() { static long long s = 1; return s; }
inline long long down(long long e) { if (escale() == 1) return e; if (e % escale()) throw Bad("exponent is no multiple of the scale"); return e / escale(); }

// monomials, projected on the universe (dense exponent vector)
template <class M> std::string jexps(const M& m) {
    std::vector<long long> e(U().size(), 0);
    std::vector<bool> seen(U().size(), false);
    long long s = 0; bool first = true; variable prev;
    for (auto& i : m) {
        int k = uindex(i.first) - 1;
        if (seen[k]) throw Bad("variable twice in a monomial");
        if (i.second == 0) throw Bad("zero exponent");
        if (!first && !m.comp(prev, i.first)) throw Bad("variables of a monomial out of order");
        first = false; prev = i.first;
        seen[k] = true; e[k] = down(i.second); s += i.second;
    }
    if (m.deg() != s) throw Bad("degree field");
    return jlist(e, [](long long x) { return jint(x); });
}
inline std::string jexps(const umonomial& m) { return "[" + jint(down(m.deg())) + "]"; }

// lexical structure of printed text: numbers, names (as variable indices), single characters
inline std::string jtokens(const std::string& s) {
    std::string o = "["; bool first = true;
    for (size_t i = 0; i < s.size();) {
        if (!first) o += ","; first = false;
        if (isdigit((unsigned char)s[i])) { size_t j = i; while (j < s.size() && isdigit((unsigned char)s[j])) ++j;
            if (escale() > 1 && i && s[i - 1] == '^') {          // an exponent of p(x^S)
                if (j - i > 18) throw Bad("exponent " + s.substr(i, j - i));
                o += "[\"n\"," + jdec(std::to_string(down(std::stoll(s.substr(i, j - i))))) + "]"; i = j; continue; }
            o += "[\"n\"," + jdec(s.substr(i, j - i)) + "]"; i = j; }
        else if (isalpha((unsigned char)s[i]) || s[i] == '_' || s[i] == '#') {
            size_t j = i; if (s[i] == '#') ++j; while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '_')) ++j;
            std::string n = s.substr(i, j - i); i = j; int k = 0;
            if (n == "#") k = 1;                                // the indeterminate of a univariate polynomial
            else for (size_t q = 0; q < U().size(); ++q) if (U()[q].name() == n) k = (int)q + 1;
            if (!k) throw Bad("unknown name " + n);
            if (escale() > 1 && (i >= s.size() || s[i] != '^')) throw Bad("exponent is no multiple of the scale");
            o += "[\"v\"," + std::to_string(k) + "]"; }
        else { o += "[\"o\"," + jstr(s.substr(i, 1)) + "]"; ++i; }
    }
    return o + "]";
}
template <class P> std::string jpoly(const P& p) {       // terms in stored order
    using C = typename P::coeff_type;
    return jlist(p, [&](const auto& t) {
        return "[" + jexps(t.first) + "," + Coef<C>::js(t.second) + "]";
    });
}
template <class P> std::string jpolys(const std::vector<P>& v) { return jlist(v, [](const P& p) { return jpoly(p); }); }

// term list:  count, then per term: (k var exp ... | u: exp) coefficient
template <class M> struct ReadMono {
    static M get(Args& a) {
        int k = (int)a.n(); std::vector<std::pair<variable, int64_t>> v;
        for (int i = 0; i < k; ++i) { auto x = uvar(a.n()); v.emplace_back(x, a.n() * escale()); }
        return M(v);
    }
    template <class C> static M get(Args& a, const C* c) {
        M m = M(c); int k = (int)a.n(); std::vector<std::pair<variable, int64_t>> v;
        for (int i = 0; i < k; ++i) { auto x = uvar(a.n()); v.emplace_back(x, a.n() * escale()); }
        m = v;
        return m;
    }
};
template <> struct ReadMono<umonomial> {
    static umonomial get(Args& a) { return umonomial(a.n() * escale()); }
    template <class C> static umonomial get(Args& a, const C*) { return umonomial(a.n() * escale()); }
};
template <class P> std::vector<std::pair<typename P::monomial_type, typename P::coeff_type>>
read_terms(Args& a, const typename P::compare_type* c) {
    std::vector<std::pair<typename P::monomial_type, typename P::coeff_type>> v;
    int n = (int)a.n();
    for (int i = 0; i < n; ++i) {
        auto m = ReadMono<typename P::monomial_type>::get(a, c);
        v.emplace_back(std::move(m), Coef<typename P::coeff_type>::read(a));
    }
    return v;
}
template <class P> P read_poly(Args& a, const typename P::compare_type* c = &P::compare_type::init) {
    P p(c);
    p.data() = read_terms<P>(a, c);
    p.normalization();
    return p;
}
} // namespace vd
#endif
