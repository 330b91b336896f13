// Driver: ZZ, QQ, Zp.  Registers hold one object each; every line reports all registers.
#define VD_MAIN
#include "vdrv.hh"
#include <clpoly/clpoly.hh>
using namespace clpoly; using namespace vd;

static std::map<std::string, ZZ> Z;
static std::map<std::string, QQ> Q;
static std::string J(const ZZ& z) { std::ostringstream o; o << z; return jdec(o.str()); }
static std::string J(const QQ& q) { return "[" + J(q.num()) + "," + J(q.den()) + "]"; }
static std::string state(const std::string& v) {
    std::string o = "{\"v\":" + v + ",\"st\":[";
    bool f = true;
    for (auto& p : Z) { if (!f) o += ","; f = false; o += "[" + jstr(p.first) + "," + J(p.second) + "]"; }
    for (auto& p : Q) { if (!f) o += ","; f = false; o += "[" + jstr(p.first) + "," + J(p.second) + "]"; }
    return o + "]}";
}
static ZZ& z(Args& a) { auto& n = a.s(); auto it = Z.find(n); if (it == Z.end()) throw Bad("no ZZ " + n); return it->second; }
static ZZ& zd(Args& a) { return Z[a.s()]; }                      // destination (default constructed if new)
static QQ& q(Args& a) { auto& n = a.s(); auto it = Q.find(n); if (it == Q.end()) throw Bad("no QQ " + n); return it->second; }
static QQ& qd(Args& a) { return Q[a.s()]; }
static void reset() { Z.clear(); Q.clear(); }
static std::string T(const std::string& s) { std::string o; for (char c : s) if (c != '_') o += c; return o; }

// --- construction
OP("zz.str")   { auto n = a.s(); Z.insert_or_assign(n, ZZ(a.s())); return state("0"); }
OP("zz.sstr")  { auto& d = zd(a); std::istringstream s(a.s()); s >> d; return state("0"); }
OP("zz.i")     { auto n = a.s(); auto k = a.s(); auto v = a.s();
    if (k == "int") Z.insert_or_assign(n, ZZ((int)std::stol(v)));
    else if (k == "uint") Z.insert_or_assign(n, ZZ((unsigned)std::stoul(v)));
    else if (k == "long") Z.insert_or_assign(n, ZZ((long)std::stol(v)));
    else if (k == "ulong") Z.insert_or_assign(n, ZZ((unsigned long)std::stoul(v)));
    else if (k == "ll") Z.insert_or_assign(n, ZZ((long long)std::stoll(v)));
    else if (k == "ull") Z.insert_or_assign(n, ZZ((unsigned long long)std::stoull(v)));
    else throw Script("kind"); return state("0"); }
OP("zz.seti")  { auto& d = zd(a); auto k = a.s(); auto v = a.s();
    if (k == "int") d = (int)std::stol(v);
    else if (k == "uint") d = (unsigned)std::stoul(v);
    else if (k == "long") d = (long)std::stol(v);
    else if (k == "ulong") d = (unsigned long)std::stoul(v);
    else if (k == "ll") d = (long long)std::stoll(v);
    else if (k == "ull") d = (unsigned long long)std::stoull(v);
    else throw Script("kind"); return state("0"); }
OP("zz.mpz")   { auto n = a.s(); mpz_t m; mpz_init_set_str(m, a.s().c_str(), 10); ZZ t((mpz_srcptr)m); mpz_clear(m); Z.insert_or_assign(n, t); return state("0"); }
OP("zz.copy")  { auto n = a.s(); ZZ& x = z(a); Z.insert_or_assign(n, x); return state("0"); }
OP("zz.ctor")  { auto n = a.s(); ZZ t(z(a)); Z.erase(n); Z.emplace(n, t); return state("0"); }
OP("zz.asg")   { auto& d = zd(a); d = z(a); return state("0"); }
OP("zz.move")  { auto& d = zd(a); auto& n = a.s(); d = std::move(Z.at(n)); if (&d != &Z.at(n)) Z.erase(n); return state("0"); }
OP("zz.mctor") { auto n = a.s(); auto m = a.s(); ZZ t(std::move(Z.at(m))); Z.erase(m); Z.erase(n); Z.emplace(n, std::move(t)); return state("0"); }
OP("zz.swap")  { auto& x = z(a); auto& y = z(a); if (a.more()) swap(x, y); else x.swap(y); return state("0"); }
// --- functional (d = x op y, d may alias)
#define BIN(NAME, EXPR) OP(NAME) { auto& d = zd(a); auto& x = z(a); auto& y = z(a); d = (EXPR); return state("0"); }
BIN("zz.add", x + y)  BIN("zz.sub", x - y)
BIN("zz.mul", x * y)
BIN("zz.gcd", gcd(x, y))
BIN("zz.lcm", lcm(x, y))
OP("zz.quo")   { auto n = a.s(); auto& x = z(a); auto& y = z(a); ZZ t = x / y; Z.insert_or_assign(n, t); return state("0"); }
OP("zz.rem")   { auto n = a.s(); auto& x = z(a); auto& y = z(a); ZZ t = x % y; Z.insert_or_assign(n, t); return state("0"); }
OP("zz.neg")   { auto& d = zd(a); auto& x = z(a); d = -x; return state("0"); }
OP("zz.abs")   { auto& d = zd(a); auto& x = z(a); d = abs(x); return state("0"); }
OP("zz.pow")   { auto& d = zd(a); auto& x = z(a); d = pow(x, (uint64_t)a.u()); return state("0"); }
OP("zz.shl")   { auto& d = zd(a); auto& x = z(a); d = x << (unsigned long)a.u(); return state("0"); }
OP("zz.shr")   { auto& d = zd(a); auto& x = z(a); d = x >> (unsigned long)a.u(); return state("0"); }
OP("zz.mshl")  { auto& d = zd(a); ZZ t(z(a)); d = std::move(t) << (unsigned long)a.u(); return state("0"); }
OP("zz.mshr")  { auto& d = zd(a); ZZ t(z(a)); d = std::move(t) >> (unsigned long)a.u(); return state("0"); }
// --- compound
OP("zz.iadd")  { auto& d = z(a); d += z(a); return state("0"); }
OP("zz.isub")  { auto& d = z(a); d -= z(a); return state("0"); }
OP("zz.imul")  { auto& d = z(a); d *= z(a); return state("0"); }
OP("zz.iquo")  { auto& d = z(a); d /= z(a); return state("0"); }
OP("zz.irem")  { auto& d = z(a); d %= z(a); return state("0"); }
OP("zz.ishl")  { auto& d = z(a); d <<= (unsigned long)a.u(); return state("0"); }
OP("zz.ishr")  { auto& d = z(a); d >>= (unsigned long)a.u(); return state("0"); }
OP("zz.addmul"){ auto& d = z(a); auto& x = z(a); auto& y = z(a); d.addmul(x, y); return state("0"); }
OP("zz.submul"){ auto& d = z(a); auto& x = z(a); auto& y = z(a); d.submul(x, y); return state("0"); }
OP("zz.taddmul"){ auto& d = z(a); auto& x = z(a); auto& y = z(a); addmul(d, x, y); return state("0"); }
OP("zz.tsubmul"){ auto& d = z(a); auto& x = z(a); auto& y = z(a); submul(d, x, y); return state("0"); }
OP("zz.fdivq") { auto& d = zd(a); auto& x = z(a); auto& y = z(a); ZZ::fdiv_q(d, x, y); return state("0"); }
OP("zz.fdivr") { auto& d = zd(a); auto& x = z(a); auto& y = z(a); ZZ::fdiv_r(d, x, y); return state("0"); }
OP("zz.fdivqr"){ auto& d = zd(a); auto& r = zd(a); auto& x = z(a); auto& y = z(a); ZZ::fdiv_qr(d, r, x, y); return state("0"); }
OP("zz.setzero"){ auto& d = z(a); set_zero(d); return state("0"); }
OP("zz.invert"){ auto n = a.s(); auto& x = z(a); auto& m = z(a); ZZ t; bool ok = ZZ::invert(t, x, m); if (ok) Z.insert_or_assign(n, t); return state(jbool(ok)); }
// --- queries
static std::string i3(bool lt, bool eq, bool gt) { return lt ? "-1" : gt ? "1" : eq ? "0" : "9"; }
OP("zz.cmp")   { auto& x = z(a); auto& y = z(a);
    // all six operators must be consistent; 9 marks an inconsistent answer
    bool lt = x < y, gt = x > y, eq = x == y, ne = x != y, le = x <= y, ge = x >= y;
    std::string v = (int(lt) + int(gt) + int(eq) == 1 && ne == !eq && le == !gt && ge == !lt) ? i3(lt, eq, gt) : "9";
    bool h = x.hash() == y.hash() && std::hash<ZZ>{}(x) == std::hash<ZZ>{}(y) && hash_value(x) == hash_value(y);
    return state("[" + v + "," + jbool(h) + "]"); }
OP("zz.query") { auto& x = z(a);
    return state("{\"sgn\":" + jint(x.sgn()) + ",\"sgn2\":" + jint(sgn(x)) + ",\"zero\":" + jbool(x.is_zero()) + ",\"one\":" + jbool(x.is_one()) +
        ",\"odd\":" + jbool(x.is_odd()) + ",\"bool\":" + jbool(bool(x)) + ",\"bits\":" + jint((long long)x.sizeinbase(2)) + ",\"zc\":" + jbool(zore_check<ZZ>()(x)) + "}"); }
OP("zz.fdivui"){ auto& x = z(a); uint64_t d = a.u(); return state(jdec(std::to_string(x.fdiv_ui(d)))); }
OP("zz.getsi") { auto& x = z(a); return state(jdec(std::to_string(x.get_si()))); }

// --- QQ
OP("qq.mk")    { auto n = a.s(); auto& x = z(a); auto& y = z(a); QQ t(x, y); Q.insert_or_assign(n, t); return state("0"); }
OP("qq.ll")    { auto n = a.s(); long long x = a.n(), y = a.n(); QQ t(x, y); Q.insert_or_assign(n, t); return state("0"); }
OP("qq.zz")    { auto n = a.s(); QQ t(z(a)); Q.insert_or_assign(n, t); return state("0"); }
OP("qq.i")     { auto n = a.s(); auto k = a.s(); auto v = a.s();
    if (k == "int") Q.insert_or_assign(n, QQ((int)std::stol(v))); else if (k == "long") Q.insert_or_assign(n, QQ((long)std::stol(v)));
    else Q.insert_or_assign(n, QQ((long long)std::stoll(v))); return state("0"); }
OP("qq.seti")  { auto& d = qd(a); d = (long long)a.n(); return state("0"); }
OP("qq.sstr")  { auto& d = qd(a); std::istringstream s(a.s()); s >> d; return state("0"); }
OP("qq.asg")   { auto& d = qd(a); d = q(a); return state("0"); }
OP("qq.copy")  { auto n = a.s(); QQ t(q(a)); Q.insert_or_assign(n, t); return state("0"); }
OP("qq.move")  { auto& d = qd(a); auto& n = a.s(); d = std::move(Q.at(n)); if (&d != &Q.at(n)) Q.erase(n); return state("0"); }
OP("qq.swap")  { auto& x = q(a); auto& y = q(a); if (a.more()) swap(x, y); else x.swap(y); return state("0"); }
#define QBIN(NAME, EXPR) OP(NAME) { auto& d = qd(a); auto& x = q(a); auto& y = q(a); d = (EXPR); return state("0"); }
QBIN("qq.add", x + y)
QBIN("qq.sub", x - y)
QBIN("qq.mul", x * y)
OP("qq.quo")   { auto n = a.s(); auto& x = q(a); auto& y = q(a); QQ t = x / y; Q.insert_or_assign(n, t); return state("0"); }
OP("qq.neg")   { auto& d = qd(a); d = -q(a); return state("0"); }
OP("qq.abs")   { auto& d = qd(a); d = abs(q(a)); return state("0"); }
OP("qq.pow")   { auto& d = qd(a); auto& x = q(a); d = pow(x, (uint64_t)a.u()); return state("0"); }
OP("qq.iadd")  { auto& d = q(a); d += q(a); return state("0"); }
OP("qq.isub")  { auto& d = q(a); d -= q(a); return state("0"); }
OP("qq.imul")  { auto& d = q(a); d *= q(a); return state("0"); }
OP("qq.iquo")  { auto& d = q(a); d /= q(a); return state("0"); }
OP("qq.canon") { auto& d = q(a); d.canonicalize(); return state("0"); }
OP("qq.divzz") { auto& d = qd(a); auto& x = z(a); auto& y = z(a); __div(d, x, y); return state("0"); }
OP("qq.cmp")   { auto& x = q(a); auto& y = q(a);
    bool lt = x < y, gt = x > y, eq = x == y, ne = x != y, le = x <= y, ge = x >= y;
    std::string v = (int(lt) + int(gt) + int(eq) == 1 && ne == !eq && le == !gt && ge == !lt) ? i3(lt, eq, gt) : "9";
    bool h = x.hash() == y.hash() && std::hash<QQ>{}(x) == std::hash<QQ>{}(y) && hash_value(x) == hash_value(y);
    return state("[" + v + "," + jbool(h) + "]"); }
OP("qq.query") { auto& x = q(a); std::ostringstream o; o << x; std::string s = o.str(); auto p = s.find('/');
    std::string t = p == std::string::npos ? "[" + jdec(s) + "]" : "[" + jdec(s.substr(0, p)) + "," + jdec(s.substr(p + 1)) + "]";
    return state("{\"sgn\":" + jint(sgn(x)) + ",\"zero\":" + jbool(x.is_zero()) + ",\"bool\":" + jbool(bool(x)) + ",\"zc\":" + jbool(zore_check<QQ>()(x)) +
        ",\"n\":" + J(x.get_num()) + ",\"d\":" + J(x.get_den()) + ",\"text\":" + t + "}"); }

// --- Zp: stateless calls  (zp.<op> p x y ; x,y integers of any size)
static std::string JU(uint64_t v) { return jdec(std::to_string(v)); }
static std::string J(const Zp& v) { return "[" + JU(v.number()) + "," + JU(v.prime()) + "]"; }
static Zp zp(Args& a, uint64_t p) {
    auto k = a.s(); auto v = a.s();
    if (k == "zz") return Zp(ZZ(v), p);
    if (k == "u") return Zp((uint64_t)std::stoull(v), p);
    if (k == "i") return Zp((int64_t)std::stoll(v), p);
    if (k == "int") return Zp((int)std::stol(v), p);
    if (k == "asgi") { Zp t(p); t = (int64_t)std::stoll(v); return t; }
    if (k == "asgz") { Zp t(p); t = ZZ(v); return t; }
    throw Script("zp kind " + k);
}
OP("zp.all")   { // every binary and unary operation on one operand pair
    uint64_t p = a.u(); Zp x = zp(a, p), y = zp(a, p); long long n = a.n(); long long e = a.n();
    auto o = std::string("{\"x\":") + J(x) + ",\"y\":" + J(y) + ",\"add\":" + J(x + y) + ",\"sub\":" + J(x - y) + ",\"mul\":" + J(x * y) + ",\"neg\":" + J(-x) +
        ",\"muli\":" + J(x * (int64_t)n) + ",\"imul2\":" + J((int64_t)n * x) + ",\"pow\":" + J(pow(x, e));
    Zp t = x; t += y; o += ",\"iadd\":" + J(t); t = x; t -= y; o += ",\"isub\":" + J(t); t = x; t *= y; o += ",\"imul\":" + J(t);
    t = x; t += t; o += ",\"dbl\":" + J(t); t = x; t -= t; o += ",\"self0\":" + J(t); t = x; t *= t; o += ",\"sqr\":" + J(t);
    { Zp w = x; addmul(w, x, y); o += ",\"addmul\":" + J(w); w = x; submul(w, x, y); o += ",\"submul\":" + J(w); }
    if (y.number()) { o += ",\"div\":" + J(x / y) + ",\"inv\":" + J(y.inv()); t = x; t /= y; o += ",\"idiv\":" + J(t); }
    else o += ",\"div\":[],\"inv\":[],\"idiv\":[]";
    o += ",\"eq\":" + jbool(x == y) + ",\"ne\":" + jbool(x != y) + ",\"eqi\":" + jbool(x == (int64_t)n) + ",\"eqi2\":" + jbool((int64_t)n == x) +
        ",\"nei\":" + jbool(x != (int64_t)n) + ",\"nei2\":" + jbool((int64_t)n != x) + ",\"gei\":" + jbool(x >= (int64_t)n) + ",\"bool\":" + jbool(bool(x)) + ",\"zc\":" + jbool(zore_check<Zp>()(x)) + ",\"u\":" + JU((uint64_t)x);
    std::ostringstream s; s << x; o += ",\"text\":" + jdec(s.str());
    o += ",\"hash\":" + jbool(hash_value(x) == hash_value(Zp((uint64_t)x.number(), p)));
    return o + "}"; }
int main(int argc, char** argv) { return run(argc, argv, reset); }
