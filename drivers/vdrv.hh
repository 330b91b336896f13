// Common infrastructure of the conformance drivers.
//
// A driver reads a command file (one command per line, blank-separated tokens, the first
// token is the command's index) and executes it on the real library.  For every command it
// prints one line:   <index> <status> <json>
//   status ok  : the call returned; <json> is the projected result
//   status exc : the call threw a C++ exception; <json> is a string
//   status bad : the driver could not project the result to an abstract value
// A crash or a hang ends the process; the runner records it and restarts after that case.
#ifndef VDRV_HH
#define VDRV_HH
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>

namespace vd {

struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };
struct Script : std::runtime_error { using std::runtime_error::runtime_error; };  // error in the command file itself

// ---- randomness under the control of the command file -----------------------------------
inline uint64_t& rng_state() { static uint64_t s = 0x9E3779B97F4A7C15ull; return s; }
inline uint64_t rng_next() {            // splitmix64
    uint64_t z = (rng_state() += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline void rng_seed(uint64_t s) { rng_state() = s * 0xD1342543DE82EF95ull + 0x632BE59BD9B4E019ull; }
// odd case seeds: draws from an interval favour its ends (every value remains a possible draw)
inline int& draw_mode() { static int m = 0; return m; }
template <class T> T draw(T a, T b) {
    uint64_t n = (uint64_t)b - (uint64_t)a;                 // number of values - 1
    if (draw_mode()) {
        uint64_t k = rng_next();
        if ((k & 3) == 0) return (T)(a + std::min<uint64_t>(n, (k >> 8) % 6));
        if ((k & 15) == 1) return (T)(b - std::min<uint64_t>(n, (k >> 8) % 3));
    }
    uint64_t x = rng_next();
    return n == UINT64_MAX ? (T)x : (T)(a + (T)(x % (n + 1)));
}

} // namespace vd
namespace std {
#define VD_UNIFORM(T) \
template <> class uniform_int_distribution<T> { T _a, _b; public: using result_type = T; \
    uniform_int_distribution() : _a(0), _b(numeric_limits<T>::max()) {} explicit uniform_int_distribution(T a, T b = numeric_limits<T>::max()) : _a(a), _b(b) {} \
    T a() const { return _a; } T b() const { return _b; } T min() const { return _a; } T max() const { return _b; } void reset() {} \
    template <class G> T operator()(G&) { return vd::draw<T>(_a, _b); } };
VD_UNIFORM(unsigned long) VD_UNIFORM(int)
}
namespace vd {
// ---- tokens ------------------------------------------------------------------------------
struct Args {
    std::vector<std::string> t; size_t i = 0;
    bool more() const { return i < t.size(); }
    const std::string& s() { if (i >= t.size()) throw Script("missing token"); return t[i++]; }
    long long n() { return std::stoll(s()); }
    unsigned long long u() { return std::stoull(s()); }
};

// ---- json --------------------------------------------------------------------------------
inline std::string jstr(const std::string& x) {
    std::string o = "\"";
    for (unsigned char c : x) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}
// decimal text -> [sign, base-10000 digits, least significant first]
inline std::string jdec(std::string d) {
    int s = 1; size_t p = 0;
    if (!d.empty() && (d[0] == '-' || d[0] == '+')) { if (d[0] == '-') s = -1; p = 1; }
    if (p >= d.size()) throw Bad("empty number");
    for (size_t k = p; k < d.size(); ++k) if (d[k] < '0' || d[k] > '9') throw Bad("not a number: " + d);
    while (p + 1 < d.size() && d[p] == '0') ++p;
    d = d.substr(p);
    if (d == "0") return "[0]";
    std::string o = "["; o += (s < 0 ? "-1" : "1");
    for (size_t e = d.size(); e > 0;) {
        size_t b = e >= 4 ? e - 4 : 0;
        o += ","; o += std::to_string(std::stoi(d.substr(b, e - b)));
        e = b;
    }
    return o + "]";
}
inline std::string jbool(bool b) { return b ? "true" : "false"; }
template <class It, class F> std::string jlist(It b, It e, F f) {
    std::string o = "["; bool first = true;
    for (; b != e; ++b) { if (!first) o += ","; first = false; o += f(*b); }
    return o + "]";
}
template <class C, class F> std::string jlist(const C& c, F f) { return jlist(c.begin(), c.end(), f); }
inline std::string jint(long long n) {          // must fit TLC's 32-bit integers
    if (n > 2000000000ll || n < -2000000000ll) throw Bad("integer out of range: " + std::to_string(n));
    return std::to_string(n);
}

// ---- storage in use (sanitizer builds)
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
inline std::string heap_bytes() { return __sanitizer_get_current_allocated_bytes ? jint((long long)__sanitizer_get_current_allocated_bytes()) : "0"; }

// ---- main loop ---------------------------------------------------------------------------
using Handler = std::function<std::string(Args&)>;
inline std::map<std::string, Handler>& table() { static std::map<std::string, Handler> t; return t; }
struct Reg { Reg(const char* n, Handler h) { table()[n] = std::move(h); } };
#define VD_CAT2(a, b) a##b
#define VD_CAT(a, b) VD_CAT2(a, b)
#define OP_(name, id) static std::string VD_CAT(vd_h_, id)(vd::Args& a); \
    static vd::Reg VD_CAT(vd_r_, id)(name, VD_CAT(vd_h_, id)); \
    static std::string VD_CAT(vd_h_, id)(vd::Args& a)
#define OP(name) OP_(name, __COUNTER__)

inline const char*& cur_idx() { static const char* p = ""; return p; }
inline void on_alarm(int) {
    const char m[] = " hang \"time limit\"\n";
    (void)!write(1, cur_idx(), strlen(cur_idx())); (void)!write(1, m, sizeof m - 1); _exit(41);
}
inline int run(int argc, char** argv, std::function<void()> reset) {
    if (argc < 2) { std::cerr << "usage: driver commands [limit_s]\n"; return 2; }
    int limit = argc > 2 ? std::atoi(argv[2]) : 60;
    std::ifstream in(argv[1]);
    if (!in) { std::cerr << "cannot read " << argv[1] << "\n"; return 2; }
    signal(SIGVTALRM, on_alarm);
    std::string line, out; line.reserve(1 << 20);
    while (std::getline(in, line)) {
        std::istringstream ss(line); Args a; std::string tok, idx, op;
        if (!(ss >> idx >> op)) continue;
        while (ss >> tok) a.t.push_back(tok);
        cur_idx() = idx.c_str();
        struct itimerval tv = {{0, 0}, {limit, 0}};
        setitimer(ITIMER_VIRTUAL, &tv, nullptr);
        std::string st = "ok", r;
        try {
            if (op == "case") { uint64_t sd = a.u(); rng_seed(sd); draw_mode() = (int)(sd & 1); reset(); r = "0"; }
            else if (op == "heap") {
                rng_seed(a.u()); reset();
                std::istringstream().swap(ss); std::vector<std::string>().swap(a.t); std::string().swap(tok); std::string().swap(out);
                r = heap_bytes();
            }
            else if (op == "seed") { rng_seed(a.u()); r = "0"; }
            else {
                auto it = table().find(op);
                if (it == table().end()) { std::cerr << "unknown op " << op << "\n"; return 3; }
                r = it->second(a);
            }
        }
        catch (const Script& e) { std::cerr << "script error at " << line << ": " << e.what() << "\n"; return 3; }
        catch (const Bad& e) { st = "bad"; r = jstr(e.what()); }
        catch (const std::exception& e) { st = "exc"; r = jstr(e.what()); }
        out = idx + " " + st + " " + r + "\n";
        if (fwrite(out.data(), 1, out.size(), stdout) != out.size()) return 4;
        fflush(stdout);
    }
    printf("end\n"); fflush(stdout);
    return 0;
}
} // namespace vd

// Every source of randomness used by the library, replaced by the seeded generator above, so
// that a history is reproducible and "all random draws" can be explored by seed.
#ifdef VD_MAIN
extern "C" int rand(void) noexcept { return (int)(vd::rng_next() >> 33); }
extern "C" void srand(unsigned) noexcept {}
namespace std {
random_device::result_type random_device::_M_getval() { return (random_device::result_type)(vd::rng_next() >> 32); }
}
#endif
#endif
