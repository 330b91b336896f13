// Graphs of variables, chordality, elimination (C22)
#define VD_MAIN
#include "polyio.hh"
#include <clpoly/associatedgraph.hh>
#include <cmath>
using namespace vd;

// nodes are numbered in commands and projections; the graph under test has nodes of type T
template <class T> struct Lab;
template <> struct Lab<int> { static int of(int k) { return 13 * k - 40; } static int to(int x) { if ((x + 40) % 13) throw Bad("foreign node"); return (x + 40) / 13; } };
template <> struct Lab<std::string> { static std::string of(int k) { return "n" + std::to_string(k); } static int to(const std::string& s) { if (s.size() < 2 || s[0] != 'n') throw Bad("foreign node"); return std::stoi(s.substr(1)); } };
template <> struct Lab<variable> { static variable of(int k) { return uvar(k); } static int to(const variable& v) { return uindex(v); } };

template <class T> struct M {
    using G = graph<T>;
    static G* reg() { static G g[4]; return g; }
    static std::string label(const T& x) { return jint(Lab<T>::to(x)); }
    static std::string list(const std::vector<T>& l) { return jlist(l, label); }
    static std::vector<T> read(Args& a) { int n = (int)a.n(); std::vector<T> l; for (int i = 0; i < n; ++i) l.push_back(Lab<T>::of((int)a.n())); return l; }
    static std::string show(const G& g) {
        size_t n = g.size();
        if (g.nodes().size() != n || g.mnode().size() != n || g.adjacency_list().size() != n) throw Bad("parts of a graph disagree on its size");
        for (size_t i = 0; i < n; ++i) {
            const T& x = g.node(i);
            if (!(x == g.nodes()[i]) || g.index(x) != i || g.mnode().at(x) != i) throw Bad("index and node disagree");
            if (&g.neighborhood_index(x) != &g.adjacency_list()[i] && g.neighborhood_index(x) != g.adjacency_list()[i]) throw Bad("neighbours disagree");
            for (auto j : g.adjacency_list()[i]) if (j >= n) throw Bad("neighbour index");
            for (size_t j = 0; j < n; ++j) {
                bool e = g.adjacency_list()[i].count(j);
                if (g.is_edge((uint64_t)i, (uint64_t)j) != e || g.is_edge(x, g.node(j)) != e) throw Bad("is_edge disagrees with the adjacency");
            }
        }
        return "[" + list(g.nodes()) + "," + jlist(g.adjacency_list(), [&](const std::set<uint64_t>& s) { return jlist(s, [&](uint64_t j) { return label(g.node(j)); }); }) + "]";
    }
    static std::string op(const std::string& o, Args& a) {
        if (o == "clear") { reg()[a.n()] = G(); return "0"; }
        if (o == "copy") { int d = (int)a.n(); reg()[d] = reg()[a.n()]; return "0"; }
        G& g = reg()[a.n()];
        if (o == "node") { g.add_node(Lab<T>::of((int)a.n())); return "0"; }
        if (o == "edge") {                              // how: by node, by index (both spellings)
            int how = (int)a.n(); T x = Lab<T>::of((int)a.n()), y = Lab<T>::of((int)a.n()); bool d = a.n();
            if (how == 0) { if (d) g.add_edge(x, y, true); else g.add_edge(x, y); }
            else if (how == 1) { uint64_t i = g.index(x), j = g.index(y); g.add_edge(i, j, d); }
            else { uint64_t i = g.index(x), j = g.index(y); g.add_edge_index(i, j, d); }
            return "0";
        }
        if (o == "make") {
            g = G(); for (auto& x : read(a)) g.add_node(x);
            int m = (int)a.n(); for (int i = 0; i < m; ++i) { T x = Lab<T>::of((int)a.n()), y = Lab<T>::of((int)a.n()); g.add_edge(x, y); }
            return "0";
        }
        if (o == "show") return show(g);
        if (o == "isedge") { T x = Lab<T>::of((int)a.n()), y = Lab<T>::of((int)a.n()); return jbool(g.is_edge(x, y)); }
        if (o == "nbr") { auto& s = g.neighborhood_index(Lab<T>::of((int)a.n())); return jlist(s, [&](uint64_t j) { return label(g.node(j)); }); }
        if (o == "peo") return list(perfect_elimination_ordering(g));
        if (o == "branch") { auto b = connected_branch(g); return jlist(b, list); }
        if (o == "height") { auto l = read(a); return jint((long long)elimination_height(g, l)); }
        if (o == "ecc") { T x = Lab<T>::of((int)a.n()); size_t r = DFV(g, x); if (r != DFV(g, (size_t)g.index(x))) throw Bad("DFV"); return jint((long long)r); }
        if (o == "score") {
            double d = graph_diff_score(g, reg()[a.n()]); if (!(d >= -1 && d <= 2)) throw Bad("score " + std::to_string(d));
            return jint((long long)std::floor(d * 1e6 + 1e-3));
        }
        // results that are graphs: <operation> source destination
        G& d = reg()[a.n()];
        if (o == "chordal") {
            int how = (int)a.n(); std::string l = "[]"; G src = g;
            if (how == 1) { std::vector<uint64_t> v; chordal_completion(d, src, v); l = jlist(v, [&](uint64_t i) { return label(src.node(i)); }); }
            else if (how == 2) l = list(chordal_completion(d, src));
            else d = chordal_completion(g);
            return "[" + show(d) + "," + l + "]";
        }
        if (o == "bgraph") { d = connected_branch_graph(g); return show(d); }
        if (o == "elim") { auto l = read(a); d = elimination_game(g, l); return show(d); }
        throw Script("operation " + o);
    }
};
template <class P> static std::vector<P> polys(Args& a) { int n = (int)a.n(); std::vector<P> v; for (int i = 0; i < n; ++i) v.push_back(read_poly<P>(a)); return v; }
template <class P> static std::string pop(const std::string& o, Args& a) {
    int d = o == "assoc" ? (int)a.n() : 0;
    auto F = polys<P>(a);
    if (o == "assoc") { auto& g = M<variable>::reg()[d]; g = associatedgraph(F); return M<variable>::show(g); }
    if (o == "ppeo") return M<variable>::list(peo(F));
    throw Script("operation " + o);
}
static void reset() { escale() = 1; for (int i = 0; i < 4; ++i) { M<int>::reg()[i] = {}; M<std::string>::reg()[i] = {}; M<variable>::reg()[i] = {}; } }
OP("vars") { std::vector<std::string> v; while (a.more()) v.push_back(a.s()); set_universe(v); return "0"; }
OP("prime") { cur_prime() = a.u(); Zp::set_prime(cur_prime()); return "0"; }
OP("g") {
    auto t = a.s(), o = a.s();
    if (t == "i") return M<int>::op(o, a);
    if (t == "s") return M<std::string>::op(o, a);
    if (t == "v") return M<variable>::op(o, a);
    throw Script("node type " + t);
}
OP("p") {
    auto t = a.s(), o = a.s();
    if (t == "Zl") return pop<polynomial_<ZZ, lex>>(o, a);
    if (t == "Zg") return pop<polynomial_<ZZ>>(o, a);
    if (t == "Qg") return pop<polynomial_<QQ>>(o, a);
    if (t == "Pg") return pop<polynomial_<Zp>>(o, a);
    throw Script("type " + t);
}
int main(int argc, char** argv) { create_variables(100); return run(argc, argv, reset); }
