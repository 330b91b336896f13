#define VD_MAIN
#include "poly_ops.hh"
using namespace vd;
#define ALL(X) X(zza) X(zzb) X(zzc) X(qqa) X(qqb) X(qqc) X(zpa) X(zpb) X(zpc) X(conv)
#define DECL(x) void init_##x();
ALL(DECL)
static std::map<std::string, std::string>& types() { static std::map<std::string, std::string> t; return t; }
static void reset() { regs().clear(); types().clear(); escale() = 1; forget_orders(); }
OP("vars") { std::vector<std::string> v; while (a.more()) v.push_back(a.s()); set_universe(v); return "0"; }
OP("scale") { escale() = a.n(); return "0"; }
OP("prime") { cur_prime() = a.u(); Zp::set_prime(cur_prime()); return "0"; }
// p new <reg> <type> <order|-> route terms
OP("new") { auto n = a.s(), t = a.s(), o = a.s(); auto it = makers().find(t); if (it == makers().end()) throw Script("type " + t);
    regs()[n].reset(it->second(o)); if (!a.more()) return report("0"); return regs()[n]->exec("set", a); }
// p <op> <first operand> ...
OP("p") { auto op = a.s(); auto& x = obj(a.s()); return x.exec(op, a); }
OP("conv") { auto d = a.s(), tt = a.s(), o = a.s(), x = a.s(), ft = a.s(); bool mv = a.n(); auto it = convs().find({ft, tt}); if (it == convs().end()) throw Script("conv " + ft + tt);
    if (!regs().count(d) || o != "=") { std::unique_ptr<Obj> n(makers().at(tt)(o)); it->second(*n, obj(x), mv); regs()[d] = std::move(n); }
    else it->second(obj(d), obj(x), mv);
    return report("0"); }
OP("drop") { regs().erase(a.s()); return report("0"); }
int main(int argc, char** argv) { create_variables(100); 
#define CALL(x) init_##x();
    ALL(CALL)
     return run(argc, argv, reset); }
