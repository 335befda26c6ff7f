// Promises under the deterministic scheduler.
// operation lines: <thread> <op> <promise> <a> <b>    thread 0: before the others start
#include "vsched.h"
#include <mgcore.h>
#include <mg/core/thread.h>
#include <mg/promises.h>
#include <map>
using sched::Quiet;
struct Val { int v; Val() : v(0) {} explicit Val(int x) : v(x) {} };
struct Err { int c; };
typedef mg::core::CPromise<Val> Prom;

static int code(std::exception_ptr e) {
    try { std::rethrow_exception(e); } catch (const Err& x) { return x.c; } catch (...) { return -1; }
}
struct World {
    Tr& tr;
    mg::core::CResource<Prom> pr[4];
    std::map<int, std::vector<std::vector<std::string> > > prog;
    World(Tr& t) : tr(t) {}
    void ran(const char* k, int p, int v) {
        Quiet q;
        tr.ev("run", "\"t\":" + num(who()) + ",\"k\":\"" + k + "\",\"p\":" + num(p) + ",\"v\":" + num(v));
    }
    std::map<int, int> names;   // scheduler number -> thread of the script
    int who() { Quiet q; std::map<int, int>::iterator i = names.find(sched::self()); return i == names.end() ? 0 : i->second; }
    void play(int t) {
        const std::vector<std::vector<std::string> >* prg;
        { Quiet q; names[sched::self()] = t; prg = &prog[t]; }
        for (size_t i = 0; i < prg->size(); i++) {
            std::string f, a; int p, b;
            { Quiet q; const std::vector<std::string>& o = (*prg)[i]; f = o[1]; p = atoi(o[2].c_str()); a = o[3]; b = atoi(o[4].c_str());
              tr.ev("call", "\"t\":" + num(t) + ",\"f\":\"" + f + "\",\"p\":" + num(p) + ",\"a\":\"" + a + "\",\"b\":" + num(b)); }
            int ex = 0;
            try {
                if (!pr[p]) pr[p].Create();     // only before the others start
                Prom* x = pr[p];
                if (f == "setcb") {
                    bool th = a == "throw";
                    x->set_cb([this, p, th, b](mg::core::CResource<Val>& v) { ran("cb", p, v->v); if (th) { Err e; e.c = b; throw e; } });
                } else if (f == "seter") {
                    if (a == "silent") x->set_er();      // the library's own
                    else if (a == "rethrow") x->set_er([this, p](std::exception_ptr e) -> bool { ran("er", p, code(e)); std::rethrow_exception(e); });
                    else { bool go = a == "go"; x->set_er([this, p, go](std::exception_ptr e) -> bool { ran("er", p, code(e)); return go; }); }
                } else if (f == "callcb") { mg::core::CResource<Val> v(new Val(b)); x->call_cb(v); }
                else if (f == "caller") { Err e; e.c = b; x->call_er(std::make_exception_ptr(e)); }
                else if (f == "fwd") pr[b] = x->forward(a == "auto");
                else _exit(97);
            } catch (const Err& e) { ex = e.c; }
            { Quiet q; tr.ev("ret", "\"t\":" + num(t) + ",\"ex\":" + num(ex)); }
        }
    }
};
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    return run_scheduled(argv[1], argv[2], [](const Script& sc, Tr& tr) {
        World* w = new World(tr);
        {
            Quiet q;
            for (size_t i = 0; i < sc.ops.size(); i++) w->prog[atoi(sc.ops[i][0].c_str())].push_back(sc.ops[i]);
        }
        w->pr[1].Create();
        w->play(0);
        for (int i = 2; i < 4; i++) if (!w->pr[i]) w->pr[i].Create();
        std::vector<int> ts, cosn;
        { Quiet q; for (auto& p : w->prog) if (p.first) ts.push_back(p.first); }
        for (size_t i = 0; i < ts.size(); i++) { int t = ts[i]; int c = sched::spawn([w, t]() { w->play(t); }, false); Quiet q; cosn.push_back(c); }
        sched::block_until([&]() { for (size_t i = 0; i < cosn.size(); i++) if (!sched::done(cosn[i])) return false; return true; });
        for (int i = 1; i < 4; i++) { bool r = w->pr[i]->has_value(); Quiet q; tr.ev("has", "\"p\":" + num(i) + ",\"r\":" + (r ? "true" : "false")); }
        delete w;
    }, nullptr);
}
