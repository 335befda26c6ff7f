// Resource handles under the deterministic scheduler.
// operation lines: <thread> <op> <a> <b>    thread 0: before the others start, and after they ended (op names with +)
#include "vsched.h"
#include <mgcore.h>
#include <mg/core/thread.h>
#include <map>
using sched::Quiet;
struct World;
static World* g;
struct Obj { int id; Obj(); explicit Obj(int i) : id(i) {} ~Obj(); };
typedef mg::core::CResource<Obj> Res;
struct World {
    Tr& tr;
    Res h[11];
    int next;
    std::map<int, std::vector<std::vector<std::string> > > prog;
    std::map<int, int> names;
    World(Tr& t) : tr(t), next(0) {}
    int who() { Quiet q; std::map<int, int>::iterator i = names.find(sched::self()); return i == names.end() ? 0 : i->second; }
    void ran(const char* k, int o) { Quiet q; tr.ev("run", "\"t\":" + num(who()) + ",\"k\":\"" + k + "\",\"o\":" + num(o)); }
    void play(int t) {
        std::vector<std::vector<std::string> >* prg;
        { Quiet q; names[sched::self()] = t; prg = &prog[t]; }
        for (size_t i = 0; i < prg->size(); i++) {
            std::string f; int a, b;
            { Quiet q; const std::vector<std::string>& o = (*prg)[i]; f = o[1]; a = atoi(o[2].c_str()); b = atoi(o[3].c_str());
              tr.ev("call", "\"t\":" + num(t) + ",\"f\":\"" + f + "\",\"a\":" + num(a) + ",\"b\":" + num(b)); }
            long r = 0;
            if (f == "new") h[a] = Res(new Obj(b));
            else if (f == "create") { next = b; h[a].Create(); }
            else if (f == "assign") h[a] = h[b];
            else if (f == "copy") { if (a != b) { Res c(h[b]); h[a].~Res(); new (&h[a]) Res(c); } }
            else if (f == "drop") h[a] = Res();
            else if (f == "cleanup") h[a].add_cleanup_function([this](Obj* o) { ran("cleanup", o->id); });
            else if (f == "use") r = h[a] ? h[a]->id : 0;
            else if (f == "count") r = h[a] ? h[a].count() : 0;
            else _exit(97);
            { Quiet q; tr.ev("ret", "\"t\":" + num(t) + ",\"r\":" + num(r)); }
        }
    }
};
Obj::Obj() : id(g->next) {}
Obj::~Obj() { g->ran("destroy", id); id = -1; }
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    return run_scheduled(argv[1], argv[2], [](const Script& sc, Tr& tr) {
        World* w = new World(tr);
        g = w;
        std::vector<std::vector<std::string> > after;
        {
            Quiet q;
            for (size_t i = 0; i < sc.ops.size(); i++) {
                int t = atoi(sc.ops[i][0].c_str());
                if (t == 9) { after.push_back(sc.ops[i]); after.back()[0] = "0"; } else w->prog[t].push_back(sc.ops[i]);
            }
        }
        w->play(0);
        std::vector<int> ts, cosn;
        { Quiet q; for (auto& p : w->prog) if (p.first) ts.push_back(p.first); }
        for (size_t i = 0; i < ts.size(); i++) { int t = ts[i]; int c = sched::spawn([w, t]() { w->play(t); }, false); Quiet q; cosn.push_back(c); }
        sched::block_until([&]() { for (size_t i = 0; i < cosn.size(); i++) if (!sched::done(cosn[i])) return false; return true; });
        { Quiet q; w->prog[0] = after; }
        w->play(0);
    }, nullptr);
}
