// Events, locks and threads under the deterministic scheduler.
// operation lines:  <thread> <op> <object> <n>
#include "vsched.h"
#include "mg/core/thread.h"
#include "mg/core/uvbase.h"
#include <memory>
#include <map>
using sched::Quiet;

struct World;
struct Body : public mg::core::cthread {
    World* w; int t;
    Body(World* a, int b) : w(a), t(b) {}
    virtual void run();
    bool should(uint32_t ms) { return should_stop(ms); }
};
struct World {
    Tr& tr;
    mg::core::signal_event ev[3];
    mg::core::critical_section cs[3];
    std::map<int, std::unique_ptr<Body> > bodies;
    std::map<int, std::vector<std::vector<std::string> > > prog;
    World(Tr& t) : tr(t) {}

    void call(int t, const std::string& f, int o, uint32_t n) {
        Quiet q;
        tr.ev("call", "\"t\":" + num(t) + ",\"f\":\"" + f + "\",\"o\":" + num(o) + ",\"n\":" + num(n));
    }
    void ret(int t, bool r, bool early = false) {
        Quiet q;
        tr.ev("ret", "\"t\":" + num(t) + ",\"r\":" + (r ? "true" : "false") + ",\"early\":" + (early ? "true" : "false"));
    }
    Body& body(int k) { return *bodies[k]; }
    void play(int t) {
        const std::vector<std::vector<std::string> >* p;
        { Quiet q; p = &prog[t]; }
        for (size_t i = 0; i < p->size(); i++) {
            std::string f; int o = 0; uint32_t n = 0; Body* b = 0;
            { Quiet q; f = (*p)[i][1]; if ((*p)[i].size() > 2) o = atoi((*p)[i][2].c_str()); if ((*p)[i].size() > 3) n = (uint32_t)atoi((*p)[i][3].c_str());
              if (o >= 10 && bodies.count(o)) b = bodies[o].get(); }
            if (f == "guard") {
                call(t, "lock", o, 0);
                {
                    mg::core::auto_lock l(cs[o]);
                    ret(t, true);
                    sched::point();
                    call(t, "unlock", o, 0);
                }
                ret(t, true);
                continue;
            }
            if (f == "tryun") {     // try, and give back what was got
                call(t, "try", o, 0);
                bool g = cs[o].try_lock();
                ret(t, g);
                if (g) { call(t, "unlock", o, 0); cs[o].unLock(); ret(t, true); }
                continue;
            }
            call(t, f, o, n);
            uint64_t t0 = sched::now();
            bool r = true, timed = false;
            if (f == "wait") ev[o].wait();
            else if (f == "twait") { r = ev[o].wait(n); timed = true; }
            else if (f == "issig") r = ev[o].is_signaled();
            else if (f == "signal") ev[o].signal();
            else if (f == "reset") ev[o].reset();
            else if (f == "lock") cs[o].lock();
            else if (f == "try") r = cs[o].try_lock();
            else if (f == "unlock") cs[o].unLock();
            else if (f == "start") b->start();
            else if (f == "stop") b->stop();
            else if (f == "join") b->join();
            else if (f == "isdone") { r = b->is_done(n); timed = true; }
            else if (f == "should") { r = ((Body*)bodies[t].get())->should(n); timed = true; }
            else if (f == "settle") sched::settle();
            else if (f == "nap") { sched::sleep_ns((uint64_t)n * 1000000); }
            else _exit(97);
            ret(t, r, timed && !r && sched::now() - t0 < (uint64_t)n * 1000000);
        }
    }
};
void Body::run() {
    { Quiet q; w->tr.ev("begin", "\"t\":" + num(t)); }
    w->play(t);
    { Quiet q; w->tr.ev("end", "\"t\":" + num(t)); }
}

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    return run_scheduled(argv[1], argv[2], [](const Script& sc, Tr& tr) {
        World* w = new World(tr);     // not released when a run ends in the middle
        std::vector<int> ids;
        {
            Quiet q;
            for (size_t i = 0; i < sc.ops.size(); i++) {
                int t = atoi(sc.ops[i][0].c_str());
                w->prog[t].push_back(sc.ops[i]);
                if (sc.ops[i].size() > 2 && atoi(sc.ops[i][2].c_str()) >= 10) { int k = atoi(sc.ops[i][2].c_str()); if (!w->bodies.count(k)) w->bodies[k].reset(new Body(w, k)); }
            }
        }
        std::vector<int> cosn;
        std::vector<int> ts;
        { Quiet q; for (auto& p : w->prog) if (p.first < 10) ts.push_back(p.first); }
        for (size_t i = 0; i < ts.size(); i++) {
            int t = ts[i];
            int c = sched::spawn([w, t]() { w->play(t); }, false);
            Quiet q; cosn.push_back(c);
        }
        sched::block_until([&]() { for (size_t i = 0; i < cosn.size(); i++) if (!sched::done(cosn[i])) return false; return true; });
        // threads nobody waited for end here
        std::vector<Body*> bs;
        { Quiet q; for (auto& b : w->bodies) bs.push_back(b.second.get()); }
        for (size_t i = 0; i < bs.size(); i++) bs[i]->join();
        delete w;
    }, nullptr);
}
