// Asynchronous files on a loop thread, under the deterministic scheduler.
// head: <schedules> <seed> <workers> <length of file 0 or -1> <length of file 1 or -1>
// operation lines (the number of an operation is its line, from 1):
//   open x r|w|rw|m sync|async mode fault      read x n mode fault chain     write x n mode fault
//   close x sync|async mode fault   destroy x  drain x   pos x p   qpos x  qsize x  qeof x  qout x
//   hold  release  nap ms  now x  stop  check  end
// modes: h own error handler and callback, n the library's error handler and a callback, f nothing,
//        t as n, the callback throws 77, u as h, the callback throws 77, s as h, the callback stops the loop
#include "vsched.h"
#include "uvstub.h"
#include <mgcore.h>
#include <mg/core/file.h>
#include <map>
#include <set>
using sched::Quiet;
using namespace mg::core;
struct Err { int c; };
typedef CResource<CPromise<uv_fs_t> > PF;
typedef CResource<CPromise<CBuffer<unsigned char> > > PB;
static int code(std::exception_ptr e) {
    try { std::rethrow_exception(e); }
    catch (const Err& x) { return x.c; }
    catch (mgexceptionbase& x) { return (int)x.get_error_number(); }
    catch (...) { return -9999; }
}
static std::string dir;
struct World {
    Tr& tr;
    mg::uv::loopthread loop;
    CResource<file_bitstream> f[2];
    bool opened[2], over;
    std::set<int> waiting; int running;     // operations whose handler has not ended; handlers now running
    int chained;
    std::vector<std::vector<std::string> > ops;
    World(Tr& t) : tr(t), over(false), running(0), chained(1000) { opened[0] = opened[1] = false; }
    std::string who() { return sched::self() == 0 ? "0" : "1"; }
    void begin(int k, std::string extra) { Quiet q; running++; tr.ev("cb", "\"t\":" + who() + ",\"k\":" + num(k) + extra); }
    void finish(int k, int ex, bool more) { Quiet q; running--; if (!more) waiting.erase(k); tr.ev("cbend", "\"t\":" + who() + ",\"k\":" + num(k) + ",\"ex\":" + num(ex)); }
    void erred(int k, std::exception_ptr e) { Quiet q; waiting.erase(k); tr.ev("er", "\"t\":" + who() + ",\"k\":" + num(k) + ",\"e\":" + num(code(e))); }
    void body(int k, const std::string& mode, int x, int chain) {
        sched::point();
        if (mode == "s") { { Quiet q; tr.ev("stopping", ""); } loop->stop(); }
        if (chain) { int k2; { Quiet q; k2 = chained++; tr.ev("issue", "\"t\":" + who() + ",\"k\":" + num(k2) + ",\"x\":" + num(x) + ",\"n\":" + num(chain)); } issue_read(k2, x, chain, "h", 0); }
        finish(k, mode == "t" || mode == "u" ? 77 : 0, mode == "u");
        if (mode == "t" || mode == "u") { Err e; e.c = 77; throw e; }
    }
    void issue_read(int k, int x, int n, const std::string& mode, int chain) {
        { Quiet q; if (mode != "f") waiting.insert(k); }
        PB p = f[x]->cfile::read(n);
        if (mode == "f") return;
        if (mode == "h" || mode == "u" || mode == "s") p->set_er([this, k](std::exception_ptr e) -> bool { erred(k, e); return false; });
        else p->set_er();
        std::string m = mode;
        p->set_cb([this, k, m, x, chain](CResource<CBuffer<unsigned char> >& b) {
            { std::string s; { Quiet q; s = ",\"d\":" + jbytes(b->get(), b->size()) + ",\"r\":0"; begin(k, s); } }
            body(k, m, x, chain);
        });
    }
    void await(PF p, int k, const std::string& mode, int x, bool isopen) {
        if (mode == "f" || !p) return;
        { Quiet q; waiting.insert(k); }
        if (mode == "h" || mode == "u" || mode == "s") p->set_er([this, k](std::exception_ptr e) -> bool { erred(k, e); return false; });
        else p->set_er();
        std::string m = mode;
        p->set_cb([this, k, m, x, isopen](CResource<uv_fs_t>& r) {
            { Quiet q; begin(k, ",\"d\":[],\"r\":" + num(isopen ? 0 : r->result)); }
            body(k, m, x, 0);
        });
    }
    void play() {
        for (size_t i = 0; i < ops.size(); i++) {
            int k = (int)i + 1;
            const std::vector<std::string>& o = ops[i];
            std::string name; int x = 0, n = 0, fault = 0; std::string a, mode;
            {
                Quiet q;
                name = o[0];
                if (name[0] == 'q' || name == "open" || name == "read" || name == "write" || name == "close" || name == "destroy" || name == "drain" || name == "pos" || name == "now") x = atoi(o[1].c_str());
                std::string s = "\"f\":\"" + name + "\",\"k\":" + num(k) + ",\"x\":" + num(x);
                if (name == "open") { a = o[2]; mode = o[3] == "sync" ? "-" : o[4]; fault = atoi(o[5].c_str()); s += ",\"a\":\"" + a + "\""; }
                if (name == "close") { mode = o[2] == "sync" ? "-" : o[3]; fault = o[2] == "sync" ? 0 : atoi(o[4].c_str()); }
                if (name == "read" || name == "write") { n = atoi(o[2].c_str()); mode = o[3]; fault = atoi(o[4].c_str()); }
                if (name == "pos") n = atoi(o[2].c_str());
                if (name == "nap") n = atoi(o[1].c_str());
                s += ",\"n\":" + num(n) + ",\"m\":\"" + mode + "\",\"e\":" + num(fault);
                bool need = name == "read" || name == "write" || name == "close" || name == "pos" || name[0] == 'q' || name == "destroy" || name == "now";
                if (need && !f[x]) continue;
                if ((name == "read" || name == "write" || name == "pos" || name == "qsize" || name == "qeof" || name == "close") && !opened[x]) continue;
                if (over && (name == "end" || name == "stop" || name == "check")) continue;
                tr.ev("call", s);
            }
            int ex = 0; long r = 0;
            try {
                if (name == "open") {
                    if (!f[x]) f[x] = CResource<file_bitstream>(new file_bitstream(loop));
                    int fl = a == "r" || a == "m" ? (O_RDONLY | O_EXCL) : a == "r0" ? O_RDONLY : a == "w" ? (O_CREAT | O_WRONLY | O_TRUNC) : (O_CREAT | O_RDWR);
                    std::string p; { Quiet q; p = dir + (a == "m" ? "/missing" : "/f") + num(x); }
                    if (mode == "-") { f[x]->open(p.c_str(), fl, false); opened[x] = true; }
                    else { if (fault) uvstub::next_fault(fault); PF pr = f[x]->open(p.c_str(), fl, true); opened[x] = !fault && a != "m"; await(pr, k, mode, x, true); }
                } else if (name == "read") {
                    if (fault) uvstub::next_fault(fault);
                    issue_read(k, x, n, mode, o.size() > 5 ? atoi(o[5].c_str()) : 0);
                } else if (name == "write") {
                    unsigned char b[64];
                    for (int j = 0; j < n; j++) b[j] = (unsigned char)((k * 16 + j) & 255);
                    if (fault) uvstub::next_fault(fault);
                    PF pr = f[x]->cfile::write(b, n);
                    memset(b, 0xee, sizeof b);     // the caller's memory is its own again
                    await(pr, k, mode, x, false);
                } else if (name == "close") {
                    if (fault) uvstub::next_fault(fault);
                    PF pr = f[x]->close(mode != "-");
                    opened[x] = false;
                    await(pr, k, mode, x, false);
                } else if (name == "destroy") { opened[x] = false; f[x] = CResource<file_bitstream>(); }
                else if (name == "drain") {
                    cfile* p = f[x] ? (cfile*)(file_bitstream*)f[x] : (cfile*)0;
                    while (!(waiting.empty() && running == 0 && (!p || p->outstanding() == 0)) && !loop->is_done()) sched::sleep_ns(1000000);
                } else if (name == "pos") f[x]->cfile::set_position(n);
                else if (name == "qpos") r = (long)f[x]->cfile::get_position();
                else if (name == "qsize") r = (long)f[x]->size();
                else if (name == "qeof") r = f[x]->cfile::eof();
                else if (name == "qout") r = f[x]->outstanding();
                else if (name == "hold") loop->loop_lock().lock();
                else if (name == "release") loop->loop_lock().unLock();
                else if (name == "nap") sched::sleep_ns((uint64_t)n * 1000000 + 1);
                else if (name == "now") f[x]->idle();
                else if (name == "stop") loop->stop();
                else if (name == "check") loop->check_exception();
                else if (name == "end") { over = true; loop->end(); }
                else _exit(97);
            } catch (...) { ex = code(std::current_exception()); }
            { Quiet q; tr.ev("ret", "\"f\":\"" + name + "\",\"ex\":" + num(ex) + ",\"r\":" + num(r)); }
        }
    }
};
int main(int argc, char** argv) {
    if (argc < 4) return 2;
    dir = argv[3];
    return run_scheduled(argv[1], argv[2], [](const Script& sc, Tr& tr) {
        World* w;
        {
            Quiet q;
            uvstub::reset(atoi(sc.head[2].c_str()));
            for (int x = 0; x < 2; x++) {
                std::string p = dir + "/f" + num(x);
                int n = atoi(sc.head[3 + x].c_str());
                unlink(p.c_str());
                if (n < 0) continue;
                FILE* f = fopen(p.c_str(), "wb");
                for (int i = 0; i < n; i++) fputc((x * 128 + i) & 255, f);
                fclose(f);
            }
        }
        w = new World(tr);
        w->loop.Create();
        { Quiet q; w->ops = sc.ops; }
        w->loop->start();
        w->play();
        {
            Quiet q;
            for (int x = 0; x < 2; x++) {
                std::vector<unsigned char> v; int c;
                FILE* f = fopen((dir + "/f" + num(x)).c_str(), "rb");
                if (f) { while ((c = fgetc(f)) != EOF) v.push_back((unsigned char)c); fclose(f); }
                tr.ev("content", "\"x\":" + num(x) + ",\"d\":" + (f ? jbytes(v.data(), v.size()) : std::string("[-1]")));
            }
        }
    }, [](const Script& sc) { return "\"init\":[" + sc.head[3] + "," + sc.head[4] + "]"; });
}
