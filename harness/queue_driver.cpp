// The queues that hold media samples on one block of memory.
// head: <fixed|drop|grow> <bytes for items>      (with VT_SCHED preceded by <schedules> <seed>)
// operation lines: <thread> <op> ...
//   push id len      pushr id len (asks for false instead of an exception)
//   take cap         under the queue's lock: remove the first item if there is one
//   take1 cap        without it (the only consumer)
//   peek1 (grow), del1: likewise
//   peek  del  clear  size
#include "common.h"
#include <mgcore.h>
#include <mg/alxstring.h>
#ifndef _WIN32
#ifndef BYTE
#define BYTE unsigned char
#endif
#endif
#include <mg/media/media_queue.h>
#include <map>
#ifdef VT_SCHED
#include "vsched.h"
#define QUIET sched::Quiet quiet_;
#else
#define QUIET
#endif
using namespace MGCORE;
struct Item { int a; int64_t b; int c; Item(int x = 0) : a(x), b((int64_t)x * 1000000007LL), c(~x) {} bool good() const { return b == (int64_t)a * 1000000007LL && c == ~a; } };
typedef cfixed_queue<Item> Base;
struct Fixed : Base { Fixed() {} Fixed(bool drop) : Base(drop) {} };
struct Grow : grow_queue<Item> {};
static unsigned char byte_of(int id, int i) { return (unsigned char)(id * 37 + i * 11 + (i >> 8)); }
static int good(int id, const unsigned char* p, int n) { for (int i = 0; i < n; i++) if (p[i] != byte_of(id, i)) return 0; return 1; }
struct World {
    Base* q; Grow* g; Tr& tr;
    World(Tr& t) : q(0), g(0), tr(t) {}
    void call(int t, const std::string& s) { QUIET tr.ev("call", "\"t\":" + num(t) + s); }
    void ret(int t, const std::string& s) { QUIET tr.ev("ret", "\"t\":" + num(t) + s); }
    void taken(int t, const Item& i, const unsigned char* p, int len, bool removed) {
        QUIET ret(t, ",\"st\":\"ok\",\"id\":" + num(i.a) + ",\"n\":" + num(len) + ",\"good\":" + num(i.good() && good(i.a, p, removed ? len : 0)) + ",\"out\":" + num(removed));
    }
    void pop(int t, int cap) {
        unsigned char* b = new unsigned char[cap ? cap : 1]; int n = -1;
        Item i = q->pop(b, cap, &n);
        taken(t, i, b, n, n <= cap);
        delete[] b;
    }
    void op(int t, const std::vector<std::string>& o) {
        std::string f; int a = 0, n = 0;
        { QUIET f = o[0]; if (o.size() > 1) a = atoi(o[1].c_str()); if (o.size() > 2) n = atoi(o[2].c_str());
          call(t, ",\"f\":\"" + (f == "take1" ? std::string("take") : f == "del1" ? "del" : f == "pushr" ? std::string("push") : f) + "\",\"id\":" + num(a) + ",\"n\":" + num(n)); }
        if (f == "push" || f == "pushr") {
            unsigned char* b = new unsigned char[n ? n : 1];
            for (int i = 0; i < n; i++) b[i] = byte_of(a, i);
            std::string r;
            try { bool x = q->push(Item(a), b, n, f == "pushr"); QUIET r = x ? "ok" : "no"; }
            catch (mgexceptionbase& e) { QUIET r = "no"; if (f == "pushr" || e.get_error_number() != -101) r = "other"; }
            delete[] b;
            QUIET ret(t, ",\"st\":\"" + r + "\",\"id\":0,\"n\":0,\"good\":1,\"out\":0");
        } else if (f == "take" || f == "take1") {
            bool some = true;
            if (f == "take") { auto_lock l(q->get_lock()); some = q->size() != 0; if (some) pop(t, a); }
            else { some = q->size() != 0; if (some) pop(t, a); }
            if (!some) ret(t, ",\"st\":\"none\",\"id\":0,\"n\":0,\"good\":1,\"out\":0");
        } else if (f == "peek") {
            auto_lock l(q->get_lock());
            if (!q->size()) { ret(t, ",\"st\":\"none\",\"id\":0,\"n\":0,\"good\":1,\"out\":0"); return; }
            int n = 0; BYTE* p = 0; const Item* i = g && (a & 1) ? g->locked_pick_next(&n, &p) : q->pick_next(&n, &p);
            Item c; memcpy((void*)&c, (const void*)i, sizeof c);
            QUIET ret(t, ",\"st\":\"ok\",\"id\":" + num(c.a) + ",\"n\":" + num(n) + ",\"good\":" + num(c.good() && good(c.a, p, n)) + ",\"out\":0");
        } else if (f == "peek1") {
            if (!q->size()) { ret(t, ",\"st\":\"none\",\"id\":0,\"n\":0,\"good\":1,\"out\":0"); return; }
            int n = 0; BYTE* p = 0; g->locked_pick_next(&n, &p);    // another thread may move the items: only the length is looked at
            ret(t, ",\"st\":\"ok\",\"id\":0,\"n\":" + num(n) + ",\"good\":1,\"out\":0");
        } else if (f == "del1") {
            bool some = q->size() != 0;
            if (some) q->delete_item();
            ret(t, std::string(",\"st\":\"") + (some ? "ok" : "none") + "\",\"id\":0,\"n\":0,\"good\":1,\"out\":0");
        } else if (f == "del") {
            auto_lock l(q->get_lock());
            bool some = q->size() != 0;
            if (some) q->delete_item();
            ret(t, std::string(",\"st\":\"") + (some ? "ok" : "none") + "\",\"id\":0,\"n\":0,\"good\":1,\"out\":0");
        } else if (f == "clear") { q->clear(); ret(t, ",\"st\":\"ok\",\"id\":0,\"n\":0,\"good\":1,\"out\":0"); }
        else if (f == "size") { int n = q->size(); ret(t, ",\"st\":\"ok\",\"id\":0,\"n\":" + num(n) + ",\"good\":1,\"out\":0"); }
        else _exit(97);
    }
};
static const int HEAD = 24, ITEM = 12 + (int)sizeof(Item);
static std::string header(const Script& s, int k) {
    return "\"kind\":\"" + s.head[k] + "\",\"room\":" + s.head[k + 1] + ",\"item\":" + num(ITEM);
}
static void perform(const Script& s, Tr& t, int k) {
    World w(t); std::string kind; int room;
    { QUIET kind = s.head[k]; room = atoi(s.head[k + 1].c_str()); }
    Base* q;
    if (kind == "grow") { w.g = new Grow; q = w.g; } else q = kind == "drop" && room % 2 ? new Fixed : new Fixed(kind == "drop");   // without being told it drops
    w.q = q;
    q->allocate(true, HEAD + room);
#ifdef VT_SCHED
    std::map<int, std::vector<std::vector<std::string> > > progs;
    { QUIET for (size_t i = 0; i < s.ops.size(); i++) { std::vector<std::string> o = s.ops[i]; int t = atoi(o[0].c_str()); o.erase(o.begin()); progs[t].push_back(o); } }
    std::vector<int> cos;
    for (std::map<int, std::vector<std::vector<std::string> > >::iterator i = progs.begin(); i != progs.end(); ++i) {
        int t = i->first; if (t == 0) continue;
        std::vector<std::vector<std::string> >* p = &i->second;
        cos.push_back(sched::spawn([&w, t, p]() { for (size_t j = 0; j < p->size(); j++) w.op(t, (*p)[j]); }, false));
    }
    sched::block_until([&cos]() { for (size_t i = 0; i < cos.size(); i++) if (!sched::done(cos[i])) return false; return true; });
    for (size_t j = 0; j < progs[0].size(); j++) w.op(0, progs[0][j]);
#else
    for (size_t i = 0; i < s.ops.size(); i++) { std::vector<std::string> o = s.ops[i]; o.erase(o.begin()); w.op(0, o); }
#endif
    if (w.g) delete w.g; else delete (Fixed*)q;
}
int main(int argc, char** argv) {
    if (argc < 3) return 2;
#ifdef VT_SCHED
    return run_scheduled(argv[1], argv[2], [](const Script& s, Tr& t) { perform(s, t, 2); }, [](const Script& s) { return header(s, 2); });
#else
    return run_scripts(argv[1], argv[2], [](const Script& s) { return header(s, 0); }, [](const Script& s, Tr& t) { perform(s, t, 0); });
#endif
}
