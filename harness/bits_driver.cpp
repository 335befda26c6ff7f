// Executes bit stream scripts on the real bitstream<> template.
//   T <id> r <storage> <bufsize> <hexdata>     reading
//   T <id> w <storage> <bufsize> <initsize>    writing
// With VT_SCHED: under the deterministic scheduler, the header is preceded by <schedules> <seed>.
// storages for reading: mem, whole, sync, file, late (asynchronous stand-in whose
// deliveries are scripted with the operation "d")
#include "common.h"
#include <mgcore.h>
#include <mg/media/TBitstream.h>
#include <thread>
#include <mutex>
#include <memory>
#include <chrono>
#ifdef VT_SCHED
#include "vsched.h"
#include "uvstub.h"
#define QUIET sched::Quiet quiet_;
#else
#define QUIET
#endif

using namespace mg::core;

// asynchronous storage: the position advances when a read is issued (as a file's does),
// the data is delivered when the script says so, or when the reader idles
class late_storage : public Ibitstream_storage {
    std::vector<unsigned char> d;
    uint64_t pos;
    bool pending;
    uint64_t ppos; uint32_t plen; Ibitstream_cb* pcb;
    std::recursive_mutex m;
    bool quit;
    std::thread* helper;
public:
#ifdef VT_SCHED
    bool gone;
    late_storage(const std::vector<unsigned char>& x) : d(x), pos(0), pending(false), quit(false), helper(0), gone(false) {
        sched::spawn([this]() {
            for (;;) {
                sched::block_until([this]() { return pending || quit; });
                if (quit) { gone = true; return; }
                deliver();
            }
        }, false);
    }
    ~late_storage() { quit = true; sched::block_until([this]() { return gone; }); }
#else
    late_storage(const std::vector<unsigned char>& x) : d(x), pos(0), pending(false), quit(false), helper(0) {}
    ~late_storage() { { std::lock_guard<std::recursive_mutex> g(m); quit = true; } if (helper) { helper->join(); delete helper; } }
#endif
    bool deliver() {
        Ibitstream_cb* c; uint64_t p; uint32_t n;
        {
            std::lock_guard<std::recursive_mutex> g(m);
            if (!pending) return false;
            pending = false; c = pcb; p = ppos; n = plen;
        }
        // a private copy: the buffer handed to the callback is only valid during the call
        std::vector<unsigned char> tmp(d.begin() + p, d.begin() + p + n);
        c->read_cb(n ? &tmp[0] : (const unsigned char*)"", n);
        return true;
    }
    virtual void read(uint32_t to_read, Ibitstream_cb* cb) {
        if (deliver()) {}
        std::lock_guard<std::recursive_mutex> g(m);
        uint64_t left = pos < d.size() ? d.size() - pos : 0;
        plen = to_read < left ? to_read : (uint32_t)left;
        ppos = pos; pcb = cb; pending = true; pos += plen;
#ifndef VT_SCHED
        // whoever waits without idling is still served, only later
        if (!helper) helper = new std::thread([this]() {
            int stuck = 0; 
            for (;;) {
                std::this_thread::sleep_for(std::chrono::milliseconds(20));
                { std::lock_guard<std::recursive_mutex> g(m); if (quit) return; stuck = pending ? stuck + 1 : 0; }
                if (stuck > 100) { deliver(); stuck = 0; }
            }
        });
#endif
    }
    virtual void write(const unsigned char*, uint32_t, Ibitstream_cb*) { throw 1; }
    virtual bool eof() { return pos >= d.size(); }
    virtual void flush() {}
    virtual uint64_t get_position() const { return pos; }
    virtual void set_position(uint64_t p) { deliver(); pos = p; }
    virtual void idle() { deliver(); }
};

static std::string g_tmp;

struct Env {
    std::vector<unsigned char> data;
    std::shared_ptr<IBitstream> bs;   // remembers the concrete type: the interface has no virtual destructor
    CResource<late_storage> late;
    bool is_late;
    CResource<fixed_memory_read> mr;
    CResource<fixed_memory_write> mw;
    CResource<sync_file_bitstream> sf;
    CResource<file_bitstream> fb;
    CResource<mg::uv::uvloopthread> loop;
    std::string path;
    std::function<bool(int)> has_bits;
    Env() : is_late(false) {}
};

template<class T> static void attach(Env& e, CResource<T>& st, uint32_t b, bool load) {
    bitstream<T>* p = load ? new bitstream<T>(st, b) : new bitstream<T>(st, false, b);
    e.bs = std::shared_ptr<IBitstream>(p);
    e.has_bits = [p](int n) { return p->has_bits(n); };
}

static std::string slurp(const std::string& p) {
    std::ifstream f(p.c_str(), std::ios::binary); std::stringstream ss; ss << f.rdbuf(); return ss.str();
}

static void do_read(const Script& s, Tr& t) {
    Env e;
    std::string kind = s.head[1];
    uint32_t B = (uint32_t)atoi(s.head[2].c_str());
    e.data = unhex(s.head[3]);
    const unsigned char* dp = e.data.empty() ? (const unsigned char*)"" : &e.data[0];
    if (kind == "mem") { e.mr = CResource<fixed_memory_read>(new fixed_memory_read(dp, e.data.size())); attach(e, e.mr, B, true); }
    else if (kind == "whole") { fixed_memory_bitstream* p = new fixed_memory_bitstream(dp, e.data.size()); e.bs = std::shared_ptr<IBitstream>(p); e.has_bits = [p](int n) { return p->has_bits(n); }; }
    else if (kind == "late") { e.is_late = true; e.late = CResource<late_storage>(new late_storage(e.data)); attach(e, e.late, B, true); }
    else {
        e.path = g_tmp + "/r" + std::to_string(getpid());
        { QUIET std::ofstream f(e.path.c_str(), std::ios::binary); f.write((const char*)dp, e.data.size()); }
        if (kind == "sync") { e.sf.Create(); e.sf->open(e.path.c_str()); attach(e, e.sf, B, true); }
        else {
            e.loop.Create(); e.loop->set_wait_time(2); e.loop->start();
            e.fb = CResource<file_bitstream>(new file_bitstream(e.loop));
            e.fb->open_sync(e.path.c_str());
            attach(e, e.fb, B, true);
        }
    }
    IBitstream& b = *e.bs;
    for (size_t k = 0; k < s.ops.size(); k++) {
        const std::vector<std::string>& o = s.ops[k];
        const std::string& op = o[0];
        int n = o.size() > 1 ? atoi(o[1].c_str()) : 0;
        std::string f = "\"n\":" + num(n), r;
        try {
            if (op == "d") { if (e.is_late) e.late->deliver(); continue; }
            else if (op == "get") r = jword(b.getbits(n));
            else if (op == "next") r = jword(b.nextbits(n));
            else if (op == "sget") r = jword(b.sgetbits(n));
            else if (op == "nextx") { f += ",\"sg\":" + o[2] + ",\"al\":" + o[3]; r = jword(b.next(n, 1, atoi(o[2].c_str()), atoi(o[3].c_str()))); }
            else if (op == "lget") r = jword(b.little_getbits(n));
            else if (op == "skip") { b.skipbits(n); r = "0"; }
            else if (op == "align") r = num(b.align(n));
            else if (op == "seek") { b.set_position(n); r = "0"; }
            else if (op == "read") {
                // a buffer with exactly n bytes, so that an overrun is seen
                unsigned char* p = new unsigned char[n ? n : 1]; uint32_t got = 0xffffffff;
                b.read(p, n, &got);
                r = jbytes(p, got <= (uint32_t)n ? got : n);
                f += ",\"cnt\":" + num((int)got);
                delete[] p;
            }
            else if (op == "code") { unsigned c = (unsigned)strtoul(o[1].c_str(), 0, 10); int w = atoi(o[2].c_str()), al = atoi(o[3].c_str());
                f = "\"c\":" + jword(c) + ",\"w\":" + num(w) + ",\"al\":" + num(al); r = num(b.nextcode(c, w, al)); }
            else if (op == "eof") r = b.eof() ? "1" : "0";
            else if (op == "has") r = e.has_bits(n) ? "1" : "0";
            else { fprintf(stderr, "bad op %s\n", op.c_str()); _exit(97); }
            f += ",\"st\":\"ok\",\"r\":" + r;
        }
        catch (EndOfData&) { f += ",\"st\":\"eod\",\"r\":0"; }
        catch (InvalidInput&) { f += ",\"st\":\"inv\",\"r\":0"; }
        catch (InvalidAlignment&) { f += ",\"st\":\"ali\",\"r\":0"; }
        catch (std::exception& x) { f += ",\"st\":\"other\",\"r\":0,\"what\":" + jstr(x.what()); }
        if (op == "code" && f.compare(0, 4, "\"c\":") != 0) f = "\"c\":[0,0],\"w\":0,\"al\":0," + f;
        // where the stream says it is, after the operation
        f += ",\"bp\":" + num((long long)b.getpos()) + ",\"p\":" + num((long long)b.get_position());
        { QUIET t.ev(op, f); }
    }
    // a stream lives until its file has been closed: the file's callbacks refer to it
    if (e.fb) e.fb->close(false);
    e.bs.reset();
    if (!e.path.empty()) {
        if (e.fb) { e.loop->stop(); e.loop->end(); }
        if (e.sf) e.sf->close();
        unlink(e.path.c_str());
    }
}

static void do_write(const Script& s, Tr& t) {
    Env e;
    std::string kind = s.head[1];
    uint32_t B = (uint32_t)atoi(s.head[2].c_str());
    uint32_t init = (uint32_t)atoi(s.head[3].c_str());
    std::unique_ptr<write_memory_bitstream> wm;
    IBitstream* bp = 0;
    if (kind == "mem") { wm.reset(new write_memory_bitstream(init, B)); bp = wm.get(); }
    else {
        e.path = g_tmp + "/w" + std::to_string(getpid());
        if (kind == "sync") { e.sf.Create(); e.sf->open((unlink(e.path.c_str()), e.path.c_str()), false); attach(e, e.sf, B, false); }
        else {
            e.loop.Create(); e.loop->set_wait_time(2); e.loop->start();
            e.fb = CResource<file_bitstream>(new file_bitstream(e.loop));
            e.fb->open_write_sync(e.path.c_str());
            attach(e, e.fb, B, false);
        }
        bp = e.bs.get();
    }
    IBitstream& b = *bp;
    for (size_t k = 0; k < s.ops.size(); k++) {
        const std::vector<std::string>& o = s.ops[k];
        const std::string& op = o[0];
        std::string f, r = "0";
        try {
            if (op == "put") { uint32_t v = (uint32_t)strtoull(o[1].c_str(), 0, 10); int n = atoi(o[2].c_str()); f = "\"v\":" + jword(v) + ",\"n\":" + num(n); b.putbits(v, n); }
            else if (op == "lput") { uint32_t v = (uint32_t)strtoull(o[1].c_str(), 0, 10); int n = atoi(o[2].c_str()); f = "\"v\":" + jword(v) + ",\"n\":" + num(n); b.little_putbits(v, n); }
            else if (op == "skip") { f = "\"n\":" + o[1]; b.skipbits(atoi(o[1].c_str())); }
            else if (op == "align") { f = "\"n\":" + o[1]; r = num(b.align(atoi(o[1].c_str()))); }
            else if (op == "code") { f = "\"n\":" + o[1]; r = num(b.nextcode(0, 8, atoi(o[1].c_str()))); }
            else if (op == "write") { std::vector<unsigned char> d = unhex(o[1]); f = "\"d\":" + jbytes(d.data(), d.size()); b.write(d.data(), (uint32_t)d.size()); }
            else if (op == "flush") { f = "\"n\":0"; b.flush(); }
            else if (op == "seek") { f = "\"n\":" + o[1]; b.set_position(atoi(o[1].c_str())); }
            else if (op == "big") { // many bytes at once: the storage is not touched by this one
                f = "\"n\":" + o[1]; }
            else { fprintf(stderr, "bad op %s\n", op.c_str()); _exit(97); }
            f += ",\"st\":\"ok\",\"r\":" + r;
        }
        catch (InvalidAlignment&) { f += ",\"st\":\"ali\",\"r\":0"; }
        catch (std::exception& x) { f += ",\"st\":\"other\",\"r\":0,\"what\":" + jstr(x.what()); }
        f += ",\"bp\":" + num((long long)b.getpos()) + ",\"p\":" + num((long long)b.get_position());
        { QUIET t.ev(op, f); }
    }
    // the content of the storage once everything has been closed
    std::string c;
    if (kind == "mem") c = std::string((const char*)wm->get_buffer(), (size_t)wm->get_size());
    else {
        if (e.fb) e.fb->close(false);
        e.bs.reset();
        if (e.fb) { e.loop->stop(); e.loop->end(); }
        if (e.sf) e.sf->close();
        QUIET c = slurp(e.path);
        unlink(e.path.c_str());
    }
    QUIET t.ev("content", "\"st\":\"ok\",\"r\":" + jbytes((const unsigned char*)c.data(), c.size()));
}

static std::string header(const Script& s) {
    return "\"mode\":\"" + s.head[0] + "\",\"kind\":\"" + s.head[1] + "\",\"buf\":" + s.head[2] +
            (s.head[0] == "r" ? ",\"data\":" + jbytes(unhex(s.head[3]).data(), unhex(s.head[3]).size()) : std::string(",\"data\":[]"));
}
static void perform(const Script& s, Tr& t) { if (s.head[0] == "r") do_read(s, t); else do_write(s, t); }

int main(int argc, char** argv) {
    if (argc < 4) return 2;
    g_tmp = argv[3];
#ifdef VT_SCHED
    sched::furthest_tick = 5000000000ull;   // a storage that takes more than ten seconds is another matter
    auto inner = [](const Script& s) { Script x = s; x.head.erase(x.head.begin(), x.head.begin() + 2); return x; };
    return run_scheduled(argv[1], argv[2],
        [inner](const Script& s, Tr& t) { Script x; { sched::Quiet q; x = inner(s); uvstub::reset(1); } perform(x, t); },
        [inner](const Script& s) { return header(inner(s)); });
#else
    return run_scripts(argv[1], argv[2], header, perform);
#endif
}
