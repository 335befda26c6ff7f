// Copies between storages, under the deterministic scheduler.
// head: <schedules> <seed> <workers> <kind of destination> <bytes already in the destination>
//       <kind of source 0> <its bytes> <kind of source 1> <its bytes>
//   sources: mem (fixed memory), grow (growing memory), sync (stdio file), file (asynchronous), late (another thread delivers)
//   destinations: grow, sync, file, late (another thread stores, in order, some time later)
// operation lines: copy <source> <chunk> <start> <end>
#include "vsched.h"
#include "uvstub.h"
#include <mgcore.h>
#include <mg/media/TBitstream.h>
#include <deque>
using sched::Quiet;
using namespace mg::core;

// what is going on, as the caller could observe it through the storages it handed in
static int g_issued, g_stored, g_peak, g_overlap;

class Late : public Ibitstream_storage {        // delivers reads and stores writes on another thread, in order
    struct Job { bool rd; std::vector<unsigned char> b; Ibitstream_cb* cb; };
    std::deque<Job> jobs; bool quit, gone;
public:
    std::vector<unsigned char> d; uint64_t pos; std::vector<unsigned char> stored;
    Late(const std::vector<unsigned char>& x, bool dst) : quit(false), gone(false), d(x), pos(0) {
        if (dst) { stored = x; pos = x.size(); }
        sched::spawn([this]() {
            for (;;) {
                sched::block_until([this]() { return !jobs.empty() || quit; });
                if (jobs.empty()) { gone = true; return; }
                Job j; { Quiet q; j = jobs.front(); jobs.pop_front(); }
                sched::point();
                if (j.rd) j.cb->read_cb(j.b.empty() ? (const unsigned char*)"" : &j.b[0], (uint32_t)j.b.size());
                else { { Quiet q; stored.insert(stored.end(), j.b.begin(), j.b.end()); } j.cb->write_cb((uint32_t)j.b.size()); }
                { Quiet q; memset(j.b.data(), 0xee, j.b.size()); }
            }
        }, false);
    }
    ~Late() { quit = true; sched::block_until([this]() { return gone; }); }
    virtual void read(uint32_t n, Ibitstream_cb* cb) {
        sched::point(); Quiet q;
        uint64_t left = pos < d.size() ? d.size() - pos : 0;
        if (n > left) n = (uint32_t)left;
        Job j; j.rd = true; j.cb = cb; j.b.assign(d.begin() + pos, d.begin() + pos + n); pos += n; jobs.push_back(j);
    }
    virtual void write(const unsigned char* p, uint32_t n, Ibitstream_cb* cb) {
        sched::point(); Quiet q;
        Job j; j.rd = false; j.cb = cb; j.b.assign(p, p + n); pos += n; jobs.push_back(j);
    }
    virtual bool eof() { return pos >= d.size(); }
    virtual void flush() {}
    virtual uint64_t get_position() const { return pos; }
    virtual void set_position(uint64_t p) { pos = p; }
    virtual void idle() { sched::point(); }
};
// the storages as they are handed to the copy, with a count of the chunks on their way
struct SpySource : Ibitstream_storage {
    Ibitstream_storage& s; SpySource(Ibitstream_storage& x) : s(x) {}
    virtual void read(uint32_t n, Ibitstream_cb* cb) { { Quiet q; g_issued++; if (g_issued - g_stored > g_peak) g_peak = g_issued - g_stored; } s.read(n, cb); }
    virtual void write(const unsigned char*, uint32_t, Ibitstream_cb*) { throw 1; }
    virtual bool eof() { return s.eof(); }
    virtual void flush() { s.flush(); }
    virtual uint64_t get_position() const { return s.get_position(); }
    virtual void set_position(uint64_t p) { s.set_position(p); }
    virtual void idle() { s.idle(); }
};
struct SpyDest : Ibitstream_storage, Ibitstream_cb {
    Ibitstream_storage& s; std::deque<Ibitstream_cb*> cbs; bool flushed; SpyDest(Ibitstream_storage& x) : s(x), flushed(false) {}
    virtual void read_cb(const unsigned char*, uint32_t) { throw 1; }
    virtual void write_cb(uint32_t n) { Ibitstream_cb* c; { Quiet q; g_stored++; c = cbs.front(); cbs.pop_front(); } c->write_cb(n); }
    virtual void read(uint32_t, Ibitstream_cb*) { throw 1; }
    virtual void write(const unsigned char* p, uint32_t n, Ibitstream_cb* cb) { { Quiet q; cbs.push_back(cb); flushed = false; } s.write(p, n, this); }
    virtual bool eof() { return s.eof(); }
    virtual void flush() { flushed = true; s.flush(); }
    virtual uint64_t get_position() const { return s.get_position(); }
    virtual void set_position(uint64_t p) { s.set_position(p); }
    virtual void idle() { s.idle(); }
};

static std::string dir;
static void dump(const std::string& p, const std::vector<unsigned char>& d) { Quiet q; FILE* f = fopen(p.c_str(), "wb"); fwrite(d.data(), 1, d.size(), f); fclose(f); }
static std::vector<unsigned char> load(const std::string& p) {
    Quiet q; std::vector<unsigned char> v; FILE* f = fopen(p.c_str(), "rb"); int c;
    while (f && (c = fgetc(f)) != EOF) v.push_back((unsigned char)c);
    if (f) fclose(f); return v;
}
struct Store {
    std::string kind, path; std::vector<unsigned char> d;
    CResource<fixed_memory_read> mr; CResource<fixed_memory_write> mw; CResource<sync_file_bitstream> sf; CResource<file_bitstream> fb; CResource<Late> lt;
    Ibitstream_storage* p;
    struct Null : Ibitstream_cb { virtual void read_cb(const unsigned char*, uint32_t) {} virtual void write_cb(uint32_t) {} };
    void make(const std::string& k, const std::vector<unsigned char>& x, const std::string& name, mg::uv::loopthread& loop, bool dst) {
        kind = k; d = x; path = dir + "/" + name;
        if (k == "mem") { mr = CResource<fixed_memory_read>(new fixed_memory_read(d.empty() ? (const unsigned char*)"" : &d[0], d.size())); p = (fixed_memory_read*)mr; }
        else if (k == "grow") {
            mw = CResource<fixed_memory_write>(new fixed_memory_write(8)); Null n; if (d.size()) mw->write(&d[0], (uint32_t)d.size(), &n);
            p = (fixed_memory_write*)mw;
        }
        else if (k == "sync") {
            dump(path, d); sf.Create(); sf->open(path.c_str(), !dst); Null n;
            if (dst && d.size()) ((Ibitstream_storage*)(sync_file_bitstream*)sf)->write(&d[0], (uint32_t)d.size(), &n);
            p = (sync_file_bitstream*)sf;
        }
        else if (k == "file") {
            dump(path, d); fb = CResource<file_bitstream>(new file_bitstream(loop));
            fb->open_sync(path.c_str(), dst ? (O_RDWR | O_CREAT) : O_RDONLY);
            if (dst) fb->set_position(d.size());
            p = (file_bitstream*)fb;
        }
        else { lt = CResource<Late>(new Late(d, dst)); p = (Late*)lt; }
    }
    std::vector<unsigned char> content() {       // right now
        if (kind == "grow") return std::vector<unsigned char>(mw->get_buffer(), mw->get_buffer() + mw->size());
        if (kind == "late") return lt->stored;
        return load(path);
    }
    void close() { if (fb) fb->close(false); if (sf) sf->close(); }
};
int main(int argc, char** argv) {
    if (argc < 4) return 2;
    dir = std::string(argv[3]) + "/c" + std::to_string(getpid());
    mkdir(dir.c_str(), 0700);
    sched::furthest_tick = 5000000000ull;
    return run_scheduled(argv[1], argv[2], [](const Script& sc, Tr& tr) {
        mg::uv::loopthread loop;
        { Quiet q; uvstub::reset(atoi(sc.head[2].c_str())); g_issued = g_stored = g_peak = 0; }
        loop.Create();
        loop->set_wait_time(2);
        loop->start();
        {
            Store dst, src[2];
            dst.make(sc.head[3], unhex(sc.head[4]), "d", loop, true);
            for (int i = 0; i < 2; i++) src[i].make(sc.head[5 + 2 * i], unhex(sc.head[6 + 2 * i]), i ? "s1" : "s0", loop, false);
            SpyDest sd(*dst.p);
            for (size_t k = 0; k < sc.ops.size(); k++) {
                int x, chunk, from, to, fault; size_t before = sd.cbs.size();
                { Quiet q; const std::vector<std::string>& o = sc.ops[k]; x = atoi(o[1].c_str()); chunk = atoi(o[2].c_str()); from = atoi(o[3].c_str()); to = atoi(o[4].c_str());
                  fault = o.size() > 5 ? atoi(o[5].c_str()) : 0; g_issued = g_stored = g_peak = 0; sd.flushed = false; if (fault) uvstub::next_fault(fault); }
                SpySource ss(*src[x].p);
                int ex = 0;
                try { copy_stream(ss, sd, chunk, from, to); }
                catch (mgexceptionbase& e) { ex = (int)e.get_error_number(); }
                std::vector<unsigned char> c = dst.content();
                Quiet q;
                tr.ev("copy", "\"x\":" + num(x) + ",\"chunk\":" + num(chunk) + ",\"a\":" + num(from) + ",\"b\":" + num(to) + ",\"fault\":" + num(fault) + ",\"ex\":" + num(ex) + ",\"over\":" + num(g_peak > 11 ? g_peak : 0) +
                    ",\"left\":" + num((long)sd.cbs.size()) + ",\"flushed\":" + num(sd.flushed) + ",\"d\":" + jbytes(c.data(), c.size()));
            }
            dst.close(); src[0].close(); src[1].close();
        }
        int ex = 0;
        try { loop->end(); } catch (mgexceptionbase& e) { ex = (int)e.get_error_number(); }
        Quiet q; tr.ev("end", "\"ex\":" + num(ex));
    }, [](const Script& sc) {
        std::vector<unsigned char> i = unhex(sc.head[4]), a = unhex(sc.head[6]), b = unhex(sc.head[8]);
        bool f = false; for (size_t i = 0; i < sc.ops.size(); i++) f |= sc.ops[i].size() > 5;
        return std::string("\"faults\":") + (f ? "1" : "0") + ",\"dst\":\"" + sc.head[3] + "\",\"had\":" + jbytes(i.data(), i.size()) + ",\"src\":[" + jbytes(a.data(), a.size()) + "," + jbytes(b.data(), b.size()) + "]";
    });
}
