// The storages a bit stream works on, used directly.
// head: <kind> <base> <bytes or size>
//   kinds: mem (fixed memory), grow (growing memory, the number is its initial size), syncr, syncw, filer, filew, filerw
//   base: byte position the files' data starts at (the rest of the file is a hole)
// operation lines: read n | write <hex> | seek p | flush
#include "common.h"
#include <mgcore.h>
#include <mg/media/TBitstream.h>
#include <atomic>
#include <sys/stat.h>
#include <dirent.h>
using namespace mg::core;
static std::string dir;
struct Cb : Ibitstream_cb {
    std::vector<unsigned char> d; long n; std::atomic<bool> called; int times;
    Cb() : n(-1), called(false), times(0) {}
    virtual void read_cb(const unsigned char* p, uint32_t k) { d.assign(p, p + k); n = k; times++; called = true; }
    virtual void write_cb(uint32_t k) { n = k; times++; called = true; }
};
// how many times this process has the file open
static int opened(const std::string& path) {
    int n = 0;
    DIR* d = opendir("/proc/self/fd");
    while (struct dirent* e = readdir(d)) {
        char b[4096]; ssize_t k = readlink(("/proc/self/fd/" + std::string(e->d_name)).c_str(), b, sizeof b);
        if (k > 0 && std::string(b, k) == path) n++;
    }
    closedir(d);
    return n;
}
int main(int argc, char** argv) {
    if (argc < 4) return 2;
    dir = argv[3];
    return run_scripts(argv[1], argv[2], [](const Script& s) {
        std::vector<unsigned char> v; if (s.head[0] != "grow") v = unhex(s.head[2]);
        return "\"kind\":\"" + s.head[0] + "\",\"init\":" + jbytes(v.data(), v.size());
    }, [](const Script& s, Tr& t) {
        std::string kind = s.head[0], path = dir + "/s" + std::to_string(getpid());
        uint64_t base = strtoull(s.head[1].c_str(), 0, 10);
        std::vector<unsigned char> d; if (kind != "grow") d = unhex(s.head[2]);
        CResource<fixed_memory_read> mr; CResource<fixed_memory_write> mw; CResource<sync_file_bitstream> sf; CResource<file_bitstream> fb;
        mg::uv::loopthread loop;
        Ibitstream_storage* p = 0;
        unlink(path.c_str());
        if (kind != "mem" && kind != "grow" && kind != "syncw" && kind != "filew") {
            FILE* f = fopen(path.c_str(), "wb"); fseeko(f, base, SEEK_SET); fwrite(d.data(), 1, d.size(), f); fclose(f);
            if (base && d.empty()) truncate(path.c_str(), base);
        }
        if (kind == "mem") { mr = CResource<fixed_memory_read>(new fixed_memory_read(d.empty() ? (const unsigned char*)"" : &d[0], d.size())); p = (fixed_memory_read*)mr; }
        else if (kind == "grow") { mw = CResource<fixed_memory_write>(new fixed_memory_write(atoi(s.head[2].c_str()))); p = (fixed_memory_write*)mw; }
        else if (kind[0] == 's') { sf.Create(); if (kind == "syncw") fclose(fopen(path.c_str(), "wb")); sf->open(path.c_str(), kind == "syncr"); p = (sync_file_bitstream*)sf; }
        else {
            loop.Create(); loop->set_wait_time(1); loop->start();
            fb = CResource<file_bitstream>(new file_bitstream(loop));
            fb->open_sync(path.c_str(), kind == "filer" ? (O_RDONLY | O_EXCL) : kind == "filew" ? (O_CREAT | O_WRONLY | O_TRUNC) : (O_CREAT | O_RDWR));
            p = (file_bitstream*)fb;
        }
        if (base) p->set_position(base);
        for (size_t k = 0; k < s.ops.size(); k++) {
            const std::vector<std::string>& o = s.ops[k];
            Cb* cb = new Cb;
            std::string f;
            int ex = 0;
            try {
                if (o[0] == "read") {
                    int n = atoi(o[1].c_str());
                    p->read(n, cb);
                    for (int i = 0; !cb->called && i < 4000; i++) { p->idle(); usleep(500); }
                    f = "\"n\":" + num(n) + ",\"d\":" + jbytes(cb->d.data(), cb->d.size());
                } else if (o[0] == "write") {
                    std::vector<unsigned char> b = unhex(o[1]);
                    unsigned char* q = new unsigned char[b.size() ? b.size() : 1];
                    memcpy(q, b.data(), b.size());
                    p->write(q, (uint32_t)b.size(), cb);
                    memset(q, 0xee, b.size()); delete[] q;      // the caller's memory is its own again
                    for (int i = 0; !cb->called && i < 4000; i++) { p->idle(); usleep(500); }
                    f = "\"d\":" + jbytes(b.data(), b.size()) + ",\"n\":" + num(cb->n);
                } else if (o[0] == "seek") { f = "\"n\":" + o[1]; p->set_position(base + atoi(o[1].c_str())); }
                else if (o[0] == "flush") { f = "\"n\":0"; p->flush(); }
                else _exit(97);
            } catch (mgexceptionbase& e) { ex = (int)e.get_error_number(); if (!ex) ex = -1; f = "\"n\":0"; }
            uint64_t pos = p->get_position();
            t.ev(o[0], f + ",\"ex\":" + num(ex) + ",\"times\":" + num(cb->times) + ",\"p\":" + (pos >= base && pos - base < 100000 ? num(pos - base) : std::string("-1")) + ",\"eof\":" + num(p->eof()));
        }
        std::vector<unsigned char> c;
        int left = 0;
        if (kind == "grow") c.assign(mw->get_buffer(), mw->get_buffer() + mw->size());
        else if (kind == "mem") c = d;
        else {
            if (fb) { fb->close(false); loop->end(); }
            // it closes its file when it is asked to and when it goes away
            if (sf && s.ops.size() % 2) sf->close();
            sf = CResource<sync_file_bitstream>();
            left = opened(path);
            FILE* f = fopen(path.c_str(), "rb"); fseeko(f, base, SEEK_SET); int x;
            while (c.size() < 5000 && (x = fgetc(f)) != EOF) c.push_back((unsigned char)x);
            fclose(f);
            unlink(path.c_str());
        }
        t.ev("content", "\"d\":" + jbytes(c.data(), c.size()) + ",\"left\":" + num(left));
    });
}
