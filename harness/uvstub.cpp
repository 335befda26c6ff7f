#include "vsched.h"
#include "uvstub.h"
#include <dlfcn.h>
#include <map>
#include <deque>
#include <set>
using sched::Quiet;
namespace uvstub {
int submitted, performed;
static int fault, shortn;
static int workers, started;
struct Loop { int active; bool stop; std::deque<uv_fs_t*> done; Loop() : active(0), stop(false) {} };
struct Job { uv_fs_t* req; uv_loop_t* loop; std::function<void(uv_fs_t*)> act; int fault; };
static std::map<uv_loop_t*, Loop*> loops;
static std::deque<Job*> queue;
static std::set<int> fds;
static Loop* at(uv_loop_t* l) { Loop*& x = loops[l]; if (!x) x = new Loop; return x; }
void reset(int n) {
    Quiet q;
    loops.clear(); queue.clear(); fault = 0; shortn = -1; workers = n; started = 0; submitted = performed = 0;
    for (int f : fds) ::close(f);
    fds.clear();
}
void next_fault(int c) { fault = c; }
void next_short(uint32_t n) { shortn = (int)n; }
template <class F> static F real(const char* n) {
    F f = (F)dlsym(RTLD_NEXT, n);
    if (!f) { fprintf(stderr, "no %s\n", n); _exit(97); }
    return f;
}
static void work() {
    for (;;) {
        sched::block_until([]() { return !queue.empty(); });
        Job* j = 0;
        { Quiet q; if (!queue.empty()) { j = queue.front(); queue.pop_front(); } }
        if (!j) continue;
        sched::point();
        {
            Quiet q;
            if (sched::freed(j->req, sizeof *j->req)) sched::fail("uaf");
            else if (j->fault) j->req->result = j->fault;
            else j->act(j->req);
            performed++;
        }
        sched::point();
        {
            Quiet q;
            if (loops.count(j->loop)) loops[j->loop]->done.push_back(j->req);
            delete j;
        }
        sched::point();
    }
}
static int submit(uv_loop_t* loop, uv_fs_t* req, uv_fs_type type, uv_fs_cb cb, std::function<void(uv_fs_t*)> act) {
    {
        Quiet q;
        void* data = req->data;
        memset(req, 0, sizeof *req);
        req->data = data; req->type = UV_FS; req->fs_type = type; req->loop = loop; req->cb = cb;
        Job* j = new Job;
        j->req = req; j->loop = loop; j->act = act; j->fault = fault;
        fault = 0;
        submitted++;
        at(loop)->active++;
        queue.push_back(j);
    }
    while (started < workers) { started++; sched::spawn(work, true); }
    sched::point();
    return 0;
}
static void take_result(uv_fs_t* req, uv_fs_t* tmp) {
    req->result = tmp->result; req->statbuf = tmp->statbuf;
    static void (*cl)(uv_fs_t*) = real<void (*)(uv_fs_t*)>("uv_fs_req_cleanup");
    cl(tmp);
}
}
using namespace uvstub;
extern "C" {
int uv_loop_init(uv_loop_t* l) { Quiet q; memset(l, 0, sizeof *l); delete loops[l]; loops[l] = new Loop; return 0; }
int uv_loop_close(uv_loop_t* l) { Quiet q; Loop* x = at(l); if (x->active) return UV_EBUSY; delete x; loops.erase(l); return 0; }
int uv_loop_alive(const uv_loop_t* l) { sched::point(); Quiet q; return at((uv_loop_t*)l)->active > 0; }
void uv_stop(uv_loop_t* l) { sched::point(); Quiet q; at(l)->stop = true; }
int uv_run(uv_loop_t* l, uv_run_mode mode) {
    Loop* x;
    { Quiet q; x = at(l); }
    sched::point();
    int alive = x->active > 0;
    while (alive && !x->stop) {
        if (mode != UV_RUN_NOWAIT) sched::block_until([x]() { return !x->done.empty(); });
        std::deque<uv_fs_t*>* batch;
        { Quiet q; batch = new std::deque<uv_fs_t*>; batch->swap(x->done); }
        for (;;) {
            uv_fs_t* r = 0;
            { Quiet q; if (!batch->empty()) { r = batch->front(); batch->pop_front(); } }
            if (!r) break;
            x->active--;
            if (sched::freed(r, sizeof *r)) { sched::fail("uaf"); sched::point(); }
            r->cb(r);
        }
        { Quiet q; delete batch; }
        alive = x->active > 0;
        if (mode != UV_RUN_DEFAULT) break;
        sched::point();
    }
    x->stop = false;
    return alive;
}
int uv_fs_open(uv_loop_t* l, uv_fs_t* req, const char* path, int flags, int mode, uv_fs_cb cb) {
    typedef int (*F)(uv_loop_t*, uv_fs_t*, const char*, int, int, uv_fs_cb);
    static F f = real<F>("uv_fs_open");
    mode &= 0666;
    if (!cb) { sched::point(); Quiet q; int r = f(l, req, path, flags, mode, 0); if (r >= 0) fds.insert((int)req->result); return r; }
    std::string p;
    { Quiet q; p = path; }
    return submit(l, req, UV_FS_OPEN, cb, [p, flags, mode](uv_fs_t* r) { uv_fs_t t; if (f(0, &t, p.c_str(), flags, mode, 0) >= 0) fds.insert((int)t.result); take_result(r, &t); });
}
int uv_fs_close(uv_loop_t* l, uv_fs_t* req, uv_file fd, uv_fs_cb cb) {
    typedef int (*F)(uv_loop_t*, uv_fs_t*, uv_file, uv_fs_cb);
    static F f = real<F>("uv_fs_close");
    auto act = [fd](uv_fs_t* r) {
        uv_fs_t t;
        if (!fds.count(fd)) { sched::fail("badclose"); r->result = UV_EBADF; return; }   // nothing of the sandbox's own is closed
        fds.erase(fd);
        f(0, &t, fd, 0); take_result(r, &t);
    };
    if (!cb) { sched::point(); Quiet q; req->data = 0; act(req); return (int)req->result; }
    return submit(l, req, UV_FS_CLOSE, cb, act);
}
typedef int (*RW)(uv_loop_t*, uv_fs_t*, uv_file, const uv_buf_t*, unsigned, int64_t, uv_fs_cb);
static int rw(bool wr, uv_loop_t* l, uv_fs_t* req, uv_file fd, const uv_buf_t* bufs, unsigned n, int64_t off, uv_fs_cb cb) {
    static RW fr = real<RW>("uv_fs_read"), fw = real<RW>("uv_fs_write");
    RW f = wr ? fw : fr;
    if (!cb) { sched::point(); Quiet q; if (!fds.count(fd)) return UV_EBADF; return f(l, req, fd, bufs, n, off, 0); }
    std::vector<uv_buf_t>* v;
    int sh = shortn;
    { Quiet q; shortn = -1; v = new std::vector<uv_buf_t>(bufs, bufs + n); }
    return submit(l, req, wr ? UV_FS_WRITE : UV_FS_READ, cb, [v, f, fd, off, sh](uv_fs_t* r) {
        uv_fs_t t;
        for (size_t i = 0; i < v->size(); i++) {
            if (sched::freed((*v)[i].base, (*v)[i].len)) { sched::fail("uaf"); r->result = UV_EFAULT; return; }
            if (sh >= 0 && (int)(*v)[i].len > sh) (*v)[i].len = sh;
        }
        if (!fds.count(fd)) { r->result = UV_EBADF; return; }
        f(0, &t, fd, v->data(), (unsigned)v->size(), off, 0);
        take_result(r, &t);
        delete v;
    });
}
int uv_fs_read(uv_loop_t* l, uv_fs_t* req, uv_file fd, const uv_buf_t* b, unsigned n, int64_t off, uv_fs_cb cb) { return rw(false, l, req, fd, b, n, off, cb); }
int uv_fs_write(uv_loop_t* l, uv_fs_t* req, uv_file fd, const uv_buf_t* b, unsigned n, int64_t off, uv_fs_cb cb) { return rw(true, l, req, fd, b, n, off, cb); }
int uv_fs_stat(uv_loop_t* l, uv_fs_t* req, const char* path, uv_fs_cb cb) {
    typedef int (*F)(uv_loop_t*, uv_fs_t*, const char*, uv_fs_cb);
    static F f = real<F>("uv_fs_stat");
    if (!cb) { sched::point(); Quiet q; return f(l, req, path, 0); }
    std::string p;
    { Quiet q; p = path; }
    return submit(l, req, UV_FS_STAT, cb, [p](uv_fs_t* r) { uv_fs_t t; f(0, &t, p.c_str(), 0); take_result(r, &t); });
}
int uv_fs_fstat(uv_loop_t* l, uv_fs_t* req, uv_file fd, uv_fs_cb cb) {
    typedef int (*F)(uv_loop_t*, uv_fs_t*, uv_file, uv_fs_cb);
    static F f = real<F>("uv_fs_fstat");
    if (!cb) { sched::point(); Quiet q; return f(l, req, fd, 0); }
    return submit(l, req, UV_FS_FSTAT, cb, [fd](uv_fs_t* r) { uv_fs_t t; f(0, &t, fd, 0); take_result(r, &t); });
}
int uv_fs_fsync(uv_loop_t* l, uv_fs_t* req, uv_file fd, uv_fs_cb cb) {
    typedef int (*F)(uv_loop_t*, uv_fs_t*, uv_file, uv_fs_cb);
    static F f = real<F>("uv_fs_fsync");
    if (!cb) { sched::point(); Quiet q; return f(l, req, fd, 0); }
    return submit(l, req, UV_FS_FSYNC, cb, [fd](uv_fs_t* r) { uv_fs_t t; f(0, &t, fd, 0); take_result(r, &t); });
}
}
