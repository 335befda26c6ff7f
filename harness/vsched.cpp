#include "vsched.h"
#include <pthread.h>
#include <ucontext.h>
#include <dlfcn.h>
#include <errno.h>
#include <time.h>
#include <cxxabi.h>
#include <unordered_set>
#include <deque>
#include <new>

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() throw(); }
struct Eh { void* caught; unsigned int uncaught; };

namespace sched {
bool active = false;
enum State { RUN, MUTEX, COND, JOIN, SLEEP, PRED, LAST, DONE };
struct Co {
    int id;
    ucontext_t ctx;
    void* stack;
    State st;
    void* on;                 // mutex or condition waited for
    pthread_mutex_t* back;    // mutex to take again after the condition
    uint64_t deadline;        // 0: none
    bool timedout;
    int join;
    std::function<bool()> pred;
    std::function<void()> fn;
    void* (*start)(void*);
    void* arg;
    bool daemon;
    Eh eh;
};
static const size_t STACK = 256 << 10;
static std::vector<Co*> cos;
static int ncos;
static std::vector<void*> stackpool;
static Co* cur;
static ucontext_t outside;
static Policy pol;
static uint64_t rng;
static uint64_t vnow;
static uint32_t nsteps, since_switch;
static size_t nextat;
static int silent;
static std::string outcome;
static std::string failure;
static const uint32_t MAXSTEPS = 400000;

static uint64_t rnd64() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
uint32_t rnd(uint32_t n) { return n ? (uint32_t)((rnd64() >> 11) % n) : 0; }
int self() { return cur ? cur->id : 0; }
uint64_t now() { return vnow; }
uint32_t steps() { return nsteps; }
void quiet(bool on) { silent += on ? 1 : -1; }
void fail(const char* what) { Quiet q; if (failure.empty()) failure = what; }
bool done(int co) { Quiet q; return cos[co]->st == DONE; }

static void finish(const std::string& how) {
    outcome = how;
    active = false;
    Co* c = cur; cur = 0;
    swapcontext(&c->ctx, &outside);
    abort();
}
static void memory_run(bool begin);
static bool can_run(Co* c) {
    switch (c->st) {
    case RUN: return true;
    case MUTEX: { pthread_mutex_t* m = (pthread_mutex_t*)c->on; return m->__data.__owner == 0; }
    case COND: return false;
    case JOIN: return cos[c->join]->st == DONE;
    case SLEEP: return false;
    case PRED: { silent++; bool r = c->pred(); silent--; return r; }
    case LAST: return false;
    case DONE: return false;
    }
    return false;
}
static bool has_deadline(Co* c) { return (c->st == COND || c->st == SLEEP) && c->deadline != 0; }
static void fire(Co* c) {   // its time has come
    c->timedout = true;
    if (c->st == COND) { c->st = MUTEX; c->on = c->back; } else c->st = RUN;
}
static void fire_due() { for (Co* c : cos) if (has_deadline(c) && c->deadline <= vnow) fire(c); }
uint64_t furthest_tick = ~0ull;
static bool tick(uint64_t most) {        // lets the clock run to the next deadline, if that is not too far away
    Co* best = 0;
    for (Co* c : cos) if (has_deadline(c) && (!best || c->deadline < best->deadline)) best = c;
    if (!best) return false;
    if (best->deadline > vnow && best->deadline - vnow > most) return false;
    if (best->deadline > vnow) vnow = best->deadline;
    fire_due();
    return true;
}
static void switch_to(Co* n) {
    if (n->st == MUTEX || n->st == JOIN || n->st == PRED) n->st = RUN;
    since_switch = 0;
    if (n == cur) return;
    Co* p = cur;
    Eh* g = (Eh*)__cxxabiv1::__cxa_get_globals();
    p->eh = *g;
    *g = n->eh;
    cur = n;
    swapcontext(&p->ctx, &n->ctx);
}
// the running thread gives way: others only if it cannot go on
// (the scheduler's own use of containers must not come back here: silent)
static void choose(bool mustleave) {
    for (;;) {
        silent++;
        static Co* r[256]; uint32_t n = 0;
        std::string bad;
        if (!failure.empty()) bad = failure;
        else {
            for (Co* c : cos) if (n < 256 && can_run(c)) { if (c == cur && mustleave && c->st == RUN) continue; r[n++] = c; }
            if (!n && cur->st == RUN && mustleave) { silent--; return; }
            if (!n) for (Co* c : cos) if (c->st == LAST) { c->st = RUN; r[n++] = c; break; }
            if (!n && !tick(~0ull)) bad = "stuck";
        }
        silent--;
        if (!bad.empty()) finish(bad);
        if (n) { switch_to(r[rnd(n)]); return; }
    }
}
static void decide(int per1000) {
    if (!active || silent) return;
    silent++;
    int what = 0;      // 1 others if possible, 2 anybody
    std::string end;
    uint32_t n = nsteps++;
    since_switch++;
    if (!failure.empty()) end = failure;
    else if (n > MAXSTEPS) end = "long";
    else if (nextat < pol.at.size() && n >= pol.at[nextat]) { nextat++; what = 1; }
    else if (since_switch > 3000) {          // nobody may run for ever while others wait
        vnow += 1000000; fire_due(); since_switch = 0; what = 1;
    } else if (!pol.alone) {
        if ((int)rnd(1000) < per1000) what = 1;
        else if (pol.tick_per_1000 && per1000 >= pol.sync_per_1000) {
            if ((int)rnd(1000) < pol.tick_per_1000 && tick(furthest_tick)) what = 2;
            else if ((int)rnd(1000) < pol.spurious_per_1000)
                for (Co* c : cos) if (c->st == COND && rnd(2)) { c->timedout = false; c->st = MUTEX; c->on = c->back; c->deadline = 0; break; }
        }
    }
    silent--;
    if (!end.empty()) finish(end);
    if (what) choose(what == 1);
}
static void sync_point() { vnow += 1000; decide(pol.sync_per_1000); }
void point() { sync_point(); }
static void leave() { if (!active) { fprintf(stderr, "blocked outside a run\n"); _exit(97); } choose(true); }

static void entry() {
    Co* me = cur;
    { if (me->start) me->start(me->arg); else me->fn(); }
    me->st = DONE;
    if (me->id == 0) finish("");
    choose(true);
    abort();
}
static Co* make(bool daemon) {
    Quiet q;
    Co* c = new Co;
    c->id = (int)cos.size(); c->st = RUN; c->on = 0; c->back = 0; c->deadline = 0; c->timedout = false; c->join = -1;
    c->start = 0; c->arg = 0; c->daemon = daemon; c->eh.caught = 0; c->eh.uncaught = 0;
    if (stackpool.empty()) c->stack = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    else { c->stack = stackpool.back(); stackpool.pop_back(); }
    getcontext(&c->ctx);
    c->ctx.uc_stack.ss_sp = c->stack; c->ctx.uc_stack.ss_size = STACK; c->ctx.uc_link = 0;
    makecontext(&c->ctx, entry, 0);
    cos.push_back(c);
    ncos = (int)cos.size();
    return c;
}
int spawn(std::function<void()> fn, bool daemon) { int id; { Quiet q; Co* c = make(daemon); c->fn = fn; id = c->id; } sync_point(); return id; }
void sleep_ns(uint64_t ns) { cur->st = SLEEP; cur->deadline = vnow + ns; leave(); cur->deadline = 0; }
void settle() { cur->st = LAST; leave(); }
void block_until(std::function<bool()> ready) {
    for (;;) {
        { Quiet q; if (ready()) return; cur->pred = ready; cur->st = PRED; }
        leave();
    }
}
std::string run(const Policy& p, std::function<void()> fn) {
    pol = p; rng = p.seed * 0x9E3779B97F4A7C15ull + 0x1234567; if (!rng) rng = 1;
    for (int i = 0; i < 5; i++) rnd64();
    vnow = 1000000000ull; nsteps = 0; since_switch = 0; nextat = 0; silent = 0; failure.clear();
    Co* m = make(false);
    m->fn = fn;
    Eh saved = *(Eh*)__cxxabiv1::__cxa_get_globals();
    memory_run(true);
    cur = m; active = true;
    swapcontext(&outside, &m->ctx);
    memory_run(false);
    *(Eh*)__cxxabiv1::__cxa_get_globals() = saved;
    active = false; cur = 0;
    for (Co* c : cos) { stackpool.push_back(c->stack); delete c; }
    cos.clear();
    return outcome;
}

// ------------------------------------------------------------------ memory
static char* arena; static size_t arena_top; static const size_t ARENA = 32ull << 30, RUN_LIMIT = 512ull << 20;
static size_t run_base;
static unsigned char* shadow;      // per 16 bytes: 0 never used, 1 in use, 2 released
static long live;
static void init_arena() {
    arena = (char*)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shadow = (unsigned char*)mmap(0, ARENA / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static void memory_run(bool begin) {
    if (begin) { run_base = arena_top; return; }
    if (outcome != "memory") return;
    size_t a = (run_base + 4095) & ~4095ull, b = arena_top & ~4095ull;      // a run that took all of it gives the pages back
    if (b > a) madvise(arena + a, b - a, MADV_DONTNEED);
}
static inline bool in_arena(const void* p) { return arena && (const char*)p >= arena && (const char*)p < arena + arena_top; }
size_t live_blocks() { return live; }
bool freed(const void* p, size_t n) {
    if (!in_arena(p)) return false;
    size_t a = ((const char*)p - arena) / 16, b = ((const char*)p - arena + (n ? n - 1 : 0)) / 16;
    for (; a <= b; a++) if (shadow[a] != 1) return true;
    return false;
}
static void* take(size_t n) {
    if (!arena) init_arena();
    if (n > RUN_LIMIT || arena_top - run_base > RUN_LIMIT) finish("memory");     // no run needs that much
    size_t k = (n + 15) / 16; if (!k) k = 1;
    if (arena_top + (k + 2) * 16 > ARENA) { fprintf(stderr, "arena full\n"); _exit(97); }
    char* p = arena + arena_top;
    *(size_t*)p = k;                         // header unit, then a red zone unit after the block
    arena_top += (k + 2) * 16;
    memset(shadow + (p - arena) / 16 + 1, 1, k);
    live++;
    return p + 16;
}
static void give(void* q) {
    char* p = (char*)q - 16;
    size_t i = ((char*)q - arena) / 16, k = *(size_t*)p;
    if (shadow[i] != 1) { fail("uaf"); return; }
    memset(shadow + i, 2, k);
    memset(q, 0xdd, k * 16);
    live--;
}
static inline void touch(const void* p, size_t n) {
    if (!active) return;
    if (in_arena(p) && freed(p, n)) fail("uaf");
    decide(pol.mem_per_1000);
}
}
using namespace sched;

void* operator new(size_t n) { if (active && !silent) return take(n); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void operator delete(void* p) noexcept { if (!p) return; if (in_arena(p)) give(p); else free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

// ------------------------------------------------------------------ threads, locks, waits
static void dead(const void* p, size_t n) { if (active && freed(p, n)) fail("uaf"); }
extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*f)(void*), void* arg) {
    Co* c = make(false);
    c->start = f; c->arg = arg;
    *t = (pthread_t)(0x10000 + c->id);
    sync_point();
    return 0;
}
int pthread_join(pthread_t t, void** r) {
    if (r) *r = 0;
    sync_point();
    int id = (int)((long)t - 0x10000);
    if (id < 0 || id >= ncos) { fail("badjoin"); return ESRCH; }
    while (!sched::done(id)) { cur->st = JOIN; cur->join = id; leave(); }
    return 0;
}
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self() { return (pthread_t)(0x10000 + sched::self()); }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    int kind = 0;
    if (a) pthread_mutexattr_gettype(a, &kind);
    memset(m, 0, sizeof *m);
    m->__data.__kind = kind;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (active && m->__data.__owner) return EBUSY;
    return 0;
}
static bool rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
static void take_m(pthread_mutex_t* m) { m->__data.__owner = sched::self() + 1; m->__data.__count = 1; }
static void block_m(pthread_mutex_t* m) {
    while (m->__data.__owner) { cur->st = MUTEX; cur->on = m; leave(); dead(m, sizeof *m); }
    take_m(m);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!active) return 0;
    dead(m, sizeof *m);
    sync_point();
    dead(m, sizeof *m);
    if (m->__data.__owner == sched::self() + 1) {
        if (rec(m)) { m->__data.__count++; return 0; }
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    block_m(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!active) return 0;
    dead(m, sizeof *m);
    sync_point();
    if (m->__data.__owner == sched::self() + 1 && rec(m)) { m->__data.__count++; return 0; }
    if (m->__data.__owner) return EBUSY;
    take_m(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!active) return 0;
    dead(m, sizeof *m);
    if (m->__data.__owner != sched::self() + 1) { fail("badunlock"); return EPERM; }
    if (--m->__data.__count == 0) m->__data.__owner = 0;
    sync_point();
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
    Quiet q;
    if (active) for (Co* x : cos) if (x->st == COND && x->on == c) fail("busycond");
    return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
    if (!active) return 0;
    dead(c, sizeof *c); dead(m, sizeof *m);
    if (m->__data.__owner != sched::self() + 1) { fail("badwait"); return EPERM; }
    unsigned depth = m->__data.__count;
    sync_point();
    m->__data.__count = 0; m->__data.__owner = 0;
    cur->timedout = false; cur->deadline = deadline; cur->st = COND; cur->on = c; cur->back = m;
    if (deadline && deadline <= vnow) fire(cur);
    leave();
    dead(m, sizeof *m);
    block_m(m);
    m->__data.__count = depth;
    bool to = cur->timedout;
    cur->deadline = 0; cur->timedout = false;
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, 0); }
static uint64_t ns(const struct timespec* t) { uint64_t v = (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; return v ? v : 1; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return cond_wait(c, m, ns(t)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return cond_wait(c, m, ns(t)); }
static int wake(pthread_cond_t* c, bool all) {
    if (!active) return 0;
    dead(c, sizeof *c);
    sync_point();
    Quiet q;
    std::vector<Co*> w;
    for (Co* x : cos) if (x->st == COND && x->on == c) w.push_back(x);
    if (!w.empty() && !all) { Co* one = w[rnd((uint32_t)w.size())]; w.assign(1, one); }
    for (Co* x : w) { x->st = MUTEX; x->on = x->back; x->timedout = false; x->deadline = 0; }
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { return wake(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) { return wake(c, true); }

static int real_clock(clockid_t k, struct timespec* t) {
    static int (*f)(clockid_t, struct timespec*) = 0;
    if (!f) f = (int (*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime");
    return f(k, t);
}
int clock_gettime(clockid_t k, struct timespec* t) {
    if (!active) return real_clock(k, t);
    sync_point();
    t->tv_sec = vnow / 1000000000ull; t->tv_nsec = vnow % 1000000000ull;
    return 0;
}
int nanosleep(const struct timespec* t, struct timespec*) { if (active) sleep_ns(ns(t)); return 0; }
int clock_nanosleep(clockid_t, int flags, const struct timespec* t, struct timespec*) {
    if (!active) return 0;
    uint64_t d = ns(t);
    if (flags & TIMER_ABSTIME) d = d > vnow ? d - vnow : 1;
    sleep_ns(d);
    return 0;
}
int usleep(useconds_t u) { if (active) sleep_ns((uint64_t)u * 1000 + 1); return 0; }
unsigned sleep(unsigned s) { if (active) sleep_ns((uint64_t)s * 1000000000ull + 1); return 0; }
int sched_yield() { if (active) choose(true); return 0; }

// ------------------------------------------------------------------ memory accesses (-fsanitize=thread)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* p) { touch(p, n); } \
    void __tsan_write##n(void* p) { touch(p, n); } \
    void __tsan_unaligned_read##n(void* p) { touch(p, n); } \
    void __tsan_unaligned_write##n(void* p) { touch(p, n); } \
    void __tsan_volatile_read##n(void* p) { touch(p, n); } \
    void __tsan_volatile_write##n(void* p) { touch(p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { touch(p, 8); }
void __tsan_vptr_read(void** p) { touch(p, 8); }
void __tsan_read_range(void* p, size_t n) { touch(p, n); }
void __tsan_write_range(void* p, size_t n) { touch(p, n); }
#define AT(T, b) \
    T __tsan_atomic##b##_load(const volatile T* a, int) { touch((const void*)a, sizeof(T)); return *a; } \
    void __tsan_atomic##b##_store(volatile T* a, T v, int) { touch((const void*)a, sizeof(T)); *a = v; } \
    T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { touch((const void*)a, sizeof(T)); T o = *a; *a = v; return o; } \
    T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { touch((const void*)a, sizeof(T)); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { touch((const void*)a, sizeof(T)); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { touch((const void*)a, sizeof(T)); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { touch((const void*)a, sizeof(T)); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { touch((const void*)a, sizeof(T)); T o = *a; *a = o ^ v; return o; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { touch((const void*)a, sizeof(T)); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { touch((const void*)a, sizeof(T)); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int, int) { touch((const void*)a, sizeof(T)); T o = *a; if (o == c) *a = v; return o; }
AT(unsigned char, 8) AT(unsigned short, 16) AT(unsigned int, 32) AT(unsigned long, 64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------ scripts
static Policy make_policy(uint64_t seed, uint32_t k, uint32_t est) {
    Policy p;
    p.seed = seed * 1000003ull + k + 1;
    p.sync_per_1000 = p.mem_per_1000 = 0; p.tick_per_1000 = p.spurious_per_1000 = 0; p.alone = false;
    uint64_t z = p.seed * 0x9E3779B97F4A7C15ull; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 32;
    if (k % 3 == 0) {           // few forced switches, anywhere
        p.alone = true;
        uint32_t d = 1 + (z >> 8) % 4;
        for (uint32_t i = 0; i < d; i++) { z = z * 6364136223846793005ull + 1442695040888963407ull; p.at.push_back((uint32_t)((z >> 33) % (est + 10))); }
        for (size_t i = 0; i < p.at.size(); i++) for (size_t j = i + 1; j < p.at.size(); j++) if (p.at[j] < p.at[i]) std::swap(p.at[i], p.at[j]);
    } else {
        static const int s[] = {80, 250, 500, 700}, m[] = {0, 4, 15, 60};
        p.sync_per_1000 = s[(z >> 10) % 4]; p.mem_per_1000 = m[(z >> 14) % 4];
        if (k % 3 == 2) { p.tick_per_1000 = 30 + (z >> 20) % 200; p.spurious_per_1000 = (z >> 30) % 60; }
    }
    return p;
}

int run_scheduled(const char* in, const char* out, std::function<void(const Script&, Tr&)> body, std::function<std::string(const Script&)> head) {
    std::vector<Script> v = load_scripts(in);
    FILE* fo = fopen(out, "w");
    if (!fo) return 2;
    dup2(fileno(fo), 3);
    g_sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    volatile uint64_t* counters = (volatile uint64_t*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int deaths = 0;
    for (size_t i = 0; i < v.size(); i++) {
        pid_t p = fork();
        if (p == 0) {
            if (!freopen("/dev/null", "w", stdout)) _exit(99);
            struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
            uint32_t n = v[i].head.size() > 0 ? (uint32_t)atoi(v[i].head[0].c_str()) : 1;
            uint64_t seed = v[i].head.size() > 1 ? strtoull(v[i].head[1].c_str(), 0, 10) : 1;
            std::string h = head ? head(v[i]) : "";
            std::unordered_set<std::string> seen;
            uint32_t est = 40;
            for (uint32_t k = 0; k < n; k++) {
                g_sh->len = 0; g_sh->open = 0;
                std::string pre = "{\"id\":" + jstr(v[i].id + "#" + std::to_string(k)) + (h.empty() ? "" : ",") + h + ",\"ev\":[";
                sh_put(pre);
                uint32_t base = g_sh->len;
                g_sh->open = 1;
                struct itimerval tv; memset(&tv, 0, sizeof tv);
                tv.it_value.tv_sec = 10;
                setitimer(ITIMER_REAL, &tv, 0);
                Tr t;
                std::string how = sched::run(make_policy(seed, k, est), [&]() {
                    try { body(v[i], t); }
                    catch (...) { sched::Quiet q; t.ev("escaped", ""); }
                });
                if (!how.empty()) t.ev(how, "");
                if (sched::steps() > est) est = sched::steps();
                memset(&tv, 0, sizeof tv);
                setitimer(ITIMER_REAL, &tv, 0);
                g_sh->open = 0;
                counters[0]++;
                std::string ev(g_sh->buf + base, g_sh->len - base);
                if (!seen.insert(ev).second) continue;
                sh_put("]}\n");
                size_t off = 0;
                while (off < g_sh->len) { ssize_t w = ::write(3, g_sh->buf + off, g_sh->len - off); if (w <= 0) _exit(98); off += w; }
                g_sh->len = 0;
                if (seen.size() > 4000) break;
            }
            counters[1] += sched::steps();
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) >= 97 && WEXITSTATUS(st) <= 99) return 3;
        std::string what = "crash";
        int code = WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st);
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) what = "hang";
        if (!g_sh->open) return 4;
        std::string s(g_sh->buf, g_sh->len);
        if (s.back() != '[') s += ",";
        s += "{\"op\":\"" + what + "\",\"code\":" + num(code) + "}]}\n";
        if (::write(3, s.data(), s.size()) < 0) return 5;
        deaths += what == "hang" ? 10 : 1;
        if (deaths > 25) break;
    }
    FILE* fc = fopen((std::string(out) + ".n").c_str(), "w");
    if (fc) { fprintf(fc, "%llu\n", (unsigned long long)counters[0]); fclose(fc); }
    return 0;
}
