// Shared by every driver: reads scripts, runs each one in a forked worker that
// survives crashes and hangs, and prints one JSON line per executed trace.
//
// Script file:  "T <id> <header...>" , then one operation per line, then "E".
// Output line:  {"id":..., <header fields>, "ev":[{...},...]}
// A crash or hang of the code under test becomes the event {"op":"crash"...}
// or {"op":"hang"...}, which no specification has a transition for.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csignal>
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

struct Script {
    std::string id;
    std::vector<std::string> head;
    std::vector<std::vector<std::string> > ops;
};

static std::vector<Script> load_scripts(const char* path) {
    std::vector<Script> v;
    std::ifstream f(path);
    std::string line;
    Script cur;
    bool in = false;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::vector<std::string> t;
        std::string w;
        while (is >> w) t.push_back(w);
        if (t.empty()) continue;
        if (t[0] == "T") { cur = Script(); cur.id = t[1]; cur.head.assign(t.begin() + 2, t.end()); in = true; }
        else if (t[0] == "E") { if (in) v.push_back(cur); in = false; }
        else if (in) cur.ops.push_back(t);
    }
    return v;
}

// the trace being produced lives in shared memory, so that the parent still
// has it when the worker dies
struct Shared { volatile uint32_t len; volatile uint32_t open; char buf[8 << 20]; };
static Shared* g_sh;

static void sh_put(const std::string& s) {
    if (g_sh->len + s.size() + 4096 >= sizeof(g_sh->buf)) { fprintf(stderr, "trace too long\n"); _exit(97); }
    memcpy(g_sh->buf + g_sh->len, s.data(), s.size());
    g_sh->len += s.size();
}

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}
static std::string jbytes(const unsigned char* p, size_t n) {
    std::string o = "[";
    char b[8];
    for (size_t i = 0; i < n; i++) { snprintf(b, 8, i ? ",%d" : "%d", p[i]); o += b; }
    return o + "]";
}
// a 32 bit word as two halves (the specification's integers are 32 bit signed)
static std::string jword(uint32_t v) { char b[40]; snprintf(b, 40, "[%u,%u]", v >> 16, v & 0xffff); return b; }
static std::string jlong(uint64_t v) {
    char b[80]; snprintf(b, 80, "[%u,%u,%u,%u]", (unsigned)(v >> 48) & 0xffff, (unsigned)(v >> 32) & 0xffff, (unsigned)(v >> 16) & 0xffff, (unsigned)v & 0xffff);
    return b;
}
static std::string num(long long v) { return std::to_string(v); }

class Tr {
    bool first;
public:
    Tr() : first(true) {}
    // fields: pre-rendered json members, e.g.  "\"n\":5"
    void ev(const std::string& op, const std::string& fields = "") {
        std::string s = first ? "" : ",";
        first = false;
        s += "{\"op\":\"" + op + "\"";
        if (!fields.empty()) s += "," + fields;
        s += "}";
        sh_put(s);
    }
};

static std::vector<unsigned char> unhex(const std::string& s) {
    std::vector<unsigned char> v;
    if (s == "-") return v;
    for (size_t i = 0; i + 1 < s.size(); i += 2) v.push_back((unsigned char)strtoul(s.substr(i, 2).c_str(), 0, 16));
    return v;
}

static unsigned long long g_deadline_ms = 20000;

// fn(script, header_out, trace): header_out receives json members describing the trace
typedef std::function<void(const Script&, Tr&)> TraceFn;
typedef std::function<std::string(const Script&)> HeadFn;

static void worker(const std::vector<Script>& v, size_t from, volatile uint32_t* cur, HeadFn head, TraceFn fn) {
    for (size_t i = from; i < v.size(); i++) {
        *cur = (uint32_t)i;
        g_sh->len = 0;
        g_sh->open = 0;
        std::string h = head(v[i]);
        sh_put("{\"id\":" + jstr(v[i].id) + (h.empty() ? "" : ",") + h + ",\"ev\":[");
        g_sh->open = 1;
        struct itimerval tv; memset(&tv, 0, sizeof tv);
        tv.it_value.tv_sec = g_deadline_ms / 1000;
        tv.it_value.tv_usec = (g_deadline_ms % 1000) * 1000;
        setitimer(ITIMER_REAL, &tv, 0);
        Tr t;
        try { fn(v[i], t); }
        catch (const std::exception& x) { t.ev("escaped", "\"what\":" + jstr(x.what())); }
        catch (...) { t.ev("escaped", "\"what\":\"?\""); }
        memset(&tv, 0, sizeof tv);
        setitimer(ITIMER_REAL, &tv, 0);
        g_sh->open = 0;
        sh_put("]}\n");
        size_t off = 0;
        while (off < g_sh->len) {
            ssize_t n = ::write(3, g_sh->buf + off, g_sh->len - off);
            if (n <= 0) _exit(98);
            off += n;
        }
        g_sh->len = 0;
    }
}

// output goes to descriptor 3; what the library prints on stdout is discarded
// waits for a worker, and ends one that takes all memory
static int await_worker(pid_t p) {
    char path[64]; snprintf(path, sizeof path, "/proc/%d/statm", (int)p);
    for (;;) {
        int st = 0;
        for (int i = 0; i < 25; i++) {
            pid_t r = waitpid(p, &st, WNOHANG);
            if (r == p) return st;
            if (r < 0 && errno != EINTR) return 0x6300;
            usleep(i < 5 ? 1000 : 4000);
        }
        unsigned long total = 0, resident = 0;
        if (FILE* f = fopen(path, "r")) {
            if (fscanf(f, "%lu %lu", &total, &resident) == 2 && resident > (3ul << 30) / 4096) kill(p, SIGKILL);
            fclose(f);
        }
    }
}

static int run_scripts(const char* in, const char* out, HeadFn head, TraceFn fn) {
    std::vector<Script> v = load_scripts(in);
    FILE* fo = fopen(out, "w");
    if (!fo) return 2;
    dup2(fileno(fo), 3);
    g_sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    volatile uint32_t* cur = (volatile uint32_t*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    size_t from = 0;
    int deaths = 0;
    while (from < v.size()) {
        pid_t p = fork();
        if (p == 0) {
            if (!freopen("/dev/null", "w", stdout)) _exit(99);
            struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
            worker(v, from, cur, head, fn);
            _exit(0);
        }
        int st = await_worker(p);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        if (WIFEXITED(st) && WEXITSTATUS(st) >= 97 && WEXITSTATUS(st) <= 99) return 3;
        // died inside a trace: keep what it recorded, close it with what happened
        std::string what = "crash";
        int code = WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st);
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) what = "hang";
        if (!g_sh->open) return 4;
        std::string s(g_sh->buf, g_sh->len);
        if (s.back() != '[') s += ",";
        s += "{\"op\":\"" + what + "\",\"code\":" + num(code) + "}]}\n";
        if (::write(3, s.data(), s.size()) < 0) return 5;
        from = *cur + 1;
        deaths += what == "hang" ? 10 : 1;
        if (deaths > 25) break;   // enough to report; the rest would not add anything
    }
    return 0;
}
