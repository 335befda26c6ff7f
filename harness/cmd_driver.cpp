// Command line parsers.  T <id> named|letters
#include "common.h"
#include <mgcore.h>
#include <memory>
using namespace mg::core;
static std::string X(const std::string& h) { std::vector<unsigned char> v = unhex(h); return std::string(v.begin(), v.end()); }
static std::string codes(const std::string& s) { return jbytes((const unsigned char*)s.data(), s.size()); }
static std::string cz(Cstring s) { const char* p = s.operator char*(); return p ? codes(p) : std::string("[-1]"); }

struct Args {
    std::vector<std::string> a;
    std::vector<char*> p;
    // every argument in its own allocation, so that an over-read is seen
    Args(const std::vector<std::string>& o, size_t from) {
        a.push_back("prog");
        for (size_t i = from; i < o.size(); i++) a.push_back(X(o[i]));
        for (size_t i = 0; i < a.size(); i++) { char* q = new char[a[i].size() + 1]; strcpy(q, a[i].c_str()); p.push_back(q); }
    }
    ~Args() { for (size_t i = 0; i < p.size(); i++) delete[] p[i]; }
    int n() { return (int)p.size(); }
    char** v() { return &p[0]; }
    std::string json() { std::string s = "["; for (size_t i = 1; i < a.size(); i++) s += (i > 1 ? "," : "") + codes(a[i]); return s + "]"; }
};

class Rec : public Cmdline {
public:
    std::string calls; int usage;
    Rec() : usage(0) {}
    void put(int c, int n, char** v) {
        calls += calls.empty() ? "" : ",";
        calls += "{\"c\":" + num(c) + ",\"a\":[";
        for (int i = 0; i < n; i++) calls += (i ? "," : "") + codes(v[i]);
        calls += "]}";
    }
#define L(x) virtual void x(int n, TCHAR* v[]) { put(#x[0], n, v); }
    L(A) L(B) L(C) L(D) L(E) L(F) L(G) L(H) L(I) L(J) L(K) L(L) L(M) L(N) L(O) L(P) L(Q) L(R) L(S) L(T) L(U) L(V) L(W) L(X) L(Y) L(Z)
    virtual void Usage() { usage++; }
    virtual void Defaul_T(int n, TCHAR* v[], TCHAR c) { put((unsigned char)c, n, v); }
};

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    return run_scripts(argv[1], argv[2],
        [](const Script& s) { return "\"mode\":\"" + s.head[0] + "\""; },
        [](const Script& sc, Tr& t) {
            console_command c;
            for (size_t k = 0; k < sc.ops.size(); k++) {
                const std::vector<std::string>& o = sc.ops[k];
                std::string f;
                if (o[0] == "add") {
                    f = "\"t\":" + codes(X(o[1])) + ",\"ty\":\"" + o[2] + "\",\"rq\":" + o[3] + ",\"sc\":" + o[4];
                    try {
                        c.add(X(o[1]).c_str(), o[2] == "s" ? console_command::type_string : o[2] == "i" ? console_command::type_int : console_command::type_bool, o[3] == "1", "what it is", (TCHAR)atoi(o[4].c_str()));
                        f += ",\"st\":\"ok\"";
                    } catch (std::exception&) { f += ",\"st\":\"err\""; }
                } else if (o[0] == "proc") {
                    Args a(o, 1);
                    bool r = c.process(a.n(), a.v());
                    f = "\"a\":" + a.json() + ",\"st\":\"ok\",\"r\":" + num(r) + ",\"err\":" + (r ? "[]" : cz(c.get_error_message()));
                } else if (o[0] == "set") {
                    c.set_value(X(o[1]).c_str(), X(o[3]).c_str(), (uint32_t)atoi(o[2].c_str()));
                    f = "\"t\":" + codes(X(o[1])) + ",\"n\":" + o[2] + ",\"u\":" + codes(X(o[3])) + ",\"st\":\"ok\"";
                } else if (o[0] == "ask") {
                    std::string n = X(o[1]);
                    std::string sp, vals, ints;
                    for (int i = 0; i < 3; i++) sp += (i ? "," : "") + num(i ? c.command_specified(n.c_str(), i) : c.command_specified(n.c_str()));
                    unsigned cnt = c.command_specified(n.c_str()) ? c.get_command_count(n.c_str()) : 0;
                    if (o[2] == "1" && !cnt) cnt = c.get_command_count(n.c_str());
                    for (unsigned i = 0; i < cnt; i++) {
                        vals += (i ? "," : "") + cz(i ? c.get_value(n.c_str(), i) : c.get_value(n.c_str()));
                        std::string v = "[]";
                        try { v = codes(std::to_string((long long)(i ? c.get_integer64_value(n.c_str(), i) : c.get_integer64_value(n.c_str())))); } catch (std::exception&) {}
                        ints += (i ? "," : "") + v;
                    }
                    f = "\"t\":" + codes(n) + ",\"st\":\"ok\",\"cnt\":" + num(cnt) + ",\"spec\":[" + sp + "],\"vals\":[" + vals + "],\"ints\":[" + ints + "]";
                } else if (o[0] == "letters") {
                    Args a(o, 1); Rec r;
                    r.process(a.n(), a.v());
                    f = "\"a\":" + a.json() + ",\"st\":\"ok\",\"usage\":" + num(r.usage) + ",\"help\":" + num(r.help()) + ",\"calls\":[" + r.calls + "]";
                } else _exit(97);
                t.ev(o[0], f);
            }
        });
}
