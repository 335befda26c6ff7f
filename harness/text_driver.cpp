// Strings, buffers, splitter.  T <id> str|val|buf ; texts are given in hex ("-" is empty)
#include "common.h"
#include <mgcore.h>
#include <mg/splitter.h>
#include <memory>
using namespace mg::core;

static std::string X(const std::string& h) { std::vector<unsigned char> v = unhex(h); return std::string(v.begin(), v.end()); }
static std::string codes(const char* p, size_t n) { return jbytes((const unsigned char*)p, n); }
static std::string codes(const std::string& s) { return codes(s.data(), s.size()); }
static std::string cz(Cstring& s) { const char* p = s.operator char*(); return p ? codes(p, strlen(p)) : std::string("[-1]"); }

static void do_str(const Script& sc, Tr& t) {
    std::vector<std::unique_ptr<Cstring> > h(5);
    for (int i = 1; i < 5; i++) h[i].reset(new Cstring((const char*)NULL));
    for (size_t k = 0; k < sc.ops.size(); k++) {
        const std::vector<std::string>& o = sc.ops[k];
        const std::string& op = o[0];
        int i = atoi(o[1].c_str()), g = atoi(o[2].c_str());
        std::string tx = X(o[3]);
        long long n = atoll(o[4].c_str()), m = atoll(o[5].c_str());
        Cstring& s = *h[i];
        std::string f = "\"h\":" + num(i) + ",\"g\":" + num(g) + ",\"t\":" + codes(tx) + ",\"n\":" + num(n) + ",\"m\":" + num(m), r = "[]";
        try {
            if (op == "new") h[i].reset(new Cstring(tx.c_str()));
            else if (op == "assign") s = tx.c_str();
            else if (op == "empty") { if (n < 0) h[i].reset(new Cstring()); else h[i].reset(new Cstring((uint32_t)n)); }
            else if (op == "null") h[i].reset(new Cstring((const char*)NULL));
            else if (op == "copy") { if (n) { Cstring* q = new Cstring(*h[g]); h[i].reset(q); } else s = *h[g]; }
            else if (op == "clone") s = h[g]->clone();
            else if (op == "add") s += tx.c_str();
            else if (op == "addnull") s += (const char*)NULL;
            else if (op == "append") s.append(tx.c_str());
            else if (op == "addnum") {
                // t is the decimal text expected; n says which type carries it
                if (n == 0) s += (int64_t)strtoll(tx.c_str(), 0, 10);
                else if (n == 1) s += (uint64_t)strtoull(tx.c_str(), 0, 10);
                else if (n == 2) s += (int)strtol(tx.c_str(), 0, 10);
                else if (n == 3) s += (unsigned int)strtoul(tx.c_str(), 0, 10);
                else s += (float)strtod(tx.c_str(), 0);
            }
            else if (op == "addh") s += *h[g];
            else if (op == "cat") { Cstring x = (*h[g]) + (*h[n]); s = x; }
            else if (op == "catlit") { Cstring x = (*h[g]) + tx.c_str(); s = x; }
            else if (op == "litcat") { Cstring x = tx.c_str() + (*h[g]); s = x; }
            else if (op == "sub") { Cstring x = h[g]->subString((size_t)n, (size_t)m); s = x; }
            else if (op == "find") r = "[" + num(s.find(tx.c_str(), (uint32_t)n)) + "]";
            else if (op == "rfind") r = "[" + num(s.rfind(tx.c_str(), (uint32_t)n)) + "]";
            else if (op == "size") r = "[" + num(s.size()) + "," + num(s.len()) + "]";
            else if (op == "eq") { bool a = s == tx.c_str(), b = tx.c_str() == s, c = !(s != tx.c_str()), d = !(tx.c_str() != s);
                r = (a == b && b == c && c == d) ? (a ? "[1]" : "[0]") : "[7]"; }
            else if (op == "eqh") { bool a = Equals(s, *h[g]), b = Equals(*h[g], s); r = a == b ? (a ? "[1]" : "[0]") : "[7]"; }
            else if (op == "less") r = (s < *h[g]) ? "[1]" : "[0]";
            else if (op == "isnull") r = !s ? "[1]" : "[0]";
            else if (op == "toint") {
                if (n == 0) r = codes(std::to_string((long long)(int64_t)s));
                else if (n == 1) r = codes(std::to_string((unsigned long long)(uint64_t)s));
                else if (n == 2) r = codes(std::to_string((int)s));
                else { double d = (double)s; char b[64]; snprintf(b, 64, "%.0f", d); r = codes(b, strlen(b)); }
            }
            else if (op == "tobool") r = (bool)s ? "[1]" : "[0]";
            else if (op == "hexapp") { std::vector<unsigned char> v = unhex(o[3]); s.append_hex_buffer(v.data(), (uint32_t)v.size()); }
            else if (op == "hexext") { std::unique_ptr<unsigned char[]> p(new unsigned char[m ? m : 1]); s.extract_binary_hex(p.get(), (uint32_t)m, (uint32_t)n); r = jbytes(p.get(), m); }
            else if (op == "getbuf") { char* p = s.GetBuffer(tx.size() + (size_t)n, false); memcpy(p, tx.data(), tx.size()); s.CommitBuffer(tx.size()); }
            else if (op == "clear") s.Clear();
            else if (op == "fmt") {
                // the expected text is a%b where a, b are given
                if (n == 0) s.append_format("%s", tx.c_str());
                else if (n == 1) s.append_format("%d%s", (int)m, tx.c_str() + std::to_string(m).size());
                else if (n == 2) { char c = tx[0]; s.append_format("%c%s", c, tx.c_str() + 1); }
                else { s.append_format("%llu%s%x", (unsigned long long)m, tx.substr(std::to_string(m).size(), tx.size() - std::to_string(m).size() - 2).c_str(), (unsigned)strtoul(tx.substr(tx.size() - 2).c_str(), 0, 16)); }
            }
            else { fprintf(stderr, "bad op %s\n", op.c_str()); _exit(97); }
            f += ",\"st\":\"ok\",\"r\":" + r;
        }
        catch (std::exception& x) { f += ",\"st\":\"err\",\"r\":[]"; }
        f += ",\"c\":[";
        for (int j = 1; j < 5; j++) f += (j > 1 ? "," : "") + cz(*h[j]);
        t.ev(op, f + "]");
    }
}

static void do_val(const Script& sc, Tr& t) {
    for (size_t k = 0; k < sc.ops.size(); k++) {
        const std::vector<std::string>& o = sc.ops[k];
        std::string a = X(o[1]), b = X(o[2]);
        std::string f = "\"t\":" + codes(a) + ",\"u\":" + codes(b);
        if (o[0] == "split") {
            Csplitter sp(Cstring(a.c_str()), Cstring(b.c_str()));
            std::string p;
            for (size_t i = 0; i < sp.getCount(); i++) { Cstring x = sp[i]; p += (i ? "," : "") + cz(x); if (x.size() != x.len()) p += ",[-2]"; }
            Cstring whole = sp.getInternalString();
            if (!(whole == a.c_str())) p += ",[-3]";
            t.ev("split", f + ",\"st\":\"ok\",\"p\":[" + p + "]");
        } else if (o[0] == "resplit") {
            // the same splitter, used for another text before
            Csplitter sp(Cstring(o[3] == "-" ? "x,y" : X(o[3]).c_str()), Cstring(","));
            sp.split(Cstring(a.c_str()), Cstring(b.c_str()));
            std::string p;
            for (size_t i = 0; i < sp.getCount(); i++) { Cstring x = sp[i]; p += (i ? "," : "") + cz(x); }
            t.ev("split", f + ",\"st\":\"ok\",\"p\":[" + p + "]");
        } else if (o[0] == "replace") {
            std::string c = X(o[3]);
            Cstring x = mg::core::replace(a.c_str(), b.c_str(), c.c_str());
            t.ev("replace", f + ",\"v\":" + codes(c) + ",\"st\":\"ok\",\"r\":" + cz(x));
        } else _exit(97);
    }
}

template<class E> static void do_buf(const Script& sc, Tr& t, bool small) {
    typedef CBuffer<E> B;
    B b((size_t)atoi(sc.head[2].c_str()));
    for (size_t k = 0; k < sc.ops.size(); k++) {
        const std::vector<std::string>& o = sc.ops[k];
        const std::string& op = o[0];
        std::vector<unsigned char> raw = unhex(o[1]);
        std::vector<E> v(raw.begin(), raw.end());
        long long n = atoll(o[2].c_str()), m = atoll(o[3].c_str());
        std::string f = "\"t\":" + jbytes(raw.data(), raw.size()) + ",\"n\":" + num(n) + ",\"m\":" + num(m), r = "[]";
        if (op == "badd") b.add(v.data(), v.size());
        else if (op == "baddb") b += b;
        else if (op == "bput") { b.prepare(v.size() + (size_t)n); std::copy(v.begin(), v.end(), b.getCurrent()); b.updatePosition(v.size()); }
        else if (op == "bprep") b.prepare((size_t)n);
        else if (op == "bset") b.WriteAt((uint32_t)n, &v[0]);
        else if (op == "bat") r = "[" + num((long long)b.getAt((uint32_t)n)) + "]";
        else if (op == "bread") {
            std::unique_ptr<E[]> p(new E[n ? n : 1]); unsigned long got = 0;
            bool ok = b.ReadBuffer(p.get(), (unsigned long)n, got, (size_t)m);
            if (got > (unsigned long)n) r = "[-1]";
            else { r = "["; for (unsigned long i = 0; i < got; i++) r += (i ? "," : "") + num((long long)p[i]); r += "]"; }
            f += ",\"ok\":" + num(ok);
        }
        else if (op == "breset") { ResetBuffer<E> x(b); x.Reset(); }
        else if (op == "bback") { ResetBuffer<E> x(b); if (m) x.MoveBack((size_t)n); else x.Back((size_t)n); }
        else _exit(97);
        f += ",\"st\":\"ok\",\"r\":" + r + ",\"full\":" + num(b.getFull()) + ",\"free\":" + num(b.getFree()) + ",\"cap\":" + num(b.getSize()) + ",\"c\":[";
        for (size_t i = 0; i < b.size(); i++) f += (i ? "," : "") + num((long long)b.get()[i]);
        t.ev(op, f + "]");
    }
}

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    return run_scripts(argv[1], argv[2],
        [](const Script& s) { return "\"mode\":\"" + s.head[0] + "\""; },
        [](const Script& s, Tr& t) {
            if (s.head[0] == "str") do_str(s, t);
            else if (s.head[0] == "val") do_val(s, t);
            else if (s.head[1] == "8") do_buf<unsigned char>(s, t, true);
            else do_buf<uint64_t>(s, t, false);
        });
}
