// Dates.  T <id> time <minutes from UTC>
#include "common.h"
#include <mgcore.h>
#include <time.h>
#include <memory>
using namespace mg::core;
static std::string X(const std::string& h) { std::vector<unsigned char> v = unhex(h); return std::string(v.begin(), v.end()); }
static std::string tx(const Cstring& s) { const char* p = s; return jbytes((const unsigned char*)p, strlen(p)); }
static std::string sg(int64_t v) { return std::string("{\"neg\":") + (v < 0 ? "true" : "false") + ",\"v\":" + jlong(v < 0 ? 0 - (uint64_t)v : (uint64_t)v) + "}"; }
static std::string clk() { timespec t; clock_gettime(CLOCK_REALTIME, &t); return "[" + jlong(t.tv_sec) + "," + jlong(t.tv_nsec) + "]"; }
static std::string fields(const Ctime& c) {
    const SYSTEMTIME& s = c.get_Time();
    return "[" + num(s.wYear) + "," + num(s.wMonth) + "," + num(s.wDay) + "," + num(s.wHour) + "," + num(s.wMinute) + "," + num(s.wSecond) + "," + num(s.wMilliseconds) + "]";
}
// what lies in memory before a date is made must not show
struct Place {
    alignas(16) unsigned char raw[sizeof(Ctime)];
    Ctime* at() { memset(raw, 0xA5, sizeof raw); return (Ctime*)raw; }
};
static std::string head(const Script& s) { return "\"tz\":" + s.head[1]; }
static void run(const Script& sc, Tr& t) {
    int z = atoi(sc.head[1].c_str());
    char b[40]; snprintf(b, sizeof b, "XXX%c%02d:%02d", z < 0 ? '+' : '-', abs(z) / 60, abs(z) % 60);
    setenv("TZ", b, 1); tzset();
    Place place[5]; Ctime* d[5] = {};
    for (size_t k = 0; k < sc.ops.size(); k++) {
        const std::vector<std::string>& o = sc.ops[k];
        int x = atoi(o[1].c_str());
        std::string f = "\"x\":" + o[1];
        if (o[0] == "date") {
            d[x] = new (place[x].at()) Ctime((uint16_t)atoi(o[2].c_str()), (uint16_t)atoi(o[3].c_str()), (uint16_t)atoi(o[4].c_str()));
            f += ",\"f\":[" + o[2] + "," + o[3] + "," + o[4] + "]";
        } else if (o[0] == "parse") {
            std::string s = X(o[3]);
            d[x] = new (place[x].at()) Ctime(s.c_str(), o[2] == "1");
            f += std::string(",\"local\":") + (o[2] == "1" ? "true" : "false") + ",\"t\":" + jbytes((const unsigned char*)s.data(), s.size());
        } else if (o[0] == "now" || o[0] == "reset") {
            bool local = o[2] == "1";
            std::string a = clk();
            if (o[0] == "now" || !d[x]) d[x] = new (place[x].at()) Ctime(local); else d[x]->ResetToNow(local);
            std::string e = clk();
            f += std::string(",\"local\":") + (local ? "true" : "false") + ",\"a\":" + a + ",\"b\":" + e + ",\"f\":" + fields(*d[x]) + ",\"wd\":" + num(d[x]->get_Time().wDayOfWeek) + ",\"total\":" + jlong(d[x]->TotalHNano());
            t.ev("now", f);
            continue;
        } else if (o[0] == "show") {
            Ctime& c = *d[x];
            f += ",\"date\":" + tx(c.ToDateString()) + ",\"time\":" + tx(c.ToTimeString()) + ",\"ms\":" + tx(c.get_MillisecondsString()) + ",\"xml\":" + tx(c.ToXml())
               + ",\"off\":" + num((long long)c.GetUTCOffset()) + ",\"f\":" + fields(c) + ",\"total\":" + sg(c.TotalHNano()) + ",\"milli\":" + sg(c.AddMilliSeconds(0));
        } else if (o[0] == "format") {
            f += ",\"t\":" + tx(x % 2 ? d[x]->ToTimeString("%d/%m/%y %H%M") : d[x]->ToDateString("%d/%m/%y %H%M"));
        } else if (o[0] == "diff") {
            Ctime& c = *d[x]; const SYSTEMTIME* s = &d[atoi(o[2].c_str())]->get_Time();
            f += ",\"y\":" + o[2] + ",\"r\":[" + sg(c.MilliSeconds(s)) + "," + sg(c.Seconds(s)) + "," + sg(c.Minutes(s)) + "," + sg(c.Hours(s)) + "," + sg(c.Days(s)) + "]";
        } else if (o[0] == "elapsed") {
            Ctime c(*d[x]);
            std::string a = clk(); uint64_t r = clock_elapsed(c, false); std::string e = clk();
            f += ",\"a\":" + a + ",\"b\":" + e + ",\"r\":" + jlong(r);
        } else _exit(97);
        t.ev(o[0], f);
    }
}
int main(int, char** v) { return run_scripts(v[1], v[2], head, run); }
