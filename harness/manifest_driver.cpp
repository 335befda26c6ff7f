// Presentations: what they answer about times, and the manifests written from them.
// head: <index|dash|hls|smooth|time>
#include "common.h"
#include <map>
#include <mgcore.h>
#include <mgmedia.h>
#include "hnano.h"
#include "mp4dynamicinfo.h"
#include "mpd_renderer.h"
#include "hls_renderer.h"
using namespace mg::core;

static uint64_t u64(const std::string& s) { return strtoull(s.c_str(), 0, 10); }
static int64_t i64(const std::string& s) { return strtoll(s.c_str(), 0, 10); }
static const int64_t BIAS = 1LL << 44;
// a time that may be negative
static std::string jtime(int64_t v) { return jlong((uint64_t)(v + BIAS)); }

// a decimal number of seconds, in units of 100 ns; "" when it is none
static std::string seconds(const std::string& s) {
    size_t i = 0;
    uint64_t v = 0;
    while (i < s.size() && isdigit((unsigned char)s[i])) v = v * 10 + (s[i++] - '0');
    if (!i || i > 12) return "";
    int f = 0;
    if (i < s.size()) {
        if (s[i++] != '.') return "";
        while (i < s.size() && isdigit((unsigned char)s[i])) {
            if (f < 7) v = v * 10 + (s[i] - '0'), f++; else if (s[i] != '0') return "";
            i++;
        }
        if (i < s.size()) return "";
    }
    for (; f < 7; f++) v *= 10;
    return jlong(v);
}
// a value: as it stands; as a number; as seconds
static std::string value(const std::string& v) {
    std::string o = "{\"s\":" + jstr(v);
    if (!v.empty() && v.size() < 19 && v.find_first_not_of("0123456789") == std::string::npos) o += ",\"n\":" + jlong(u64(v));
    std::string sec = seconds(v.size() > 3 && v.substr(0, 2) == "PT" && v[v.size() - 1] == 'S' ? v.substr(2, v.size() - 3) : v);
    if (!sec.empty()) o += ",\"sec\":" + sec;
    return o + "}";
}
static bool name_char(char c) { return isalnum((unsigned char)c) || c == ':' || c == '_' || c == '-' || c == '.'; }
// the elements of a document, each with its depth and attributes; false when it is not well-formed
static bool xml(const std::string& s, std::string& out) {
    std::vector<std::string> open;
    size_t i = 0;
    int roots = 0;
    out = "[";
    while (i < s.size()) {
        if (s[i] != '<') { if (s[i] == '&' || (open.empty() && !isspace((unsigned char)s[i]))) return false; i++; continue; }
        i++;
        if (i < s.size() && s[i] == '/') {
            size_t j = ++i;
            while (j < s.size() && name_char(s[j])) j++;
            if (open.empty() || open.back() != s.substr(i, j - i)) return false;
            open.pop_back();
            while (j < s.size() && isspace((unsigned char)s[j])) j++;
            if (j >= s.size() || s[j] != '>') return false;
            i = j + 1;
            continue;
        }
        size_t j = i;
        while (j < s.size() && name_char(s[j])) j++;
        if (j == i) return false;
        std::string name = s.substr(i, j - i);
        if (open.empty() && roots++) return false;
        std::map<std::string, std::string> a;
        i = j;
        bool empty = false;
        while (true) {
            size_t b = i;
            while (i < s.size() && isspace((unsigned char)s[i])) i++;
            if (i >= s.size()) return false;
            if (s[i] == '>') { i++; break; }
            if (s[i] == '/') { if (i + 1 >= s.size() || s[i + 1] != '>') return false; i += 2; empty = true; break; }
            if (b == i) return false;
            j = i;
            while (j < s.size() && name_char(s[j])) j++;
            std::string k = s.substr(i, j - i);
            if (j == i || j + 1 >= s.size() || s[j] != '=' || (s[j + 1] != '"' && s[j + 1] != '\'')) return false;
            char q = s[j + 1];
            std::string v;
            for (i = j + 2; i < s.size() && s[i] != q; i++) {
                if (s[i] == '<') return false;
                if (s[i] != '&') { v += s[i]; continue; }
                size_t e = s.find(';', i);
                if (e == std::string::npos) return false;
                std::string r = s.substr(i + 1, e - i - 1);
                if (r == "amp") v += '&'; else if (r == "lt") v += '<'; else if (r == "gt") v += '>'; else if (r == "quot") v += '"'; else if (r == "apos") v += '\'';
                else if (r.size() > 1 && r[0] == '#') v += (char)(r[1] == 'x' ? strtol(r.c_str() + 2, 0, 16) : strtol(r.c_str() + 1, 0, 10));
                else return false;
                i = e;
            }
            if (i >= s.size() || a.count(k)) return false;
            a[k] = v;
            i++;
        }
        if (out != "[") out += ",";
        out += "{\"e\":" + jstr(name) + ",\"depth\":" + num((long long)open.size()) + ",\"a\":{\"-\":0";
        for (std::map<std::string, std::string>::iterator it = a.begin(); it != a.end(); ++it) out += "," + jstr(it->first) + ":" + value(it->second);
        out += "}}";
        if (!empty) open.push_back(name);
    }
    out += "]";
    return open.empty() && roots == 1;
}
static std::string document(Cstring& c) {
    std::string s = c.size() ? std::string((const char*)c) : "", o;
    if (!xml(s, o)) return "\"bad\":" + jstr(s.substr(0, 300));
    return "\"doc\":" + o;
}
// the lines of a playlist: what stands before the colon, and the rest, with its comma separated parts
static std::string playlist(Cstring c) {
    std::string s = c.size() ? std::string((const char*)c) : "", o = "[";
    size_t i = 0;
    while (i < s.size()) {
        size_t j = s.find('\n', i);
        if (j == std::string::npos) j = s.size();
        std::string l = s.substr(i, j - i);
        i = j + 1;
        if (!l.empty() && l[l.size() - 1] == '\r') l.erase(l.size() - 1);
        if (l.empty()) continue;
        std::string t, v = l;
        if (l[0] == '#') { size_t c = l.find(':'); t = l.substr(0, c); v = c == std::string::npos ? "" : l.substr(c + 1); }
        if (o != "[") o += ",";
        o += "{\"t\":" + jstr(t) + ",\"v\":" + jstr(v) + ",\"a\":{\"-\":0";
        std::string cur;
        int part = 0;
        bool q = false;
        std::map<std::string, std::string> a;
        for (size_t k = 0; k <= v.size() && !t.empty(); k++) {
            if (k == v.size() || (v[k] == ',' && !q)) {
                size_t e = cur.find('=');
                std::string key = e == std::string::npos ? num(++part) : cur.substr(0, e), x = e == std::string::npos ? cur : cur.substr(e + 1);
                if (x.size() > 1 && x[0] == '"' && x[x.size() - 1] == '"') x = x.substr(1, x.size() - 2);
                a[key] = x;
                cur.clear();
            } else { if (v[k] == '"') q = !q; cur += v[k]; }
        }
        for (std::map<std::string, std::string>::iterator it = a.begin(); it != a.end(); ++it) o += "," + jstr(it->first) + ":" + value(it->second);
        o += "}}";
    }
    return o + "]";
}

struct All {
    MPDRenderer dash; HLSRenderer hls; SSFRenderer smooth;
    std::string part;
    All(const std::string& p) : part(p) {}
    IDynamicRenderer* r() { return part == "dash" ? (IDynamicRenderer*)&dash : part == "hls" ? (IDynamicRenderer*)&hls : (IDynamicRenderer*)&smooth; }
    std::string out() {
        if (part == "dash") return document(dash.xml());
        if (part == "smooth") return document(smooth.xml());
        std::string o = "\"main\":" + playlist(hls.main()) + ",\"media\":[";
        for (int k = 0; k < hls.bit_rate_count(); k++) {
            Cstring n = hls.bit_rate_name(k);
            if (k) o += ",";
            o += "{\"name\":" + jstr(std::string((const char*)n)) + ",\"list\":" + playlist(hls.bit_rate_body(k)) + "}";
        }
        return o + "]";
    }
};
static std::string dir;

static void body(const Script& sc, Tr& t) {
    DynamicPresentation* pp = new DynamicPresentation;   // leaks by design: a failing run may not survive its end
    DynamicPresentation& p = *pp;
    All* all = new All(sc.head[0]);
    for (size_t k = 0; k < sc.ops.size(); k++) {
        const std::vector<std::string>& o = sc.ops[k];
        const std::string& op = o[0];
        std::string f = "\"n\":0";
        try {
            if (op == "video") {           // id w h name
                p.AddVideoStream(o[4].c_str(), atoi(o[2].c_str()), atoi(o[3].c_str()), atoi(o[1].c_str()));
                f = "\"id\":" + o[1] + ",\"name\":" + jstr(o[4]) + ",\"nb\":" + jbytes((const unsigned char*)o[4].data(), o[4].size());
            } else if (op == "audio") {    // id rate channels bits name
                p.AddAudioStream(o[5].c_str(), atoi(o[2].c_str()), atoi(o[3].c_str()), atoi(o[4].c_str()), atoi(o[1].c_str()));
                f = "\"id\":" + o[1] + ",\"rate\":" + o[2] + ",\"channels\":" + o[3] + ",\"bits\":" + o[4] + ",\"name\":" + jstr(o[5]) + ",\"nb\":" + jbytes((const unsigned char*)o[5].data(), o[5].size());
            } else if (op == "rate") {     // id bitrate w h cpd
                std::vector<unsigned char> c = unhex(o[5]);
                DynamicStream* s = p.get(atoi(o[1].c_str()));
                DynamicBitrate* b = s->AddBitRate(u64(o[2]));
                if (!c.empty()) b->AddCodecPrivateData(c.data(), (int)c.size());
                if (s->is_video()) { DynamicBitrateVideo* v = static_cast<DynamicBitrateVideo*>(b); v->Width = atoi(o[3].c_str()); v->Height = atoi(o[4].c_str()); }
                f = "\"id\":" + o[1] + ",\"bitrate\":" + jlong(u64(o[2])) + ",\"w\":" + o[3] + ",\"h\":" + o[4] + ",\"cpd\":" + jbytes(c.data(), c.size());
            } else if (op == "point") {    // id t c
                p.get(atoi(o[1].c_str()))->AddPoint(i64(o[2]), i64(o[3]));
                f = "\"id\":" + o[1] + ",\"t\":" + jtime(i64(o[2])) + ",\"c\":" + jtime(i64(o[3]));
            } else if (op == "cross") {    // id t c t2 c2
                p.get(atoi(o[1].c_str()))->AddPointCross(i64(o[2]), i64(o[3]), i64(o[4]), i64(o[5]));
                f = "\"id\":" + o[1] + ",\"t\":" + jtime(i64(o[2])) + ",\"c\":" + jtime(i64(o[3])) + ",\"t2\":" + jtime(i64(o[4])) + ",\"c2\":" + jtime(i64(o[5]));
            } else if (op == "file") {     // id t
                p.get(atoi(o[1].c_str()))->AddPointFileCross(i64(o[2]));
                f = "\"id\":" + o[1] + ",\"t\":" + jtime(i64(o[2]));
            } else if (op == "path") {     // id bitrate t path
                Cstring path(o[4].c_str());
                p.get(atoi(o[1].c_str()))->get_bit_rate(u64(o[2]))->Add(i64(o[3]), path);
                f = "\"id\":" + o[1] + ",\"bitrate\":" + jlong(u64(o[2])) + ",\"t\":" + jtime(i64(o[3])) + ",\"path\":" + jstr(o[4]);
            } else if (op == "rebase") {
                p.rebase();
            } else if (op == "israte") {   // id bitrate: is there such a bit rate?
                bool has = p.get(atoi(o[1].c_str()))->get_bit_rate(u64(o[2])) != NULL;
                f = "\"id\":" + o[1] + ",\"bitrate\":" + jlong(u64(o[2])) + ",\"has\":" + (has ? "true" : "false");
            } else if (op == "closest" || op == "end" || op == "endc" || op == "orig" || op == "iscross" || op == "pathof") {   // id t [bitrate]
                DynamicStream* s = p.get(atoi(o[1].c_str()));
                int64_t x = i64(o[2]);
                f = "\"id\":" + o[1] + ",\"t\":" + jtime(x);
                if (op == "pathof") f += ",\"bitrate\":" + jlong(u64(o[3]));
                try {
                    if (op == "closest") f += ",\"r\":" + jtime(s->get_closest(x));
                    else if (op == "end") f += ",\"r\":" + jtime((int64_t)s->get_end_original_time(x));
                    else if (op == "endc") f += ",\"r\":" + jtime((int64_t)s->get_end_computed_time(x));
                    else if (op == "orig") { int64_t r = (int64_t)s->get_original_time(x); f += r == CROSS_POINT_TIME ? ",\"cross\":true" : ",\"r\":" + jtime(r); }
                    else if (op == "pathof") { Cstring q = s->get_path(u64(o[3]), x); f += ",\"path\":" + jstr(std::string((const char*)q)); }
                    else {
                        bool c = s->is_cross_point(x);
                        f += std::string(",\"is\":") + (c ? "true" : "false");
                        if (c) { CrossPoint cp = s->get_cross_point(x); f += ",\"r\":[" + jtime(cp.computed_time) + "," + jtime(cp.composition) + "," + jtime(cp.computed_time_2) + "," + jtime(cp.composition_2) + "]"; }
                    }
                } catch (mgexception&) { f += ",\"none\":true"; }
            } else if (op == "span") {     // id
                DynamicStream* s = p.get(atoi(o[1].c_str()));
                f = "\"id\":" + o[1] + ",\"count\":" + num(s->get_point_count()) + ",\"mint\":" + jtime(s->mint()) + ",\"maxt\":" + jtime(s->maxt()) + ",\"length\":" + jlong(s->duration()) +
                    ",\"streams\":[" + num(p.Count()) + "," + num(p.video_count()) + "," + num(p.audio_count()) + "]";
            } else if (op == "noname") {
                all->dash.set_use_stream_name(false); all->hls.set_use_stream_name(false); all->smooth.set_use_stream_name(false);
            } else if (op == "prefix") {
                all->hls.set_prefix(o[1].c_str());
                f = "\"name\":" + jstr(o[1]);
            } else if (op == "protect") {  // video? uri
                std::string x = "<ContentProtection schemeIdUri=\"" + o[2] + "\"/>";
                Cstring c(x.c_str());
                all->dash.add_content_protection(c, o[1] == "1");
                f = std::string("\"video\":") + (o[1] == "1" ? "true" : "false") + ",\"uri\":" + jstr(o[2]);
            } else if (op == "key") {      // hex file
                std::vector<unsigned char> b = unhex(o[1]);
                all->hls.set_key(b.data());
                all->hls.set_key_file_name(o[2].c_str());
                bool same = !memcmp(all->hls.get_key(), b.data(), 16);
                f = "\"name\":" + jstr(o[2]) + ",\"same\":" + (same ? "true" : "false");
            } else if (op == "render") {
                p.rebase();
                p.render(all->r());
                f = all->out();
            // the renderer by itself
            } else if (op == "rbegin") {   // duration
                all->r()->begin(u64(o[1]));
                f = "\"d\":" + jlong(u64(o[1]));
            } else if (op == "rstream") {  // video? points bitrates name
                all->r()->begin_stream(o[4].c_str(), atoi(o[2].c_str()), atoi(o[3].c_str()), o[1] == "1" ? stream_video : stream_audio);
                f = std::string("\"video\":") + (o[1] == "1" ? "true" : "false") + ",\"name\":" + jstr(o[4]);
            } else if (op == "rvideo") {   // bitrate w h cpd
                std::vector<unsigned char> c = unhex(o[4]);
                all->r()->add_video_bitrate(atoi(o[1].c_str()), "AVC1", atoi(o[2].c_str()), atoi(o[3].c_str()), c.data(), (int)c.size());
                f = "\"bitrate\":" + jlong(u64(o[1])) + ",\"w\":" + o[2] + ",\"h\":" + o[3] + ",\"cpd\":" + jbytes(c.data(), c.size());
            } else if (op == "raudio") {   // bitrate rate channels bits
                unsigned char none[2] = {0x12, 0x10};
                all->r()->add_audio_bitrate(atoi(o[1].c_str()), 255, atoi(o[2].c_str()), atoi(o[3].c_str()), atoi(o[4].c_str()), 4, none, 2);
                f = "\"bitrate\":" + jlong(u64(o[1])) + ",\"rate\":" + o[2] + ",\"channels\":" + o[3] + ",\"bits\":" + o[4];
            } else if (op == "rpoint") {   // t d
                all->r()->add_point(u64(o[1]), u64(o[2]));
                all->r()->end_point();
                f = "\"t\":" + jlong(u64(o[1])) + ",\"d\":" + jlong(u64(o[2]));
            } else if (op == "rendstream") {
                all->r()->end_stream();
            } else if (op == "rend") {
                all->r()->end();
                f = all->out();
            // times
            } else if (op == "text") {     // v
                HundredNano h(i64(o[1]));
                Cstring x = hns(i64(o[1]));
                f = "\"v\":" + jtime(i64(o[1])) + ",\"text\":" + jstr(std::string((const char*)x));
                if (i64(o[1]) >= 0) f += ",\"f\":[" + num(h.H()) + "," + num(h.M()) + "," + num(h.S()) + "," + num(h.ML()) + "],\"v2\":" + jtime((int64_t)h);
            } else if (op == "make") {     // h m s ml
                HundredNano h(i64(o[1]), i64(o[2]), i64(o[3]), i64(o[4]));
                f = "\"f\":[" + o[1] + "," + o[2] + "," + o[3] + "," + o[4] + "],\"v\":" + jtime((int64_t)h);
            } else _exit(97);
            t.ev(op, f);
        } catch (mgexception& e) {
            t.ev("threw", "\"in\":" + jstr(op) + ",\"what\":" + jstr(std::string(e.what()).substr(0, 80)));
        }
    }
}

int main(int argc, char** argv) {
    return run_scripts(argv[1], argv[2],
        [](const Script& sc) { return "\"part\":" + jstr(sc.head[0]); }, body);
}
