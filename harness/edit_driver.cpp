// Cuts and joins files with the library's editor and hands over the bytes of the result.
// head: <sync|async>
#include "common.h"
#include <mgcore.h>
#include <mgmedia.h>
#include "hnano.h"
#include "mp4edit.h"
using namespace mg::core;

static uint64_t u64(const std::string& s) { return strtoull(s.c_str(), 0, 10); }
static std::string tmpdir;
static std::string path(const std::string& n) { return tmpdir + "/" + n + ".mp4"; }

static void body(const Script& sc, Tr& t, CMP4Edit& e) {
    std::string out = path("out");
    for (size_t k = 0; k < sc.ops.size(); k++) {
        const std::vector<std::string>& o = sc.ops[k];
        std::string f;
        try {
            if (o[0] == "file") {
                std::vector<unsigned char> b = unhex(o[2]);
                FILE* w = fopen(path(o[1]).c_str(), "wb"); fwrite(b.data(), 1, b.size(), w); fclose(w);
                f = "\"f\":" + jstr(o[1]) + ",\"d\":" + jbytes(b.data(), b.size());
            } else if (o[0] == "shift") { e.set_ctts_offset(true);
            } else if (o[0] == "trim") { e.set_discard_pre_start(true);
            } else if (o[0] == "distance") { e.set_max_distance(u64(o[1])); f = "\"d\":" + jlong(u64(o[1]));
            } else if (o[0] == "scale") {        // audio|video which scale
                e.set_stream_time_scale(u64(o[3]), o[1] == "audio", atoi(o[2].c_str()));
                f = std::string("\"video\":") + (o[1] == "audio" ? "false" : "true") + ",\"s\":" + o[2] + ",\"scale\":" + jlong(u64(o[3]));
            } else if (o[0] == "start") { e.start(out.c_str());
            } else if (o[0] == "add") {          // file from to shown
                f = "\"f\":" + jstr(o[1]) + ",\"from\":" + jlong(u64(o[2])) + ",\"to\":" + jlong(u64(o[3])) + ",\"shown\":" + (o[4] == "1" ? "true" : "false");
                try { e.Add(path(o[1]).c_str(), u64(o[2]), u64(o[3]), o[4] == "1"); f += ",\"ok\":true"; }
                catch (mgexception& x) { f += ",\"ok\":false,\"what\":" + jstr(std::string(x.what()).substr(0, 100)); }
            } else if (o[0] == "end") {
                e.End();
                std::vector<unsigned char> b;
                FILE* fp = fopen(out.c_str(), "rb");
                if (fp) { int c; while ((c = fgetc(fp)) != EOF) b.push_back((unsigned char)c); fclose(fp); }
                bool left = access((out + ".body.tmp").c_str(), F_OK) == 0;
                f = std::string("\"left\":") + (left ? "true" : "false") + ",\"file\":" + jbytes(b.data(), b.size());
            } else _exit(97);
            t.ev(o[0], f);
        } catch (mgexception& x) {
            t.ev("threw", "\"in\":" + jstr(o[0]) + ",\"what\":" + jstr(std::string(x.what()).substr(0, 80)));
        }
    }
    for (size_t k = 0; k < sc.ops.size(); k++) if (sc.ops[k][0] == "file") unlink(path(sc.ops[k][1]).c_str());
    unlink(out.c_str());
    unlink((out + ".body.tmp").c_str());
}

int main(int argc, char** argv) {
    if (argc < 4) return 2;
    tmpdir = argv[3];
    return run_scripts(argv[1], argv[2], [](const Script& sc) { return "\"mode\":" + jstr(sc.head[0]); },
        [](const Script& sc, Tr& t) {
            if (sc.head[0] == "sync") { CMP4Edit e; body(sc, t, e); return; }
            ::mg::uv::loopthread loop; loop.Create(); loop->set_wait_time(2);
            loop->start();
            { CMP4Edit e(loop); body(sc, t, e); }
            loop->stop();
        });
}
