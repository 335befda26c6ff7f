// Writes an MP4 file with the library's muxer and hands its bytes over.
// head: <sync|async> <what is checked: contents, order, entries or dates>
#include "common.h"
#include <time.h>
#include <mgcore.h>
#include <mgmedia.h>
#include "mp4mux.h"
using namespace mg::core;

static uint64_t u64(const std::string& s) { return strtoull(s.c_str(), 0, 10); }
static std::string tmpdir;
// not time(), which may be behind
static uint64_t clk() { timespec t; clock_gettime(CLOCK_REALTIME, &t); return (uint64_t)t.tv_sec; }

static void body(const Script& sc, Tr& t, MP4Mux& m) {
    std::string out = tmpdir + "/out.mp4";
    uint64_t began = clk();
    for (size_t k = 0; k < sc.ops.size(); k++) {
        const std::vector<std::string>& o = sc.ops[k];
        std::string f;
        try {
            if (o[0] == "video") {
                std::vector<unsigned char> s = unhex(o[4]), p = unhex(o[5]);
                int id = m.add_visual_stream(s.data(), s.size(), p.data(), p.size(), u64(o[1]), u64(o[2]), u64(o[3]));
                f = "\"id\":" + num(id) + ",\"scale\":" + jlong(u64(o[1])) + ",\"w\":" + num((long long)u64(o[2])) + ",\"h\":" + num((long long)u64(o[3])) +
                    ",\"sps\":" + jbytes(s.data(), s.size()) + ",\"pps\":" + jbytes(p.data(), p.size());
            } else if (o[0] == "audio") {
                int id = m.add_audio_stream(u64(o[2]), u64(o[3]), u64(o[4]), u64(o[5]), u64(o[1]));
                f = "\"id\":" + num(id) + ",\"scale\":" + jlong(u64(o[1])) + ",\"object\":" + o[2] + ",\"rate\":" + jlong(u64(o[3])) + ",\"channels\":" + o[4];
            } else if (o[0] == "lang") {
                m.set_stream_optional(atoi(o[1].c_str()), o[2].c_str(), 0, 0);
                f = "\"s\":" + o[1] + ",\"lang\":" + jbytes((const unsigned char*)o[2].data(), o[2].size());
            } else if (o[0] == "auto") {
                m.set_auto_decoding_time(atoi(o[1].c_str()), true);
                f = "\"s\":" + o[1];
            } else if (o[0] == "distance") {
                m.set_max_distance(u64(o[1]));
                m.set_use_composition_in_distance(o[2] == "1");
                f = "\"d\":" + jlong(u64(o[1])) + ",\"comp\":" + (o[2] == "1" ? "true" : "false");
            } else if (o[0] == "shift") {
                m.set_ctts_offset(true);
                f = "\"n\":0";
            } else if (o[0] == "start") {
                if (o.size() > 1) m.start(out.c_str(), (unsigned)u64(o[1])); else m.start(out.c_str());
                f = "\"n\":0";
            } else if (o[0] == "add") {
                std::vector<unsigned char> b = o.size() > 6 ? unhex(o[6]) : std::vector<unsigned char>();
                uint64_t c = u64(o[3]), d = u64(o[4]);
                unsigned char none = 0;
                m.add_sample(atoi(o[1].c_str()), b.empty() ? &none : b.data(), b.size(), o[2] == "1", c, d, u64(o[5]));
                f = "\"s\":" + o[1] + ",\"sync\":" + (o[2] == "1" ? "true" : "false") + ",\"comp\":" + jlong(c) + ",\"dec\":" + jlong(d) + ",\"d\":" + jbytes(b.data(), b.size());
            } else if (o[0] == "end") {
                m.end();
                std::vector<unsigned char> b;
                FILE* fp = fopen(out.c_str(), "rb");
                if (fp) { int c; while ((c = fgetc(fp)) != EOF) b.push_back((unsigned char)c); fclose(fp); }
                bool left = access((out + ".body.tmp").c_str(), F_OK) == 0;
                f = "\"from\":" + jlong(began) + ",\"to\":" + jlong(clk()) + ",\"left\":" + (left ? "true" : "false") + ",\"file\":" + jbytes(b.data(), b.size());
            } else _exit(97);
            t.ev(o[0], f);
        } catch (mgexception& e) {
            t.ev("threw", "\"in\":" + jstr(o[0]) + ",\"what\":" + jstr(std::string(e.what()).substr(0, 80)));
        }
    }
    unlink(out.c_str());
    unlink((out + ".body.tmp").c_str());
}

int main(int argc, char** argv) {
    if (argc < 4) return 2;
    tmpdir = argv[3];
    return run_scripts(argv[1], argv[2],
        [](const Script& sc) { return "\"mode\":" + jstr(sc.head[0]) + ",\"part\":" + jstr(sc.head[1]); },
        [](const Script& sc, Tr& t) {
            if (sc.head[0] == "sync") { MP4Mux m; body(sc, t, m); return; }
            ::mg::uv::loopthread loop; loop.Create(); loop->set_wait_time(2);
            loop->start();
            { MP4Mux m(loop); body(sc, t, m); }
            loop->stop();
        });
}
