// Reads an MP4 file with the library's reader, and asks it questions.
// head: <mem|sync|async> <buffer size>; first operation: file <hex>
#include "common.h"
#include <mgcore.h>
#include <mgmedia.h>
using namespace mg::core;

static uint64_t u64(const std::string& s) { return strtoull(s.c_str(), 0, 10); }
static std::string tmpdir;

static void sample_fields(std::string& f, CMP4& mp4, sample_stream_info& ms, bool bytes) {
    f += ",\"off\":" + jlong(ms.offset) + ",\"size\":" + jlong(ms.size) + ",\"comp\":" + jlong(ms.composition_time) +
         ",\"dec\":" + jlong(ms.decoding_time) + ",\"dur\":" + jlong(ms.duration) + ",\"sync\":" + (ms.bIsSyncPoint ? "true" : "false") + ",\"n\":" + num((long long)ms.sample_number);
    if (bytes) {
        std::vector<unsigned char> b(ms.size);
        mp4.set_position(ms.offset);
        if (ms.size) mp4.read_bytes(&b[0], ms.size);
        f += ",\"d\":" + jbytes(b.data(), b.size());
    }
}

static void body(const Script& sc, Tr& t, CMP4& mp4) {
    MP4Reader r;
    for (size_t k = 1; k < sc.ops.size(); k++) {
        const std::vector<std::string>& o = sc.ops[k];
        std::string f;
        unsigned s = o.size() > 1 ? (unsigned)u64(o[1]) : 0;
        uint64_t a = o.size() > 2 ? u64(o[2]) : 0;
        f = "\"s\":" + num(s);
        try {
            if (o[0] == "open") {
                r.parse(mp4);
                f = "\"n\":" + num((long long)r.stream_count()) + ",\"dur\":" + jlong(r.get_duration()) + ",\"v\":" + num(r.VisualStream());
            } else if (o[0] == "info") {
                f += ",\"count\":" + num((long long)r.get_sample_count(s)) + ",\"scale\":" + jlong(r.get_media_time_scale(s)) + ",\"dur\":" + jlong(r.get_duration(s)) +
                     ",\"total\":" + jlong(r.get_total_stream_size(s)) + ",\"visual\":" + (r.IsVisual(s) ? "true" : "false") + ",\"sound\":" + (r.IsSound(s) ? "true" : "false") +
                     ",\"ctts\":" + (r.has_composition_time(s) ? "true" : "false") + ",\"stss\":" + (r.has_random_access_point(s) ? "true" : "false") +
                     ",\"offset\":" + jlong(r.get_stream_offset(s)) + ",\"lang\":" + jstr(r.get_language(s));
                if (r.get_sample_count(s))
                    f += ",\"start\":" + jlong(r.get_start_time(s)) + ",\"end\":" + jlong(r.get_end_time(s)) + ",\"endplus\":" + jlong(r.get_end_time_plus_duration(s)) +
                         ",\"dstart\":" + jlong(r.get_decoding_start_time(s)) + ",\"dend\":" + jlong(r.get_decoding_end_time(s));
            } else if (o[0] == "sample") {
                f += ",\"i\":" + num((long long)a) + ",\"off\":" + jlong(r.get_sample_offset(a, s)) + ",\"size\":" + jlong(r.get_sample_size(a, s)) +
                     ",\"comp\":" + jlong(r.get_composition_time(a, s)) + ",\"dec\":" + jlong(r.get_decoding_time(a, s)) +
                     ",\"rcomp\":" + jlong(r.get_raw_composition_time(a, s)) + ",\"rdec\":" + jlong(r.get_raw_decoding_time(a, s));
            } else if (o[0] == "iframe") {
                f += ",\"t\":" + jlong(a) + ",\"n\":" + num((long long)r.get_IFrame_number(a, s));
                if (r.has_random_access_point(s)) f += ",\"next\":" + jlong(r.get_next_IFrame_time(s));
            } else if (o[0] == "comp") {
                f += ",\"t\":" + jlong(a) + ",\"n\":" + num((long long)r.get_composition_sample_number(a, s));
            } else if (o[0] == "move") {
                bool any = o[1] == "-";
                f = std::string("\"any\":") + (any ? "true" : "false") + ",\"s\":" + num(any ? 0 : s) + ",\"t\":" + jlong(a);
                if (any) r.move(a); else r.move(a, s);
            } else if (o[0] == "next") {
                sample_stream_info ms;
                bool ok = r.next_file_chunks(ms);
                f = std::string("\"ok\":") + (ok ? "true" : "false");
                if (ok) { f += ",\"s\":" + num(ms.stream); sample_fields(f, mp4, ms, true); }
            } else _exit(97);
            t.ev(o[0], f);
        } catch (mgexception& e) {
            t.ev("threw", "\"in\":" + jstr(o[0]) + ",\"what\":" + jstr(std::string(e.what()).substr(0, 80)));
        }
    }
}

int main(int argc, char** argv) {
    if (argc < 4) return 2;
    tmpdir = argv[3];
    return run_scripts(argv[1], argv[2],
        [](const Script& sc) { std::vector<unsigned char> b = unhex(sc.ops[0][1]); return "\"bytes\":" + jbytes(b.data(), b.size()); },
        [](const Script& sc, Tr& t) {
            std::vector<unsigned char> b = unhex(sc.ops[0][1]);
            unsigned buf = (unsigned)u64(sc.head[1]);
            if (sc.head[0] == "mem") { CMP4Memory m; m.Open(b.data(), b.size()); body(sc, t, m); return; }
            std::string p = tmpdir + "/in.mp4";
            FILE* f = fopen(p.c_str(), "wb"); fwrite(b.data(), 1, b.size(), f); fclose(f);
            if (sc.head[0] == "sync") { SYNCMP4File m(buf); m.open(p.c_str()); body(sc, t, m); m.close(); }
            else {
                ::mg::uv::loopthread loop; loop.Create(); loop->set_wait_time(2);
                loop->start();
                { MP4File m(loop, buf); m.open(p.c_str()); body(sc, t, m); m.close(); }
                loop->stop();
            }
            unlink(p.c_str());
        });
}
