// Fragments: what the library makes of files and samples, and what it reads in fragments.
// head: <mem|file>
#include "common.h"
#include <map>
#include <mgcore.h>
#include <mgmedia.h>
#include "hnano.h"
#include "mp4dynamicinfo.h"
#include "hls_renderer.h"
using namespace mg::core;

static uint64_t u64(const std::string& s) { return s == "-" ? UINT64_MAX : strtoull(s.c_str(), 0, 10); }
static std::string tmpdir;
static const int64_t BIAS = 1LL << 44;
static std::string jtime(int64_t v) { return jlong((uint64_t)(v + BIAS)); }
static std::string path(const std::string& n) { return tmpdir + "/" + n + ".mp4"; }
static std::string slurp(const std::string& p) { std::ifstream f(p.c_str(), std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
static std::string jb(const std::string& s) { return jbytes((const unsigned char*)s.data(), s.size()); }

struct Out {                                 // where a fragment is written
    SYNCMP4WriteFile f;
    Out() { f.open((tmpdir + "/out").c_str(), false); }
    std::string done() { f.close(); std::string s = slurp(tmpdir + "/out"); unlink((tmpdir + "/out").c_str()); return s; }
};
struct In {                                  // where a file is read
    CMP4Memory m;
    SYNCMP4File f;
    std::vector<unsigned char> b;
    bool mem;
    CMP4& mp4() { return mem ? (CMP4&)m : (CMP4&)f; }
    In(const std::string& s, bool mem) : mem(mem) { b.assign(s.begin(), s.end()); if (mem) m.Open(b.data(), b.size()); }
    In(const std::string& n, bool mem, int) : mem(mem) {
        if (mem) { std::string s = slurp(path(n)); b.assign(s.begin(), s.end()); m.Open(b.data(), b.size()); } else f.open(path(n).c_str());
    }
    ~In() { if (!mem) f.close(); }
};

// what the library's own reader says of the fragment just read
static std::string reader_fields(const MOOFReader& r) {
    std::string o = "\"n\":" + num(r.get_trun_sample_count()) + ",\"tfdt\":" + (r.has_TrackFragmentBaseMediaDecodeTimeBox() ? "true" : "false") +
        ",\"base\":" + jlong(r.has_TrackFragmentBaseMediaDecodeTimeBox() ? r.TrackFragmentBaseMediaDecode() : 0) +
        ",\"at\":" + jlong(r.get_mdat_position()) + ",\"data\":" + jlong(r.get_base_offset()) + ",\"senc\":" + (r.has_senc() ? "true" : "false") + ",\"k\":[";
    for (unsigned i = 0; i < r.get_trun_sample_count(); i++)
        o += (i ? ",[" : "[") + jlong(r.get_sample_size(i)) + "," + jlong(r.get_sample_duration(i)) + "," + jtime(r.get_sample_composition_time_offset(i)) + "," + jtime(r.get_sample_composition_time_offset(i, true)) + "]";
    o += "],\"live\":[";
    for (int i = 0; i < r.get_tfrf_size(); i++) o += (i ? ",[" : "[") + jlong(r.get_tfrf_time(i)) + "," + jlong(r.get_tfrf_duration(i)) + "]";
    o += "]";
    o += ",\"saio\":[";
    for (size_t i = 0; i < r.get_saio()._samples_offset.size(); i++) o += (i ? "," : "") + jlong(r.get_saio()._samples_offset[i]);
    o += "],\"saiz\":[";
    for (size_t i = 0; i < r.get_saiz()._samples_info_size.size(); i++) o += (i ? "," : "") + num(r.get_saiz()._samples_info_size[i]);
    o += "]";
    if (r.has_tfxd()) o += ",\"tfxd\":" + jlong(r.get_tfxd_time());
    if (r.has_senc()) {
        const SampleEncryptionBox& s = r.get_senc();
        o += ",\"sencs\":[";
        for (size_t i = 0; i < s._samples.size(); i++) {
            const SingleEncryptionBox* b = s._samples[i];
            o += std::string(i ? "," : "") + "[" + jbytes(&b->init_vector->InitializationVector_0, 8) + ",[";
            for (size_t j = 0; j < b->_sub_samples.size(); j++) o += (j ? ",[" : "[") + num(b->_sub_samples[j]->BytesOfClearData) + "," + jlong(b->_sub_samples[j]->BytesOfProtectedData) + "]";
            o += "]]";
        }
        o += "]";
    }
    return o;
}

static void body(const Script& sc, Tr& t) {
    bool mem = sc.head[0] == "mem";
    std::map<std::string, std::string> files;
    CMP4DynamicInfo info;
    for (size_t k = 0; k < sc.ops.size(); k++) {
        const std::vector<std::string>& o = sc.ops[k];
        std::string f;
        try {
            if (o[0] == "file") {
                std::vector<unsigned char> b = unhex(o[2]);
                FILE* w = fopen(path(o[1]).c_str(), "wb"); fwrite(b.data(), 1, b.size(), w); fclose(w);
                f = "\"f\":" + jstr(o[1]) + ",\"d\":" + jbytes(b.data(), b.size());
            } else if (o[0] == "chunk") {    // f s track start end seq avcn base scale key flags
                std::vector<unsigned char> key = o[10] == "-" ? std::vector<unsigned char>() : unhex(o[10]);
                bool avcn = o[7] == "1";
                In in(o[1], mem, 0);
                Out out;
                CMP4Fragment::produce_m4f_chunk(out.f, in.mp4(), (int)u64(o[2]), (int)u64(o[3]), u64(o[4]), u64(o[5]), (int)u64(o[6]), avcn, u64(o[8]), NULL, key.empty() ? NULL : &key[0], (DWORD)u64(o[11]), u64(o[9]));
                f = "\"f\":" + jstr(o[1]) + ",\"s\":" + num((long long)u64(o[2])) + ",\"track\":" + o[3] + ",\"from\":" + jlong(u64(o[4])) + ",\"to\":" + jlong(u64(o[5])) + ",\"seq\":" + o[6] + ",\"video\":" + (avcn ? "true" : "false") +
                    ",\"given\":" + (o[8] == "-" ? "false" : "true") + ",\"base\":" + jlong(o[8] == "-" ? 0 : u64(o[8])) + ",\"scale\":" + jlong(u64(o[9])) + ",\"key\":" + jbytes(key.data(), key.size()) + ",\"flags\":" + o[11] + ",\"out\":" + jb(out.done());
            } else if (o[0] == "cross") {    // f g s track start end start2 end2 seq avcn base scale key flags
                std::vector<unsigned char> key = o[13] == "-" ? std::vector<unsigned char>() : unhex(o[13]);
                bool avcn = o[10] == "1";
                In in(o[1], mem, 0), in2(o[2], mem, 0);
                Out out;
                CMP4Fragment::produce_m4f_chunk_cross(out.f, in.mp4(), in2.mp4(), (int)u64(o[3]), (int)u64(o[4]), u64(o[5]), u64(o[6]), u64(o[7]), u64(o[8]), (int)u64(o[9]), avcn, u64(o[11]), NULL, key.empty() ? NULL : &key[0], (DWORD)u64(o[14]), u64(o[12]));
                f = "\"f\":" + jstr(o[1]) + ",\"g\":" + jstr(o[2]) + ",\"s\":" + num((long long)u64(o[3])) + ",\"track\":" + o[4] + ",\"from\":" + jlong(u64(o[5])) + ",\"to\":" + jlong(u64(o[6])) + ",\"from2\":" + jlong(u64(o[7])) + ",\"to2\":" + jlong(u64(o[8])) +
                    ",\"seq\":" + o[9] + ",\"video\":" + (avcn ? "true" : "false") + ",\"given\":" + (o[11] == "-" ? "false" : "true") + ",\"base\":" + jlong(o[11] == "-" ? 0 : u64(o[11])) + ",\"scale\":" + jlong(u64(o[12])) +
                    ",\"key\":" + jbytes(key.data(), key.size()) + ",\"flags\":" + o[14] + ",\"out\":" + jb(out.done());
            } else if (o[0] == "frag") {     // track seq flags scale base key encflags [comp dec dur hex]...
                CMP4Fragment m;
                m.set_timescale(u64(o[4]));
                m.start((int)u64(o[1]), (int)u64(o[2]), (unsigned)u64(o[3]));
                std::vector<unsigned char> key;
                if (o[6] != "-") { key = unhex(o[6]); m.set_encryption(&key[0], (unsigned)u64(o[7])); }
                if (o[5] != "-") m.set_baseMediaDecodeTime(u64(o[5]));
                std::string l;
                for (size_t i = 8; i + 3 < o.size(); i += 4) {
                    std::vector<unsigned char> b = unhex(o[i + 3]), c = b;
                    b.resize(b.size() + 1);
                    m.add_sample(0, &b[0], (unsigned)c.size(), true, u64(o[i]), u64(o[i + 1]), u64(o[i + 2]));
                    l += std::string(l.empty() ? "" : ",") + "{\"comp\":" + jlong(u64(o[i])) + ",\"dec\":" + jlong(u64(o[i + 1])) + ",\"dur\":" + jlong(u64(o[i + 2])) + ",\"d\":" + jbytes(c.data(), c.size()) + "}";
                }
                Out out;
                m.end(out.f);
                f = "\"track\":" + o[1] + ",\"seq\":" + o[2] + ",\"video\":" + (u64(o[3]) ? "true" : "false") + ",\"scale\":" + jlong(u64(o[4])) + ",\"given\":" + (o[5] == "-" ? "false" : "true") + ",\"base\":" + jlong(o[5] == "-" ? 0 : u64(o[5])) +
                    ",\"key\":" + jbytes(key.data(), key.size()) + ",\"flags\":" + o[7] + ",\"a\":[" + l + "],\"out\":" + jb(out.done());
            } else if (o[0] == "init") {     // video|audio track private rate dur scale kid pssh
                std::vector<unsigned char> cpd = unhex(o[3]), kid = o[7] == "-" ? std::vector<unsigned char>() : unhex(o[7]), pssh = o[8] == "-" ? std::vector<unsigned char>() : unhex(o[8]);
                Out out;
                CMP4Fragment::produce_m4f_initialization(out.f, (int)u64(o[2]), o[1] == "video" ? STREAM_TYPE_VIDEO_H264 : STREAM_TYPE_AUDIO_AAC, &cpd[0], (unsigned)cpd.size(), (unsigned)u64(o[4]), u64(o[5]), u64(o[6]),
                    kid.empty() ? NULL : &kid[0], pssh.empty() ? NULL : &pssh[0], (unsigned)pssh.size());
                f = std::string("\"video\":") + (o[1] == "video" ? "true" : "false") + ",\"track\":" + o[2] + ",\"cpd\":" + jbytes(cpd.data(), cpd.size()) + ",\"rate\":" + jlong(u64(o[4])) + ",\"dur\":" + jlong(u64(o[5])) + ",\"scale\":" + jlong(u64(o[6])) +
                    ",\"kid\":" + jbytes(kid.data(), kid.size()) + ",\"pssh\":" + jbytes(pssh.data(), pssh.size()) + ",\"out\":" + jb(out.done());
            } else if (o[0] == "read") {     // strict|run hex
                std::vector<unsigned char> b = unhex(o[2]);
                In in(std::string(b.begin(), b.end()), mem && true);
                if (!in.mem) { FILE* w = fopen(path("r").c_str(), "wb"); fwrite(b.data(), 1, b.size(), w); fclose(w); in.f.open(path("r").c_str()); }
                f = "\"d\":" + jbytes(b.data(), b.size()) + ",\"a\":[";
                MOOFReader r;
                int c = 0;
                if (o[1] == "strict") { r.parse(in.mp4(), true); f += "{" + reader_fields(r) + "}"; }
                else while (!in.mp4().eof() && c < 50) { r.parse(in.mp4(), false); f += std::string(c++ ? "," : "") + "{" + reader_fields(r) + "}"; }
                f += "]";
            } else if (o[0] == "index") {    // f start end rate audio-rate
                dynamic_item it;
                it.bitrate = u64(o[4]); it.audio_bitrate = u64(o[5]); it.lang_count = 0; it.psz_path = path(o[1]).c_str();
                f = "\"f\":" + jstr(o[1]) + ",\"from\":" + jlong(u64(o[2])) + ",\"to\":" + jlong(u64(o[3]));
                info.Add(u64(o[2]), u64(o[3]), &it, 1);
            } else if (o[0] == "length") { info.set_fragment_length(u64(o[1])); f = "\"v\":" + jlong(u64(o[1]));
            } else if (o[0] == "finish") { info.End(); SSFRenderer r; info.render(&r);
            } else if (o[0] == "done") {
            } else if (o[0] == "points") {   // the points of every stream
                DynamicPresentation& p = const_cast<DynamicPresentation&>(info.get_presentation());
                f = "\"a\":[";
                for (int i = 0; i < p.Count(); i++) {
                    DynamicStream* s = p.get_by_index(i);
                    f += (i ? ",{" : "{") + std::string("\"id\":") + num(s->id) + ",\"video\":" + (s->is_video() ? "true" : "false") + ",\"dur\":" + jtime(s->duration()) + ",\"p\":[";
                    int c = 0;
                    for (std::map<int64_t, int64_t>::const_iterator q = s->get_point_begin(); q != s->get_point_end(); q++) f += (c++ ? ",[" : "[") + jtime(q->first) + "," + jtime(q->second) + "]";
                    f += "]}";
                }
                f += "]";
            } else if (o[0] == "segments") { // s scale rate: every fragment of a stream, as the command makes them
                DynamicPresentation& p = const_cast<DynamicPresentation&>(info.get_presentation());
                DynamicStream* s = p.get_by_index((int)u64(o[1]));
                f = "\"s\":" + num((long long)u64(o[1])) + ",\"scale\":" + jlong(u64(o[2])) + ",\"a\":[";
                int c = 0;
                for (std::map<int64_t, int64_t>::const_iterator q = s->get_point_begin(); q != s->get_point_end(); ) {
                    uint64_t computed = q->first, comp = q->second;
                    q++;
                    if (q == s->get_point_end()) break;
                    uint64_t end = s->get_end_original_time(computed);
                    Cstring pt = s->get_path(u64(o[3]), computed);
                    Out out;
                    if (s->is_cross_point(computed)) {
                        CrossPoint cp = s->get_cross_point(computed);
                        SYNCMP4File a, b;
                        a.open(pt); b.open(s->get_path(u64(o[3]), cp.computed_time_2));
                        CMP4Fragment::produce_m4f_chunk_cross(out.f, a, b, s->id, s->id + 1, cp.composition, cp.composition + cp.computed_time_2 - cp.computed_time, cp.composition_2, end, c + 1, s->is_video(), computed, NULL, NULL, 0, u64(o[2]));
                        a.close(); b.close();
                    } else {
                        SYNCMP4File a;
                        a.open(pt);
                        CMP4Fragment::produce_m4f_chunk(out.f, a, s->id, s->id + 1, comp, end, c + 1, s->is_video(), computed, NULL, NULL, 0, u64(o[2]));
                        a.close();
                    }
                    f += std::string(c++ ? "," : "") + jb(out.done());
                }
                f += "]";
            } else if (o[0] == "hls") {      // sequence key hex
                std::vector<unsigned char> key = unhex(o[2]), b = unhex(o[3]);
                uint64_t n = 0;
                HLSRenderer::hls3_encrypt_buffer(NULL, &n, &b[0], b.size(), (int)u64(o[1]), &key[0]);
                std::vector<unsigned char> c(n);
                uint64_t m = n;
                long r = HLSRenderer::hls3_encrypt_buffer(&c[0], &m, &b[0], b.size(), (int)u64(o[1]), &key[0]);
                f = "\"seq\":" + o[1] + ",\"key\":" + jbytes(key.data(), key.size()) + ",\"d\":" + jbytes(b.data(), b.size()) + ",\"r\":" + num(r) + ",\"size\":" + num((long long)n) + ",\"said\":" + num((long long)m) + ",\"out\":" + jbytes(c.data(), c.size());
            } else _exit(97);
            t.ev(o[0], f);
        } catch (mgexception& e) {
            t.ev("threw", "\"in\":" + jstr(o[0]) + ",\"what\":" + jstr(std::string(e.what()).substr(0, 80)));
        }
    }
    for (size_t k = 0; k < sc.ops.size(); k++) if (sc.ops[k][0] == "file") unlink(path(sc.ops[k][1]).c_str());
    unlink(path("r").c_str());
}

int main(int argc, char** argv) {
    if (argc < 4) return 2;
    tmpdir = argv[3];
    return run_scripts(argv[1], argv[2], [](const Script&) { return std::string("\"x\":0"); }, body);
}
