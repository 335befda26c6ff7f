// Writes transport streams with the library's muxers and reads them with its processor.
// head: <ts or hls>
#include "common.h"
#include <mgcore.h>
#include <mgmedia.h>
#include "tsparse.h"
#include "tsmux.h"

static uint64_t u64(const std::string& s) { return strtoull(s.c_str(), 0, 10); }

// ------------------------------------------------------------------ what the reader says
struct Log { std::string units; };
template<typename B> struct Heard : B {
    Log& log; unsigned pid; uint64_t n;
    Heard(Log& l) : log(l), pid(0), n(0) {}
    void say(const char* kind, tspacket& p, const PesData& d, const std::string& more) {
        if (!log.units.empty()) log.units += ",";
        log.units += "{\"kind\":" + jstr(kind) + ",\"pid\":" + num(p.PID()) + ",\"pes\":" + num((long long)n) + ",\"pts\":" + (d.PTS_flags ? jlong(d.GetTime()) : "[]") + ",\"dts\":" + (d.DTS_flags ? jlong(d.GetDTSTime()) : "[]") + more + "}";
    }
    bool ReceiveElementaryStreamData(tspacket& p, const PesData& d, CBufferRead& payload, uint64_t offset) override {
        n++;
        return B::ReceiveElementaryStreamData(p, d, payload, offset);
    }
};
struct Video : Heard<TSProgramElementaryStreamAnalyzeH264> {
    Video(Log& l) : Heard(l) {}
    void NalPayload(NALTYPE type, tspacket& p, const PesData& d, CBufferRead& b, int size) override {
        say("nal", p, d, ",\"type\":" + num((long long)type) + ",\"n\":" + num(size) + ",\"d\":" + jbytes(b.get(), b.size()));
    }
};
struct Audio : Heard<TSProgramElementaryStreamAnalyzeAAC> {
    Audio(Log& l) : Heard(l) {}
    void AACPayload(ADTS& a, tspacket& p, const PesData& d, CBufferRead& b, int k) override {
        say("aac", p, d, ",\"object\":" + num(a.get_mpeg_4_audio_object()) + ",\"rate\":" + num(a.mpeg_4_sampling_frequency) + ",\"channels\":" + num(a.channel_configuration) + ",\"k\":" + num(k) + ",\"d\":" + jbytes(b.get(), b.size()));
    }
};
struct Reader : CTSProcessor {
    Log& log;
    Reader(Log& l) : log(l) {}
    ts_pes* get_ts_pes(int type) override {
        if (STREAM_TYPE_VIDEO_H264 == type) return new Video(log);
        if (STREAM_TYPE_AUDIO_AAC == type) return new Audio(log);
        return CTSProcessor::get_ts_pes(type);
    }
    std::string program() {
        std::string f;
        for (unsigned g = 0; pat()->CanWork() && g < pat()->Count(); g++) {
            ProgramMapTable* p = pat()->GetProgramNumber(g) ? pmt(pat()->GetProgramPid(g)) : 0;
            if (!p || !p->CanWork()) continue;
            f += (f.empty() ? "[" : ",[") + num((long long)pat()->GetProgramNumber(g)) + "," + num((long long)p->GetPCRPid()) + ",[";
            for (unsigned k = 0; k < p->Count(); k++) f += std::string(k ? "," : "") + "[" + num((long long)p->GetPid(k)) + "," + num((long long)p->GetType(k)) + "]";
            f += "]]";
        }
        return "[" + f + "]";
    }
    void end() {
        for (unsigned g = 0; pat()->CanWork() && g < pat()->Count(); g++) {
            ProgramMapTable* p = pat()->GetProgramNumber(g) ? pmt(pat()->GetProgramPid(g)) : 0;
            if (p && p->CanWork()) for (unsigned k = 0; k < p->Count(); k++) if (IsStream(p->GetPid(k))) get_pes(p->GetPid(k))->End();
        }
    }
};

template<typename M> static void body(const Script& sc, Tr& t, M& m, HLSMux* hls) {
    size_t seen = 0;
    m.start(NULL);
    Log log;
    Reader reader(log);
    H264Nal decoder;
    for (size_t k = 0; k < sc.ops.size(); k++) {
        const std::vector<std::string>& o = sc.ops[k];
        std::string f = "\"n\":0";
        try {
            if (o[0] == "video") {
                std::vector<unsigned char> s = unhex(o[1]), p = unhex(o[2]);
                int id = m.add_visual_stream(s.data(), s.size(), p.data(), p.size());
                f = "\"id\":" + num(id) + ",\"sps\":" + jbytes(s.data(), s.size()) + ",\"pps\":" + jbytes(p.data(), p.size());
            } else if (o[0] == "audio") {
                int id = m.add_audio_stream(u64(o[1]), u64(o[2]), u64(o[3]), 0);
                f = "\"id\":" + num(id) + ",\"object\":" + o[1] + ",\"rate\":" + num((long long)u64(o[2])) + ",\"channels\":" + o[3];
            } else if (o[0] == "timecode") {
                f = "\"id\":" + num(m.add_extension_ltc_stream());
            } else if (o[0] == "pcr") {
                m.set_stream_pcr(atoi(o[1].c_str()));
                f = "\"s\":" + o[1];
            } else if (o[0] == "offset") {
                m.set_presentation_offset(u64(o[1]));
                m.set_decoding_offset(u64(o[2]));
                f = "\"p\":" + jlong(u64(o[1])) + ",\"d\":" + jlong(u64(o[2]));
            } else if (o[0] == "once") {
                m.set_only_table_at_beginning(o[1] == "1");
                f = std::string("\"on\":") + (o[1] == "1" ? "true" : "false");
            } else if (o[0] == "continuity") {
                m.set_section_continuity((unsigned char)u64(o[1]));
                f = "\"c\":" + o[1];
            } else if (o[0] == "base") {
                if (hls) hls->set_composition_start_time(0, u64(o[1]));
                f = "\"t\":" + jlong(u64(o[1]));
            } else if (o[0] == "add" || o[0] == "stuff") {
                if (o[0] == "add") {
                    std::vector<std::vector<unsigned char>> nals;
                    std::vector<unsigned char> b;
                    bool video = o[2] == "v";
                    f = "\"s\":" + o[1] + ",\"sync\":" + (o[3] == "1" ? "true" : "false") + ",\"comp\":" + jlong(u64(o[4])) + ",\"dec\":" + jlong(u64(o[5])) + ",\"d\":[";
                    for (size_t j = 6; j < o.size(); j++) {
                        std::vector<unsigned char> x = unhex(o[j]);
                        if (video) for (int q = 3; q >= 0; q--) b.push_back((unsigned char)(x.size() >> (8 * q)));
                        b.insert(b.end(), x.begin(), x.end());
                        f += (j > 6 ? "," : "") + jbytes(x.data(), x.size());
                    }
                    f += "]";
                    // at the end of its own memory
                    unsigned char* p = new unsigned char[b.size() + !b.size()];
                    if (!b.empty()) memcpy(p, b.data(), b.size());
                    m.add_sample(atoi(o[1].c_str()), p, b.size(), o[3] == "1", u64(o[4]), u64(o[5]), 0);
                    delete[] p;
                } else { m.stuff_streams(); f = "\"n\":1"; }
                m.flush();
                size_t n = m.get_memory_size();
                const unsigned char* p = m.get_memory();
                f += ",\"p\":[";
                for (size_t at = seen; at < n; at += 188) f += std::string(at > seen ? "," : "") + jbytes(p + at, std::min<size_t>(188, n - at));
                f += "]";
                seen = n;
            } else if (o[0] == "packets") {
                log.units.clear();
                std::string r;
                f = "\"p\":[";
                for (size_t j = 1; j < o.size(); j++) {
                    std::vector<unsigned char> b = unhex(o[j]);
                    fixed_memory_bitstream ms(b.data(), b.size());
                    Transport_Packet ts;
                    ts.get(ms);
                    reader.process(ts, 0);
                    f += (j > 1 ? "," : "") + jbytes(b.data(), b.size());
                }
                f += "],\"program\":" + reader.program() + ",\"units\":[" + log.units + "]";
            } else if (o[0] == "nal") {
                // the same decoder is used for all units
                std::vector<unsigned char> b = unhex(o[1]);
                decoder.decode_nal((unsigned)b.size(), b.data());
                f = "\"n\":" + jbytes(b.data(), b.size()) + ",\"type\":" + std::to_string(decoder.get_decoded_nal_unit_type())
                    + ",\"ref\":" + std::to_string(decoder.get_decoded_nal_ref_idc()) + ",\"d\":" + jbytes(decoder.decoded_rbsp(), decoder.decoded_rbsp_size());
            } else if (o[0] == "end") {
                log.units.clear();
                reader.end();
                f = "\"units\":[" + log.units + "]";
            } else _exit(97);
            t.ev(o[0], f);
        } catch (mgexception& e) {
            t.ev("threw", "\"in\":" + jstr(o[0]) + ",\"what\":" + jstr(std::string(e.what()).substr(0, 80)));
        } catch (EndOfData&) {
            t.ev("threw", "\"in\":" + jstr(o[0]) + ",\"what\":\"end of data\"");
        }
    }
}

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    std::wcout.setstate(std::ios::failbit);
    std::wcerr.setstate(std::ios::failbit);
    return run_scripts(argv[1], argv[2],
        [](const Script& sc) { return "\"mode\":" + jstr(sc.head[0]); },
        [](const Script& sc, Tr& t) {
            if (sc.head[0] == "hls") { HLSMux m; body(sc, t, m, &m); }
            else { TSMux m; body(sc, t, m, 0); }
        });
}
