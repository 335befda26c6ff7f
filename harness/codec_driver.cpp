// Base 64 in blocks, section checksum.
#include "common.h"
#include "b64/include/cencode.h"
#include "b64/include/cdecode.h"
#include "mg/media/wincrc.h"
#include <memory>
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    return run_scripts(argv[1], argv[2], [](const Script&) { return std::string(); },
        [](const Script& sc, Tr& t) {
            base64_encodestate es; base64_decodestate ds;
            base64_init_encodestate(&es); base64_init_decodestate(&ds);
            std::string out, dout;
            CWinCrc crc;
            for (size_t k = 0; k < sc.ops.size(); k++) {
                const std::vector<std::string>& o = sc.ops[k];
                std::vector<unsigned char> d = unhex(o.size() > 1 ? o[1] : "-");
                std::string f = "\"d\":" + jbytes(d.data(), d.size());
                if (o[0] == "eblock") {
                    // exact copies, so that an over-read or an over-write is seen
                    std::unique_ptr<char[]> in(new char[d.size()]), q(new char[d.size() / 3 * 4 + 4]);
                    memcpy(in.get(), d.data(), d.size());
                    int n = base64_encode_block(in.get(), (int)d.size(), q.get(), &es);
                    out.append(q.get(), n);
                    f += ",\"o\":" + jbytes((const unsigned char*)out.data(), out.size());
                } else if (o[0] == "eend") {
                    std::unique_ptr<char[]> q(new char[4]);
                    int n = base64_encode_blockend(q.get(), &es);
                    out.append(q.get(), n);
                    f += ",\"o\":" + jbytes((const unsigned char*)out.data(), out.size());
                    out.clear(); base64_init_encodestate(&es);
                } else if (o[0] == "dblock") {
                    std::unique_ptr<char[]> in(new char[d.size()]), q(new char[d.size() / 4 * 3 + 4]);
                    memcpy(in.get(), d.data(), d.size());
                    size_t n = base64_decode_block(in.get(), (int)d.size(), q.get(), &ds);
                    dout.append(q.get(), n);
                    f += ",\"o\":" + jbytes((const unsigned char*)dout.data(), dout.size());
                } else if (o[0] == "dend") { dout.clear(); base64_init_decodestate(&ds); }
                else if (o[0] == "crc") {
                    int off = atoi(o[2].c_str());
                    std::unique_ptr<unsigned char[]> in(new unsigned char[d.size() + off]);
                    memcpy(in.get() + off, d.data(), d.size());
                    f += ",\"o\":" + jword(crc.crc_32(in.get() + off, (unsigned)d.size()));
                } else _exit(97);
                t.ev(o[0], f);
            }
        });
}
