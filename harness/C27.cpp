// C27: chunk compression splits and joins records exactly (observed at the codec: see rt/lazperf)
#include "many.h"
#include <copc-lib/laz/compressor.hpp>
#include <copc-lib/laz/decompressor.hpp>
using copc::laz::Compressor;
using copc::laz::Decompressor;
// what the codec emits for these records
static Bytes coded(int fmt, int eb, const Bytes &raw, int n)
{
    Bytes c{(char)fmt, (char)0xC7, (char)eb, (char)(eb >> 8), (char)n, (char)(n >> 8), (char)(n >> 16), (char)(n >> 24)};
    for (char b : raw) c.push_back(b ^ 0x5a);
    return c;
}
static int pickEb()
{
    static const int E[8] = {0, 1, 5, 217, 225, 226, 300, 600};
    return E[sym_choose("eb", (int)sym_param("E", 6))];
}
static las::LasHeader head(int fmt, int eb) { return las::LasHeader(fmt, baseSize(fmt) + eb, Vector3(1, 1, 1), Vector3(0, 0, 0), sym_choose("copc", 2)); }
extern "C" void C27_compress(void)
{
    int fmt = 6 + sym_choose("fmt", 3), eb = pickEb(), rec = baseSize(fmt) + eb, n = sym_choose("n", (int)sym_param("N", 3)), how = sym_choose("how", 4);
    Bytes raw = mkRaw(rec, n), was = raw, out;
    las::LasHeader h = how & 1 ? head(fmt, eb) : las::LasHeader();
    if (how < 2)
    {
        std::stringstream ss;
        int pre = sym_choose("pre", 2) * 3;
        ss.write("abc", pre);
        int32_t c = how ? Compressor::CompressBytes(ss, h, raw) : Compressor::CompressBytes(ss, (int8_t)fmt, (uint16_t)eb, raw);
        ASSERT(c == n, "the number of records is reported");
        std::string s = ss.str();
        ASSERT(s.substr(0, pre) == std::string("abc", pre), "what was in the stream is kept");
        out.assign(s.begin() + pre, s.end());
    }
    else
        out = how == 3 ? Compressor::CompressBytes(raw, h) : Compressor::CompressBytes(raw, (int8_t)fmt, (uint16_t)eb);
    ASSERT(sameBytes(out, coded(fmt, eb, was, n)), "the codec got exactly the records in order, then one end");
    ASSERT(sameBytes(raw, was), "the input is not changed");
    OBS("size", out.size());
    REACH("done");
}
extern "C" void C27_partial(void)
{
    int fmt = 6 + sym_choose("fmt", 3), eb = sym_choose("eb", 2) * 230, rec = baseSize(fmt) + eb, how = sym_choose("how", 4);
    int size = sym_choose("k", 3) * rec + 1 + sym_choose("r", (int)sym_param("R", 4)) * (rec - 2) / ((int)sym_param("R", 4) - 1);
    Bytes raw = mkRaw(size, 1);
    las::LasHeader h = how & 1 ? head(fmt, eb) : las::LasHeader();
    std::stringstream ss;
    ss.write("abc", 3);
    bool t = throws([&] {
        if (how == 0) Compressor::CompressBytes(ss, (int8_t)fmt, (uint16_t)eb, raw);
        else if (how == 1) Compressor::CompressBytes(ss, h, raw);
        else if (how == 2) Compressor::CompressBytes(raw, (int8_t)fmt, (uint16_t)eb);
        else Compressor::CompressBytes(raw, h);
    });
    ASSERT(t, "a buffer that is not a whole number of records is rejected");
    ASSERT(ss.str() == "abc", "nothing is encoded");
    REACH("rejected");
}
extern "C" void C27_decompress(void)
{
    int fmt = 6 + sym_choose("fmt", 3), eb = pickEb(), rec = baseSize(fmt) + eb, N = (int)sym_param("N", 3), n = sym_choose("n", N), ask = sym_choose("ask", N), how = sym_choose("how", 4);
    if (ask > n) return;
    Bytes raw = mkRaw(rec, n), c = coded(fmt, eb, raw, n), want(raw.begin(), raw.begin() + rec * ask), got;
    las::LasHeader h = how & 1 ? head(fmt, eb) : las::LasHeader();
    if (how < 2)
    {
        std::string s = "xy" + std::string(c.begin(), c.end()) + (sym_choose("more", 2) ? "tail" : "");
        std::stringstream ss(s);
        ss.seekg(2);
        got = how ? Decompressor::DecompressBytes(ss, h, ask) : Decompressor::DecompressBytes(ss, (int8_t)fmt, (uint16_t)eb, ask);
        ASSERT(ss.good(), "the stream can be used again");
    }
    else
        got = how == 3 ? Decompressor::DecompressBytes(c, h, ask) : Decompressor::DecompressBytes(c, (int8_t)fmt, (uint16_t)eb, ask);
    ASSERT(got.size() == (size_t)(rec * ask), "exactly the records asked for");
    ASSERT(sameBytes(got, want), "in the codec's order");
    REACH("done");
}
extern "C" void C27_chunks(void)
{
    // several chunks in one stream, in any order, each as often as asked for
    int fmt = 6 + sym_choose("fmt", 3), eb = pickEb(), rec = baseSize(fmt) + eb, k = (int)sym_param("K", 3), form = sym_choose("form", 2);
    las::LasHeader h = head(fmt, eb);
    std::stringstream ss;
    std::vector<Bytes> raws;
    std::vector<size_t> at;
    for (int i = 0; i < k; i++)
    {
        raws.push_back(mkRaw(rec, 1 + (i & 1)));
        at.push_back(ss.str().size());
        if (form) Compressor::CompressBytes(ss, h, raws[i]);
        else Compressor::CompressBytes(ss, (int8_t)fmt, (uint16_t)eb, raws[i]);
    }
    for (int i = 0; i < k; i++)
    {
        int j = sym_choose("which", k), n = (int)raws[j].size() / rec;
        ss.seekg(at[j]);
        Bytes got = form ? Decompressor::DecompressBytes(ss, h, n) : Decompressor::DecompressBytes(ss, (int8_t)fmt, (uint16_t)eb, n);
        ASSERT(got.size() == raws[j].size() && sameBytes(got, raws[j]), "each chunk comes back whatever was read before it");
        ASSERT(ss.good(), "the stream can be used again");
    }
    REACH("done");
}
extern "C" void C27_many(void)
{
    int n = (int)sym_param("N", 65537), how = (int)sym_param("how", 0);
    Bytes raw = manyRaw(30, n), was = raw, c;
    las::LasHeader h = las::LasHeader(6, 30, Vector3(1, 1, 1), Vector3(0, 0, 0), false);
    std::stringstream ss;
    if (how == 0) ASSERT(Compressor::CompressBytes(ss, 6, 0, raw) == n, "the number of records is reported");
    else c = how == 1 ? Compressor::CompressBytes(raw, h) : Compressor::CompressBytes(raw, (int8_t)6, (uint16_t)0);
    Bytes got = how == 0 ? Decompressor::DecompressBytes(ss, h, n) : how == 1 ? Decompressor::DecompressBytes(c, 6, 0, n) : Decompressor::DecompressBytes(c, h, n);
    ASSERT(got.size() == was.size() && sameBytes(got, was), "all the records come back in order");
    REACH("done");
}
