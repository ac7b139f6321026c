// Stand-in for lazperf 3.0.0 <lazperf/lazperf.hpp>.  The entropy coder is replaced by an invertible codec with the
// same framing obligations: a chunk is self-delimiting, is only complete after done(), and can only be read back
// with the same point format and extra-byte count; asking for more points than were stored yields garbage.
#pragma once
#include "filestream.hpp"
#include "vlr.hpp"
namespace lazperf
{
namespace vp
{
inline int baseSize(int format) { return format == 6 ? 30 : format == 7 ? 36 : format == 8 ? 38 : 0; }
} // namespace vp
struct las_compressor
{
    typedef std::shared_ptr<las_compressor> ptr;
    virtual const char *compress(const char *in) = 0;
    virtual void done() = 0;
    virtual ~las_compressor() {}
};
struct las_decompressor
{
    typedef std::shared_ptr<las_decompressor> ptr;
    virtual char *decompress(char *out) = 0;
    virtual ~las_decompressor() {}
};
namespace vp
{
static const uint32_t plain = 1000; // records after these are only marked in their first byte (for speed)
struct compressor_impl : public las_compressor
{
    OutputCb cb;
    int format, eb, size;
    uint32_t count = 0;
    std::vector<unsigned char> data;
    compressor_impl(OutputCb c, int f, int e) : cb(c), format(f), eb(e), size(baseSize(f) + e) {}
    const char *compress(const char *in) override
    {
        if (count < plain)
            for (int i = 0; i < size; i++) data.push_back((unsigned char)(in[i] ^ 0x5a));
        else
        {
            data.insert(data.end(), in, in + size);
            *(data.end() - size) ^= 0x5a;
        }
        count++;
        return in + size;
    }
    void done() override
    {
        unsigned char h[8] = {(unsigned char)format, 0xC7, (unsigned char)eb, (unsigned char)(eb >> 8),
                              (unsigned char)count, (unsigned char)(count >> 8), (unsigned char)(count >> 16), (unsigned char)(count >> 24)};
        cb(h, 8);
        if (!data.empty()) cb(data.data(), data.size());
    }
};
struct decompressor_impl : public las_decompressor
{
    InputCb cb;
    int format, eb, size;
    uint32_t count = 0, n = 0;
    bool first = true, bad = false;
    decompressor_impl(InputCb c, int f, int e) : cb(c), format(f), eb(e), size(baseSize(f) + e) {}
    char *decompress(char *out) override
    {
        if (first)
        {
            unsigned char h[8];
            cb(h, 8);
            bad = h[0] != (unsigned char)format || h[1] != 0xC7 || h[2] != (unsigned char)eb || h[3] != (unsigned char)(eb >> 8);
            count = h[4] | h[5] << 8 | h[6] << 16 | (uint32_t)h[7] << 24;
            first = false;
        }
        if (bad || n >= count)
            for (int i = 0; i < size; i++) out[i] = (char)0xEE;
        else
        {
            cb(reinterpret_cast<unsigned char *>(out), size);
            for (int i = 0; i < (n < plain ? size : 1); i++) out[i] ^= 0x5a;
        }
        n++;
        return out + size;
    }
};
} // namespace vp
inline las_compressor::ptr build_las_compressor(OutputCb cb, int format, int ebCount = 0)
{
    if (!vp::baseSize(format)) return las_compressor::ptr();
    return las_compressor::ptr(new vp::compressor_impl(cb, format, ebCount));
}
inline las_decompressor::ptr build_las_decompressor(InputCb cb, int format, int ebCount = 0)
{
    if (!vp::baseSize(format)) return las_decompressor::ptr();
    return las_decompressor::ptr(new vp::decompressor_impl(cb, format, ebCount));
}
struct chunk
{
    uint64_t count;
    uint64_t offset;
};
inline void compress_chunk_table(OutputCb cb, const std::vector<chunk> &chunks, bool variable)
{
    for (const chunk &c : chunks)
    {
        uint32_t v[2] = {(uint32_t)c.count, (uint32_t)c.offset};
        unsigned char b[8];
        std::memcpy(b, v, 8);
        if (variable) cb(b, 4);
        cb(b + 4, 4);
    }
}
inline std::vector<chunk> decompress_chunk_table(InputCb cb, size_t numChunks, bool variable)
{
    std::vector<chunk> out;
    for (size_t i = 0; i < numChunks; i++)
    {
        uint32_t c = 0, o;
        if (variable) cb(reinterpret_cast<unsigned char *>(&c), 4);
        cb(reinterpret_cast<unsigned char *>(&o), 4);
        out.push_back(chunk{c, o});
    }
    return out;
}
} // namespace lazperf
