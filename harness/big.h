// a medium of symbolic size: chunks are followed by bytes that are never looked at
#pragma once
#include "io.h"
#include <streambuf>
struct Seg
{
    uint64_t at;
    std::string data;
};
struct Big : std::streambuf
{
    std::vector<Seg> segs;
    size_t cur = 0, off = 0; // segment and offset in it
    uint64_t gap = 0;        // added after the next write
    bool pending = false;
    Big() { segs.push_back({0, {}}); }
    uint64_t pos() const { return segs[cur].at + off; }
    void put(const char *s, size_t n)
    {
        std::string &d = segs[cur].data;
        if (off + n > d.size()) d.resize(off + n, 0);
        if (n) memcpy(&d[off], s, n);
        off += n;
    }
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        put(s, n);
        if (pending)
        {
            pending = false;
            segs.push_back({pos() + gap, {}});
            cur = segs.size() - 1;
            off = 0;
        }
        return n;
    }
    int overflow(int c) override
    {
        char ch = (char)c;
        xsputn(&ch, 1);
        return (unsigned char)ch;
    }
    std::streamsize xsgetn(char *s, std::streamsize n) override
    {
        const std::string &d = segs[cur].data;
        size_t k = off < d.size() ? d.size() - off : 0;
        if ((std::streamsize)k > n) k = n;
        if (k) memcpy(s, &d[off], k);
        off += k;
        return k;
    }
    int underflow() override { return off < segs[cur].data.size() ? (unsigned char)segs[cur].data[off] : EOF; }
    int uflow() override
    {
        char c;
        return xsgetn(&c, 1) == 1 ? (unsigned char)c : EOF;
    }
    std::streampos seekoff(std::streamoff o, std::ios_base::seekdir d, std::ios_base::openmode) override
    {
        if (d == std::ios_base::cur && o == 0) return std::streampos((std::streamoff)pos());
        if (d == std::ios_base::end)
        {
            cur = segs.size() - 1;
            off = segs[cur].data.size();
            return std::streampos((std::streamoff)pos());
        }
        uint64_t p = d == std::ios_base::cur ? pos() + o : (uint64_t)o;
        for (size_t i = segs.size(); i-- > 0;)
            if (p >= segs[i].at)
            {
                uint64_t rel = p - segs[i].at;
                if (rel <= segs[i].data.size())
                {
                    cur = i;
                    off = (size_t)sym_concretize(rel); // a place that is looked at
                    return std::streampos((std::streamoff)p);
                }
                return std::streampos(std::streamoff(-1));
            }
        return std::streampos(std::streamoff(-1));
    }
    std::streampos seekpos(std::streampos p, std::ios_base::openmode m) override { return seekoff(std::streamoff(p), std::ios_base::beg, m); }
    uint64_t u(size_t seg, size_t at, int n) const { return at + n <= segs[seg].data.size() ? rdLE(segs[seg].data.data(), (int)at, n) : ~0ull; }
};
