// a storage medium under a stream: records the writes, fails on demand
#pragma once
#include "io.h"
#include <streambuf>
struct Op
{
    size_t pos;
    std::string data;
};
struct Med : std::streambuf
{
    std::string data;
    size_t pos = 0;
    std::vector<Op> log;
    bool lastPut = false; // the last write was of a single byte
    // writes: the op with this index and all later ones fail, after a part of it
    int failWrite = -1, part = 0;
    // reads: the op with this index fails
    int failRead = -1, reads = 0;
    bool once = false;
    bool failed = false;
    Med() {}
    explicit Med(const std::string &d) : data(d) {}
    void put(const char *s, size_t n)
    {
        if (pos + n > data.size()) data.resize(pos + n, 0);
        if (n) memcpy(&data[pos], s, n);
        pos += n;
    }
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        if (failed) return 0;
        lastPut = false;
        if ((int)log.size() == failWrite)
        {
            failed = true;
            std::streamsize k = part && n > 1 ? part == 1 ? 1 : n - 1 : 0;
            put(s, k);
            return k;
        }
        log.push_back({pos, std::string(s, n)});
        put(s, n);
        return n;
    }
    int overflow(int c) override
    {
        if (failed) return EOF;
        char ch = (char)c;
        if (lastPut && log.back().pos + log.back().data.size() == pos)
        {
            log.back().data.push_back(ch);
            put(&ch, 1);
            return c;
        }
        if (xsputn(&ch, 1) != 1) return EOF;
        lastPut = true;
        return (unsigned char)ch;
    }
    std::streamsize xsgetn(char *s, std::streamsize n) override
    {
        bool now = reads++ == failRead;
        if (now) failed = true;
        if (failed)
        {
            if (once) failed = false;
            if (!now || !part || n < 2 || pos + n > data.size()) return 0;
            n /= 2; // a short read
        }
        if (pos >= data.size()) return 0;
        size_t k = data.size() - pos;
        if ((std::streamsize)k > n) k = n;
        memcpy(s, &data[pos], k);
        pos += k;
        return k;
    }
    int underflow() override { return pos < data.size() ? (unsigned char)data[pos] : EOF; }
    int uflow() override
    {
        char c;
        return xsgetn(&c, 1) == 1 ? (unsigned char)c : EOF;
    }
    std::streampos seekoff(std::streamoff o, std::ios_base::seekdir d, std::ios_base::openmode) override
    {
        std::streamoff b = (d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? (std::streamoff)pos : (std::streamoff)data.size()) + o;
        if (b < 0) return std::streampos(std::streamoff(-1));
        pos = (size_t)b;
        return std::streampos(b);
    }
    std::streampos seekpos(std::streampos p, std::ios_base::openmode m) override { return seekoff(std::streamoff(p), std::ios_base::beg, m); }
};
