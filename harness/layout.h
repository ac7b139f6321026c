// independent parse of a finished LAZ/COPC file (little-endian, LAS 1.4 / COPC 1.0); asserts the structure on the way
#pragma once
#include "io.h"
struct Vl { uint64_t at, body, len; std::string user; uint32_t id; };
struct Layout
{
    std::string s;
    uint64_t pointOff = 0, vlrCount = 0, evlrOff = 0, evlrCount = 0, pointCount = 0, tableOff = 0;
    std::vector<Vl> vlrs, evlrs;
    std::vector<std::pair<uint64_t, uint64_t>> chunks; // offset, size
    std::vector<uint64_t> counts;
    uint64_t u(uint64_t o, int n)
    {
        if (o + n > s.size()) { sym_assert_(0, "field lies inside the file"); return 0; }
        return rdLE(s.data(), (int)o, n);
    }
    std::string str(uint64_t o, int n)
    {
        std::string r;
        for (int i = 0; i < n && s[o + i]; i++) r += s[o + i];
        return r;
    }
    Vl hdr(uint64_t o, bool ext)
    {
        Vl v;
        v.at = o;
        v.user = str(o + 2, 16);
        v.id = (uint32_t)u(o + 18, 2);
        v.len = u(o + 20, ext ? 8 : 2);
        v.body = o + (ext ? 60 : 54);
        return v;
    }
    void parse(const std::string &file)
    {
        s = file;
        ASSERT(s.size() > 375 && s.substr(0, 4) == "LASF" && u(94, 2) == 375, "LAS header");
        pointOff = u(96, 4); vlrCount = u(100, 4); evlrOff = u(235, 8); evlrCount = u(243, 4); pointCount = u(247, 8);
        uint64_t o = 375;
        for (uint64_t i = 0; i < vlrCount; i++)
        {
            vlrs.push_back(hdr(o, false));
            o = vlrs.back().body + vlrs.back().len;
        }
        ASSERT(o == pointOff, "the VLRs end exactly at the point data");
        tableOff = u(pointOff, 8);
        ASSERT(u(tableOff, 4) == 0, "chunk table version");
        uint64_t n = u(tableOff + 4, 4), c = pointOff + 8, tot = 0;
        for (uint64_t i = 0; i < n; i++)
        {
            uint64_t cnt = u(tableOff + 8 + 8 * i, 4), sz = u(tableOff + 12 + 8 * i, 4);
            chunks.push_back({c, sz});
            counts.push_back(cnt);
            c += sz;
            tot += cnt;
        }
        ASSERT(c == tableOff, "the chunks fill the space up to the chunk table in order");
        ASSERT(tot == pointCount, "the header's point count is the total of the chunks");
        uint64_t end = tableOff + 8 + 8 * n;
        ASSERT(end == evlrOff, "the EVLRs follow the chunk table");
        o = evlrOff;
        for (uint64_t i = 0; i < evlrCount; i++)
        {
            evlrs.push_back(hdr(o, true));
            o = evlrs.back().body + evlrs.back().len;
        }
        ASSERT(o == s.size(), "the EVLRs end the file");
    }
    int chunkAt(uint64_t o)
    {
        for (size_t i = 0; i < chunks.size(); i++)
            if (chunks[i].first == o) return (int)i;
        return -1;
    }
    int count(const std::vector<Vl> &v, const char *user, uint32_t id)
    {
        int n = 0;
        for (auto &x : v) n += x.user == user && x.id == id;
        return n;
    }
};
