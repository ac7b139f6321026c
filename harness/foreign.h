// COPC files as other software may write them, put together from the LAS 1.4 / LAZ / COPC 1.0 layouts alone
#pragma once
#include "ans.h"
#include <lazperf/lazperf.hpp>
#include <algorithm>
struct Rec { std::string user; int id; std::string body; bool ext; };
struct FNode { VoxelKey key; int page, count; Bytes raw; uint64_t off; uint32_t size; };
struct FPage { VoxelKey key; int up; uint64_t off; uint32_t size; }; // up: the page that refers to it
struct Foreign
{
    int fmt = 6, eb = 0;
    uint16_t fsid = 0, day = 0, year = 0, enc = 0x10;
    uint32_t chunkSize = (uint32_t)-1;
    double num[12], info[7];        // scale, offset, max x, min x, ... ; centre, half-size, spacing, GPS time
    std::vector<Rec> recs;          // all but the info and hierarchy records
    int infoLen = 160, hierAt = 0;  // number of EVLRs before the hierarchy
    std::vector<FNode> nodes;       // in hierarchy order
    std::vector<int> chunkOrder;    // order in the file
    std::vector<FPage> pages;       // page 0 is the root
    std::vector<int> pageOrder;
    bool refsFirst = false, rev = false;
    int gapVlr = 0, gapChunk = 0, gapTable = 0, gapPage = 0, gapEvlr = 0;
    std::string s;
    uint64_t total = 0;
    std::vector<size_t> offs;       // where absolute offsets are (8 bytes)
    struct Len { size_t at; int n; size_t from; };
    std::vector<Len> lens;          // where lengths are, and where what they measure starts
    std::vector<size_t> gapAt;      // the middles of the gaps
    Foreign()
    {
        for (int i = 0; i < 12; i++) num[i] = i < 3 ? 1 : 0;
        for (double &d : info) d = 0;
    }
    int rec() const { return baseSize(fmt) + eb; }
    void le(uint64_t v, int n) { s.append((const char *)&v, n); }
    void at(uint64_t o, int n, uint64_t v) { memcpy(&s[o], &v, n); }
    void gap(int n) // bytes that belong to nothing
    {
        if (!n) return;
        size_t o = s.size();
        s.resize(o + n);
        sym_bytes(&s[o], n, "gap");
        gapAt.push_back(o + n / 2);
    }
    void head(const std::string &user, int id, uint64_t len, bool ext)
    {
        size_t o = s.size();
        s.resize(o + (ext ? 60 : 54), 0);
        at(o, 2, symU16("res"));
        memcpy(&s[o + 2], user.data(), user.size());
        at(o + 18, 2, id);
        at(o + 20, ext ? 8 : 2, len);
        memcpy(&s[o + (ext ? 28 : 22)], "of other software", 17);
    }
    static std::string lazBody(int fmt, int eb, uint32_t chunk)
    {
        std::stringstream ss;
        lazperf::laz_vlr(fmt, eb, chunk).write(ss);
        return ss.str();
    }
    static std::string pack(int fmt, int eb, const Bytes &raw, int n)
    {
        std::string out;
        auto c = lazperf::build_las_compressor([&](const unsigned char *p, size_t k) { out.append((const char *)p, k); }, fmt, eb);
        for (int i = 0; i < n; i++) c->compress(raw.data() + i * (baseSize(fmt) + eb));
        c->done();
        return out;
    }
    void page(int p)
    {
        pages[p].off = s.size();
        for (int pass = 0; pass < 2; pass++)
            if ((pass == 0) == refsFirst)
            {
                for (size_t i = 1; i < pages.size(); i++)
                    if (pages[i].up == p)
                    { // filled in later: the page may come later
                        for (int32_t v : {pages[i].key.d, pages[i].key.x, pages[i].key.y, pages[i].key.z}) le((uint32_t)v, 4);
                        refAt.push_back({s.size(), (int)i});
                        offs.push_back(s.size());
                        le(0, 8);
                        le(0, 4);
                        le(0xffffffff, 4);
                    }
            }
            else
                for (size_t j = 0; j < nodes.size(); j++)
                {
                    FNode &n = nodes[rev ? nodes.size() - 1 - j : j];
                    if (n.page != p) continue;
                    for (int32_t v : {n.key.d, n.key.x, n.key.y, n.key.z}) le((uint32_t)v, 4);
                    offs.push_back(s.size());
                    le(n.off, 8);
                    le(n.size, 4);
                    le(n.count, 4);
                }
        pages[p].size = (uint32_t)(s.size() - pages[p].off);
    }
    std::vector<std::pair<size_t, int>> refAt;
    void build()
    {
        s.assign(375, 0);
        memcpy(&s[0], "LASF", 4);
        at(4, 2, fsid);
        at(6, 2, enc);
        s[24] = 1;
        s[25] = 4;
        at(90, 2, day);
        at(92, 2, year);
        at(94, 2, 375);
        s[104] = (char)(0x80 | fmt);
        at(105, 2, rec());
        for (int i = 0; i < 12; i++) memcpy(&s[131 + 8 * i], &num[i], 8);
        // VLRs: the info record first
        int nv = 1, ne = 1;
        head("copc", 1, infoLen, false);
        size_t ib = s.size();
        s.resize(ib + infoLen, 0);
        for (auto &r : recs)
            if (!r.ext)
            {
                head(r.user, r.id, r.body.size(), false);
                s += r.body;
                nv++;
            }
            else
                ne++;
        gap(gapVlr);
        at(96, 4, s.size());
        at(100, 4, nv);
        // chunks
        size_t ptr = s.size();
        le(0, 8);
        std::string table;
        std::vector<uint64_t> chunkFrom;
        uint64_t prev = s.size();
        for (int i : chunkOrder)
        {
            FNode &n = nodes[i];
            std::string c = pack(fmt, eb, n.raw, n.count);
            n.off = s.size();
            n.size = (uint32_t)c.size();
            s += c;
            gap(gapChunk);
            uint32_t v[2] = {(uint32_t)n.count, (uint32_t)(s.size() - prev)};
            chunkFrom.push_back(prev);
            table.append((const char *)v, 8);
            prev = s.size();
            total += n.count;
        }
        gap(gapTable);
        at(ptr, 8, s.size());
        le(0, 4);
        le(chunkOrder.size(), 4);
        for (size_t i = 0; i < chunkFrom.size(); i++) lens.push_back({s.size() + 8 * i + 4, 4, (size_t)chunkFrom[i]});
        s += table;
        gap(gapEvlr);
        offs.push_back(235);
        offs.push_back(ptr);
        at(235, 8, s.size());
        at(243, 4, ne);
        at(247, 8, total);
        at(107, 4, total);
        int k = 0;
        for (auto &r : recs)
        {
            if (!r.ext) continue;
            if (k++ == hierAt) hierarchy(ib);
            head(r.user, r.id, r.body.size(), true);
            lens.push_back({s.size() - 40, 8, s.size()});
            if (r.user == "other") gapAt.push_back(s.size() + r.body.size() / 2);
            s += r.body;
        }
        if (hierAt >= k) hierarchy(ib);
    }
    void hierarchy(size_t ib)
    {
        size_t h = s.size();
        head("copc", 1000, 0, true);
        for (int p : pageOrder)
        {
            gap(gapPage);
            page(p);
        }
        gap(gapPage);
        at(h + 20, 8, s.size() - h - 60);
        lens.push_back({h + 20, 8, h + 60});
        offs.push_back(ib + 40);
        for (auto &r : refAt)
        {
            at(r.first, 8, pages[r.second].off);
            at(r.first + 8, 4, pages[r.second].size);
        }
        for (int i = 0; i < 5; i++) memcpy(&s[ib + 8 * i], &info[i], 8);
        at(ib + 40, 8, pages[0].off);
        at(ib + 48, 8, pages[0].size);
        for (int i = 0; i < 2; i++) memcpy(&s[ib + 56 + 8 * i], &info[5 + i], 8);
    }
    Node node(int i) const
    {
        Entry e(nodes[i].key, nodes[i].off, nodes[i].size, nodes[i].count);
        return Node(e, pages[nodes[i].page].key);
    }
    int find(const VoxelKey &k) const
    {
        for (size_t i = 0; i < nodes.size(); i++)
            if (keyEq(nodes[i].key, k)) return (int)i;
        return -1;
    }
};
// page structures over a branch of keys and a sibling
static void tree(Foreign &f, int shape, int empty, VoxelKey leaf)
{
    VoxelKey k1 = anc(leaf, 1), k2 = anc(leaf, 2), other = k2;
    other.x ^= 1;
    f.pages.push_back({VoxelKey(0, 0, 0, 0), -1, 0, 0});
    int p1 = 0, p2 = 0, p3 = 0;
    auto add = [&](VoxelKey k, int up) { f.pages.push_back({k, up, 0, 0}); return (int)f.pages.size() - 1; };
    if (shape == 1) p1 = p2 = p3 = add(k1, 0);                       // one page below the root
    if (shape == 2) { p1 = add(k1, 0); p2 = add(k2, p1); p3 = p2; }  // a chain
    if (shape == 3) p2 = p3 = add(k2, 0);                            // skipping a level
    if (shape == 4) { p1 = 0; p2 = add(k1, 0); p3 = add(leaf, p2); } // a page without its own node
    if (shape == 5) { p2 = add(k2, 0); p3 = add(leaf, 0); }          // an inner page's page kept by the root
    if (shape == 6) { p1 = add(k1, 0); p2 = add(k2, p1); p3 = add(leaf, p2); }
    VoxelKey ks[] = {VoxelKey(0, 0, 0, 0), k1, k2, leaf, other};
    int ps[] = {0, p1, p2, p3, shape == 1 ? p1 : shape == 2 || shape == 6 ? p1 : shape == 4 ? p2 : 0};
    for (int i = 0; i < 5; i++)
    {
        int c = i == empty ? 0 : 1 + i % 2;
        f.nodes.push_back({ks[i], ps[i], c, mkRaw(f.rec(), c), 0, 0});
        if (c) f.chunkOrder.push_back(i);
    }
    for (size_t i = 0; i < f.pages.size(); i++) f.pageOrder.push_back((int)i);
}
static bool eqF(double a, double b) { return (bitsOf(a) == bitsOf(b)) | ((a != a) & (b != b)); }
static void tree(Foreign &f, int shape, int empty) { tree(f, shape, empty, symKey(3)); }
