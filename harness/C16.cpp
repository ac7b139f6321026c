// C16: a closed file has the structure LAS/LAZ/COPC requires
#include "layout.h"
#include "many.h"
static std::string wkt(int n)
{
    std::string s(n, 'w');
    if (n) sym_bytes(&s[0], n, "wkt");
    return s;
}
struct Hier
{
    std::vector<VoxelKey> nodes, pages;
    std::vector<uint64_t> used;
    int depth = 0;
    void page(Layout &L, uint64_t off, uint64_t size, VoxelKey key)
    {
        int at = 0;
        for (auto &e : L.evlrs) at += e.user == "copc" && e.id == 1000 && e.body == off && e.len == size;
        ASSERT(at == 1, "a page entry points at a hierarchy EVLR of that size");
        ASSERT(size % 32 == 0, "pages hold whole entries");
        pages.push_back(key);
        if (++depth > 20) { ASSERT(false, "page references do not form a cycle"); return; }
        for (uint64_t i = 0; i < size / 32; i++)
        {
            uint64_t o = off + 32 * i;
            VoxelKey k((int)L.u(o, 4), (int)L.u(o + 4, 4), (int)L.u(o + 8, 4), (int)L.u(o + 12, 4));
            uint64_t eo = L.u(o + 16, 8), es = L.u(o + 24, 4), ec = L.u(o + 28, 4);
            if (ec == 0xffffffffu) page(L, eo, es, k);
            else
            {
                nodes.push_back(k);
                int c = L.chunkAt(eo);
                ASSERT(c >= 0, "a node entry points at a chunk");
                if (c >= 0) ASSERT(L.chunks[c].second == es && L.counts[c] == ec, "with that chunk's size and point count");
                used.push_back(eo);
            }
        }
        depth--;
    }
};
extern "C" void C16_copc(void)
{
    int fmt = 6 + sym_choose("fmt", (int)sym_param("F", 2)), eb = sym_choose("eb", (int)sym_param("EB", 2)), wl = sym_choose("wkt", (int)sym_param("W", 2)), N = (int)sym_param("N", 2);
    bool ext = sym_choose("ext", 2);
    std::string w = wkt(wl);
    CopcConfigWriter cfg(fmt, Vector3(1, 1, 1), Vector3(0, 0, 0), w, mkEb(eb), ext);
    int rec = baseSize(fmt) + eb;
    std::stringstream ss;
    std::vector<VoxelKey> keys, pgs;
    std::vector<Node> added;
    int n = sym_choose("nodes", N + 1);
    {
        Writer wr(ss, cfg);
        for (int i = 0; i < n; i++)
        {
            static const int K[4][4] = {{0, 0, 0, 0}, {1, 1, 0, 1}, {2, 3, 1, 2}, {3, 7, 2, 5}};
            int ki = sym_choose("key", 3) + (i ? 1 : 0); // ancestors of one leaf
            VoxelKey k(K[ki][0], K[ki][1], K[ki][2], K[ki][3]);
            bool dup = false;
            for (auto &o : keys) dup = dup || keyEq(o, k);
            if (dup) continue;
            VoxelKey pk = anc(k, sym_choose("page", k.d + 1));
            added.push_back(wr.AddNode(k, mkRaw(rec, 1 + sym_choose("pts", 2)), pk));
            keys.push_back(k);
            pgs.push_back(pk);
        }
        wr.Close();
    }
    Layout L;
    L.parse(ss.str());
    ASSERT(L.vlrs.size() == (size_t)(3 + (eb > 0) + ext), "number of VLRs");
    ASSERT(L.vlrs[0].user == "copc" && L.vlrs[0].id == 1 && L.vlrs[0].len == 160, "the info record comes first");
    ASSERT(L.count(L.vlrs, "copc", 10000) == 1 && L.count(L.vlrs, "rock_robotic", 10001) == (int)ext && L.count(L.vlrs, "LASF_Spec", 4) == (eb > 0) && L.count(L.vlrs, "laszip encoded", 22204) == 1, "one of each VLR");
    for (auto &v : L.vlrs)
    {
        if (v.user == "LASF_Spec") ASSERT(v.len == 192ull * eb, "extra bytes VLR size");
        if (v.user == "copc" && v.id == 10000) ASSERT(v.len == 16ull * ((fmt == 6 ? 14 : fmt == 7 ? 17 : 18) + eb), "extents VLR size");
    }
    ASSERT(L.u(104, 1) == (uint64_t)(0x80 | fmt) && L.u(105, 2) == (uint64_t)rec, "format and record length");
    ASSERT(L.chunks.size() == added.size(), "one chunk per node");
    for (size_t i = 0; i < added.size(); i++)
        ASSERT(all(L.chunks[i].first == added[i].offset, L.chunks[i].second == (uint64_t)added[i].byte_size, L.counts[i] == (uint64_t)added[i].point_count), "chunks in writing order");
    uint64_t io = L.vlrs[0].body;
    Hier h;
    h.page(L, L.u(io + 40, 8), L.u(io + 48, 8), VoxelKey(0, 0, 0, 0));
    ASSERT(sameKeys(h.nodes, keys), "the hierarchy holds every node once");
    std::vector<VoxelKey> wp{VoxelKey(0, 0, 0, 0)};
    for (auto &p : pgs)
    {
        bool seen = false;
        for (auto &q : wp) seen = seen || keyEq(p, q);
        if (!seen) wp.push_back(p);
    }
    ASSERT(sameKeys(h.pages, wp), "the hierarchy holds every page once");
    ASSERT(L.count(L.evlrs, "copc", 1000) == (int)wp.size() && L.count(L.evlrs, "LASF_Projection", 2112) == (wl > 0) && L.evlrs.size() == wp.size() + (wl > 0), "EVLRs are the pages and the WKT");
    for (auto &v : L.evlrs)
        if (v.id == 2112) ASSERT(sameBytes(L.s.substr(v.body, v.len), w), "WKT");
    OBS("size", L.s.size());
    REACH("done");
}
extern "C" void C16_laz(void)
{
    int fmt = 6 + sym_choose("fmt", 3), eb = sym_choose("eb", 3), wl = sym_choose("wkt", 3), N = (int)sym_param("N", 3);
    std::string w = wkt(wl);
    las::LazConfigWriter cfg(fmt, Vector3(1, 1, 1), Vector3(0, 0, 0), w, mkEb(eb));
    int rec = baseSize(fmt) + eb;
    std::stringstream ss;
    std::vector<int> cnt;
    std::vector<uint64_t> sizes;
    {
        LazWriter wr(ss, cfg);
        int n = sym_choose("chunks", N + 1);
        for (int i = 0; i < n; i++)
        {
            int c = sym_choose("pts", 3);
            uint64_t before = ss.str().size();
            if (sym_choose("how", 2) || c == 0)
            {
                las::Points p(fmt, (uint16_t)eb);
                for (int j = 0; j < c; j++) p.AddPoint(p.CreatePoint());
                wr.WritePoints(p);
            }
            else
                wr.WritePointsCompressed(mkRaw(5, c, "comp"), c);
            if (c) { cnt.push_back(c); sizes.push_back(ss.str().size() - before); }
        }
        ASSERT(wr.ChunkCount() == cnt.size(), "chunk count");
        wr.Close();
    }
    Layout L;
    L.parse(ss.str());
    ASSERT(L.vlrs.size() == (size_t)(1 + (eb > 0)), "number of VLRs");
    ASSERT(L.count(L.vlrs, "LASF_Spec", 4) == (eb > 0) && L.count(L.vlrs, "laszip encoded", 22204) == 1, "one of each VLR");
    ASSERT(L.u(104, 1) == (uint64_t)(0x80 | fmt) && L.u(105, 2) == (uint64_t)rec, "format and record length");
    ASSERT(L.counts.size() == cnt.size(), "one chunk per write");
    int ok = L.counts.size() == cnt.size();
    for (size_t i = 0; ok && i < cnt.size(); i++) ok &= L.counts[i] == (uint64_t)cnt[i] && L.chunks[i].second == sizes[i];
    ASSERT(ok, "each chunk's count and size in order");
    ASSERT(L.evlrs.size() == (size_t)(wl > 0) && L.count(L.evlrs, "LASF_Projection", 2112) == (wl > 0), "the WKT is the only EVLR");
    OBS("size", L.s.size());
    REACH("done");
}
extern "C" void C16_many(void)
{
    int shape = (int)sym_param("shape", 0), n = (int)sym_param("N", 300);
    CopcConfigWriter cfg(6, Vector3(1, 1, 1), Vector3(0, 0, 0), "wkt");
    std::stringstream ss;
    Wide w;
    {
        Writer wr(ss, cfg);
        w.write(wr, shape, n);
        wr.Close();
    }
    Layout L;
    L.parse(ss.str());
    ASSERT(L.chunks.size() == (size_t)n && L.count(L.evlrs, "copc", 1000) == (int)w.pages.size() && L.evlrs.size() == w.pages.size() + 1, "one chunk per node, one EVLR per page, and the WKT");
    int ok = 1;
    for (int i = 0; i < n; i++) ok &= (int)all(L.chunks[i].first == w.nodes[i].offset, L.chunks[i].second == (uint64_t)w.nodes[i].byte_size, L.counts[i] == (uint64_t)w.nodes[i].point_count);
    ASSERT(ok, "chunks in writing order");
    // every entry of every page
    uint64_t io = L.vlrs[0].body;
    std::vector<std::pair<uint64_t, uint64_t>> todo{{L.u(io + 40, 8), L.u(io + 48, 8)}};
    std::vector<char> seen(n);
    size_t pages = 0, found = 0;
    while (!todo.empty() && pages <= w.pages.size())
    {
        auto p = todo.back();
        todo.pop_back();
        pages++;
        int at = 0;
        for (auto &e : L.evlrs) at += e.id == 1000 && e.body == p.first && e.len == p.second;
        ASSERT(at == 1, "a page entry points at a hierarchy EVLR of that size");
        for (uint64_t o = p.first; o < p.first + p.second; o += 32)
        {
            uint64_t eo = L.u(o + 16, 8), es = L.u(o + 24, 4), ec = L.u(o + 28, 4);
            if (ec == 0xffffffffu) { todo.push_back({eo, es}); continue; }
            int lo = 0, hi = n; // chunks ascend
            while (lo + 1 < hi) (w.nodes[(lo + hi) / 2].offset <= eo ? lo : hi) = (lo + hi) / 2;
            ok &= (int)all(w.nodes[lo].offset == eo, !seen[lo], (uint64_t)w.nodes[lo].byte_size == es, (uint64_t)w.nodes[lo].point_count == ec, L.u(o, 4) == (uint64_t)w.nodes[lo].key.d, L.u(o + 4, 4) == (uint64_t)w.nodes[lo].key.x,
                           L.u(o + 8, 4) == (uint64_t)w.nodes[lo].key.y, L.u(o + 12, 4) == (uint64_t)w.nodes[lo].key.z);
            seen[lo] = 1;
            found++;
        }
    }
    ASSERT(pages == w.pages.size() && found == (size_t)n && ok, "every page once, every node once with its chunk");
    REACH("done");
}
