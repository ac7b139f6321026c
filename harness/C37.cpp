// C37: files beyond 4 GiB and more than 2^32 points
#include "big.h"
#include "copc-lib/laz/compressor.hpp"
static std::vector<uint64_t> gaps(int n)
{
    std::vector<uint64_t> g;
    for (int i = 0; i < n; i++) g.push_back(symU64("gap"));
    return g;
}
static const int K[4][4] = {{1, 1, 0, 1}, {0, 0, 0, 0}, {2, 3, 1, 2}, {3, 6, 2, 4}};
// what every LAZ file has, seen by looking at its bytes
static void frame(const Big &m, int n, const std::vector<uint64_t> &at, const std::vector<uint64_t> &size, uint64_t points)
{
    const std::string &h = m.segs[0].data;
    size_t last = m.segs.size() - 1;
    uint64_t po = m.u(0, 96, 4);
    ASSERT((int)last == n, "no other writes");
    ASSERT(m.u(0, po, 8) == m.segs[last].at, "the chunk table is where its pointer says");
    uint64_t table = 8 + 8 * (uint64_t)n;
    ASSERT(m.u(0, 235, 8) == m.segs[last].at + table, "the EVLRs are where the header says");
    ASSERT(m.u(0, 247, 8) == points, "the number of points");
    ASSERT(m.u(last, 0, 4) == 0 && m.u(last, 4, 4) == (uint64_t)n, "number of chunks");
    int ok = 1;
    uint64_t p = po + 8;
    for (int i = 0; i < n; i++)
    {
        ok &= at[i] == p;
        ok &= m.u(last, 12 + 8 * i, 4) == size[i];
        p += size[i];
    }
    ASSERT(ok, "the chunks follow each other and the table has their sizes");
    (void)h;
}
extern "C" void C37_offsets(void)
{
    int n = (int)sym_param("N", 3), fmt = 6 + (int)sym_param("F", 0), eb = (int)sym_param("EB", 1), rec = baseSize(fmt) + eb;
    auto g = gaps(n);
    Big m;
    std::iostream io(&m);
    std::vector<uint64_t> at, size;
    std::vector<Bytes> d;
    VoxelKey root(0, 0, 0, 0);
    int pages = sym_choose("pages", 2);
    bool fits = true;
    {
        Writer w(io, CopcConfigWriter(fmt, Vector3(1, 1, 1), Vector3(0, 0, 0), "WKT", mkEb(eb), sym_param("X", 0)));
        for (int i = 0; i < n; i++)
        {
            d.push_back(mkRaw(rec, 1));
            Bytes c = laz::Compressor::CompressBytes(d[i], (int8_t)fmt, (uint16_t)eb);
            VoxelKey k(K[i][0], K[i][1], K[i][2], K[i][3]);
            at.push_back(m.pos());
            size.push_back(c.size() + g[i]);
            ASSUME(g[i] < 1ull << 40);
            bool ok = size[i] < 1ull << 31;
            m.gap = g[i];
            m.pending = true;
            Node e;
            bool t = throws([&] { e = w.AddNodeCompressed(k, c, 1, pages ? k : root); });
            ASSERT(t == !ok, "chunks of 2 GiB and more are rejected, and no others");
            if (!ok)
            {
                fits = false;
                break;
            }
            ASSERT(e.offset == at[i] && (uint64_t)e.byte_size == size[i] && e.point_count == 1, "the node is where it was put");
        }
        if (fits) w.Close();
    }
    if (!fits)
    {
        REACH("rejected");
        return;
    }
    frame(m, n, at, size, n);
    io.clear();
    Reader r(&io);
    ASSERT((int)r.GetAllNodes().size() == n && r.CopcConfig().Wkt() == "WKT", "every node");
    uint64_t root_at = r.CopcConfig().CopcInfo().root_hier_offset;
    size_t last = m.segs.size() - 1;
    ASSERT(root_at >= m.segs[last].at, "the hierarchy is at the end");
    for (int i = 0; i < n; i++)
    {
        VoxelKey k(K[i][0], K[i][1], K[i][2], K[i][3]);
        Node e = r.FindNode(k);
        ASSERT(all(e.offset == at[i], (uint64_t)e.byte_size == size[i], e.point_count == 1), "the reader finds the node where it was put");
        ASSERT(sameBytes(r.GetPointData(e), d[i]), "and its points");
    }
    if (size[0] + size[1] + size[n - 1] > 1ull << 32) REACH("beyond");
    REACH("done");
}
extern "C" void C37_laz(void)
{
    int n = (int)sym_param("N", 3), fmt = 6 + (int)sym_param("F", 0), eb = (int)sym_param("EB", 1), rec = baseSize(fmt) + eb;
    auto g = gaps(n);
    Big m;
    std::iostream io(&m);
    std::vector<uint64_t> at, size;
    std::vector<Bytes> d;
    bool fits = true;
    {
        LazWriter w(io, las::LazConfigWriter(fmt, Vector3(1, 1, 1), Vector3(0, 0, 0), "WKT", mkEb(eb)));
        for (int i = 0; i < n; i++)
        {
            d.push_back(mkRaw(rec, 1));
            Bytes c = laz::Compressor::CompressBytes(d[i], (int8_t)fmt, (uint16_t)eb);
            at.push_back(m.pos());
            size.push_back(c.size() + g[i]);
            ASSUME(g[i] < 1ull << 40);
            bool ok = size[i] < 1ull << 31;
            m.gap = g[i];
            m.pending = true;
            bool t = throws([&] { w.WritePointsCompressed(c, 1); });
            ASSERT(t == !ok, "chunks of 2 GiB and more are rejected, and no others");
            if (!ok)
            {
                fits = false;
                break;
            }
        }
        if (fits) w.Close();
    }
    if (!fits)
    {
        REACH("rejected");
        return;
    }
    frame(m, n, at, size, n);
    io.clear();
    LazReader r(&io);
    ASSERT(r.LazConfig().Wkt() == "WKT", "the configuration");
    Bytes w;
    for (auto &b : d) w.insert(w.end(), b.begin(), b.end());
    ASSERT(sameBytes(r.GetPointData(), w), "every point in order");
    REACH("done");
}
// any declared number of points in each chunk
extern "C" void C37_counts(void)
{
    int n = (int)sym_param("N", 3);
    bool copc = sym_choose("copc", 2);
    Bytes c = laz::Compressor::CompressBytes(mkRaw(30, 1), 6, 0);
    std::stringstream ss;
    std::vector<int32_t> cnt;
    uint64_t total = 0;
    for (int i = 0; i < n; i++)
    {
        cnt.push_back(symI32("count"));
        ASSUME(cnt[i] > 0);
        total += (uint64_t)cnt[i];
    }
    if (copc)
    {
        Writer w(ss, CopcConfigWriter(6, Vector3(1, 1, 1), Vector3(0, 0, 0)));
        for (int i = 0; i < n; i++) ASSERT(w.AddNodeCompressed(VoxelKey(K[i][0], K[i][1], K[i][2], K[i][3]), c, cnt[i]).point_count == cnt[i], "the node has the count");
        w.Close();
    }
    else
    {
        LazWriter w(ss, las::LazConfigWriter(6, Vector3(1, 1, 1), Vector3(0, 0, 0)));
        for (int i = 0; i < n; i++)
        {
            uint64_t sum = 0;
            for (int j = 0; j <= i; j++) sum += (uint64_t)cnt[j];
            w.WritePointsCompressed(c, cnt[i]);
            ASSERT(w.PointCount() == sum && w.ChunkCount() == (uint64_t)i + 1, "the writer's counts");
        }
        w.Close();
        ASSERT(w.PointCount() == total, "the writer's count after closing");
    }
    if (copc) ASSERT(Reader(&ss).CopcConfig().LasHeader().PointCount() == total, "a reader's count");
    else ASSERT(LazReader(&ss).LazConfig().LasHeader().PointCount() == total, "a reader's count");
    std::string s = ss.str();
    ASSERT(rdLE(s.data(), 247, 8) == total, "the header's count is the total");
    ASSERT(rdLE(s.data(), 107, 4) == sym_ite(total <= 0xffffffffull, total, 0), "and the 32-bit count if it fits");
    uint64_t t = rdLE(s.data(), (int)rdLE(s.data(), 96, 4), 8);
    int ok = 1;
    for (int i = 0; i < n; i++) ok &= rdLE(s.data(), (int)(t + 8 + 8 * i), 4) == (uint64_t)cnt[i];
    ASSERT(ok, "the chunk table has the counts");
    if (copc)
    {
        Reader r(&ss);
        ASSERT(r.CopcConfig().LasHeader().PointCount() == total, "the reader gives the total");
        for (int i = 0; i < n; i++) ASSERT(r.FindNode(VoxelKey(K[i][0], K[i][1], K[i][2], K[i][3])).point_count == cnt[i], "and the counts");
    }
    else
    {
        LazReader r(&ss);
        ASSERT(r.LazConfig().LasHeader().PointCount() == total, "the reader gives the total");
    }
    if (total > 1ull << 32) REACH("beyond");
    REACH("done");
}
