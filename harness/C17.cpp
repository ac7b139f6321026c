// C17: node point data read back is the data written
#include "many.h"
#include <algorithm>
#include <copc-lib/laz/compressor.hpp>
#include <copc-lib/laz/decompressor.hpp>
extern "C" void C17_data(void)
{
    int fmt = 6 + sym_choose("fmt", (int)sym_param("F", 3)), eb = sym_choose("eb", (int)sym_param("EB", 3)), N = (int)sym_param("N", 2), P = (int)sym_param("P", 2);
    CopcConfigWriter cfg(fmt, Vector3(1, 1, 1), Vector3(0, 0, 0), "", mkEb(eb));
    int rec = baseSize(fmt) + eb;
    las::LasHeader hd = *cfg.LasHeader();
    std::stringstream ss;
    Want w;
    int total = 0;
    {
        Writer wr(ss, cfg);
        for (int i = 0; i < N; i++)
        {
            static const int K[3][4] = {{1, 1, 0, 1}, {0, 0, 0, 0}, {2, 3, 1, 2}};
            VoxelKey k(K[i % 3][0], K[i % 3][1], K[i % 3][2], K[i % 3][3]), pk = sym_choose("sub", 2) ? k : VoxelKey(0, 0, 0, 0);
            int n = 1 + sym_choose("n", P), how = sym_choose("how", 3);
            Bytes raw = mkRaw(rec, n);
            Node nd;
            if (how == 0) nd = wr.AddNode(k, raw, pk);
            else if (how == 1) nd = wr.AddNode(k, las::Points::Unpack(raw, hd), pk);
            else nd = wr.AddNodeCompressed(k, laz::Compressor::CompressBytes(raw, hd), n, pk);
            ASSERT(nd.point_count == n && keyEq(nd.key, k), "the node has that many points");
            w.put(nd, raw);
            total += n;
        }
        wr.Close();
    }
    Reader r(&ss);
    las::LasHeader rh = r.CopcConfig().LasHeader();
    for (size_t i = 0; i < w.nodes.size(); i++)
    {
        VoxelKey k = w.nodes[i].key;
        Node f = r.FindNode(k);
        const Bytes &d = w.data[i];
        ASSERT(sameBytes(r.GetPointData(k), d), "data by key");
        ASSERT(sameBytes(r.GetPointData(f), d), "data by node");
        las::Points p = r.GetPoints(k), p2 = r.GetPoints(f);
        ASSERT(p.Size() * rec == d.size() && p2.Size() == p.Size(), "number of points");
        ASSERT(sameBytes(p.Pack(rh), d) && sameBytes(p2.Pack(rh), d), "points by key and node");
        Bytes c = r.GetPointDataCompressed(k), c2 = r.GetPointDataCompressed(f);
        ASSERT(c.size() == (size_t)f.byte_size && sameBytes(c, c2), "compressed data by key and node");
        ASSERT(sameBytes(laz::Decompressor::DecompressBytes(c, rh, f.point_count), d), "compressed data decodes to the records");
    }
    // the order of nodes is the hierarchy's; each node's points come once and together
    las::Points a = r.GetAllPoints();
    ASSERT(a.Size() == (size_t)total && rh.PointCount() == (uint64_t)total, "all points");
    Bytes ab = a.Pack(rh), want;
    for (auto &nd : r.GetAllNodes())
    {
        int i = w.find(nd.key);
        if (i >= 0) want.insert(want.end(), w.data[i].begin(), w.data[i].end());
    }
    ASSERT(sameBytes(ab, want), "all points are every node's points once");
    OBS("n", a.Size());
    REACH("done");
}
extern "C" void C17_absent(void)
{
    CopcConfigWriter cfg(6, Vector3(1, 1, 1), Vector3(0, 0, 0));
    std::stringstream ss;
    VoxelKey k0 = symKey(1, "ax", "ay", "az");
    Node nd;
    {
        Writer wr(ss, cfg);
        nd = wr.AddNode(k0, mkRaw(30, 1), sym_choose("sub", 2) ? k0 : VoxelKey(0, 0, 0, 0));
        wr.Close();
    }
    Reader r(&ss);
    VoxelKey k(symI32("d"), symI32("x"), symI32("y"), symI32("z"));
    ASSUME(all(k.d <= 2, k.d >= -2));
    ASSUME(!keyEq(k, k0));
    if (k.d > 0) ASSUME(all(k.x < 4, k.y < 4, k.z < 4));
    ASSERT(r.GetPointData(k).empty(), "no data for a key that is not in the file");
    ASSERT(r.GetPointDataCompressed(k).empty(), "no compressed data");
    las::Points p = r.GetPoints(k);
    ASSERT(p.Size() == 0 && p.PointFormatId() == 6 && p.PointRecordLength() == 30, "no points, in the file's format");
    Node bad;
    if (sym_choose("neg", 2)) { bad = nd; bad.byte_size = -1; }
    ASSERT(throws([&] { r.GetPointData(bad); }) && throws([&] { r.GetPoints(bad); }) && throws([&] { r.GetPointDataCompressed(bad); }), "an invalid node is rejected");
    ASSERT(r.GetAllPoints().Size() == 1, "the file is still readable");
    REACH("done");
}
extern "C" void C17_many(void)
{
    int n = (int)sym_param("N", 65537), how = (int)sym_param("how", 0), objects = (int)sym_param("objects", 0);
    CopcConfigWriter cfg(6, Vector3(1, 1, 1), Vector3(0, 0, 0));
    las::LasHeader hd = *cfg.LasHeader();
    std::stringstream ss;
    VoxelKey k(1, 1, 0, 1);
    Bytes raw = manyRaw(30, n);
    {
        Writer wr(ss, cfg);
        Node nd = how == 0 ? wr.AddNode(k, raw) : how == 1 ? wr.AddNode(k, las::Points::Unpack(raw, hd)) : wr.AddNodeCompressed(k, laz::Compressor::CompressBytes(raw, hd), n);
        ASSERT(nd.point_count == n, "the node has that many points");
        wr.Close();
    }
    Reader r(&ss);
    ASSERT(r.CopcConfig().LasHeader().PointCount() == (uint64_t)n && r.FindNode(k).point_count == n, "the counts");
    ASSERT(sameBytes(r.GetPointData(k), raw), "all the records");
    if (objects)
    {
        las::Points p = r.GetPoints(k);
        ASSERT((int)p.Size() == n && sameBytes(p.Pack(hd), raw), "all the points");
        if (objects > 1) ASSERT((int)r.GetAllPoints().Size() == n, "all the file's points");
    }
    REACH("done");
}
