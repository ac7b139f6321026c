// helpers for whole-file harnesses: writer -> stream -> reader
#pragma once
#include "pt.h"
#include <copc-lib/io/copc_reader.hpp>
#include <copc-lib/io/copc_writer.hpp>
#include <copc-lib/io/laz_reader.hpp>
#include <copc-lib/io/laz_writer.hpp>
using namespace copc;
using copc::laz::LazReader;
using copc::laz::LazWriter;
typedef std::vector<char> Bytes;
static las::EbVlr mkEb(int n)
{
    las::EbVlr v(0);
    for (int i = 0; i < n; i++)
    {
        las::EbVlr::ebfield f;
        f.data_type = 1; // unsigned char
        f.name = std::string("eb") + (char)('0' + i);
        v.addItem(f);
    }
    return v;
}
// n records with arbitrary bytes
static Bytes mkRaw(int recLen, int n, const char *nm = "rec")
{
    Bytes b(recLen * n);
    if (!b.empty()) sym_bytes(b.data(), b.size(), nm);
    return b;
}
static bool sameBytes(const Bytes &a, const Bytes &b)
{
    if (a.size() != b.size()) return false;
    return sym_memeq(a.data(), b.data(), a.size());
}
static bool sameBytes(const std::string &a, const std::string &b)
{
    if (a.size() != b.size()) return false;
    return sym_memeq(a.data(), b.data(), a.size());
}
static bool sameV(const Vector3 &a, const Vector3 &b) { return all(bitsOf(a.x) == bitsOf(b.x), bitsOf(a.y) == bitsOf(b.y), bitsOf(a.z) == bitsOf(b.z)); }
static bool keyEq(const VoxelKey &a, const VoxelKey &b) { return all(a.d == b.d, a.x == b.x, a.y == b.y, a.z == b.z); }
static bool sameEntry(const Entry &a, const Entry &b) { return all(keyEq(a.key, b.key), a.offset == b.offset, a.byte_size == b.byte_size, a.point_count == b.point_count); }
// any key of depth d (d concrete)
static VoxelKey symKey(int d, const char *nx = "kx", const char *ny = "ky", const char *nz = "kz")
{
    VoxelKey k(d, 0, 0, 0);
    if (d > 0)
    {
        k.x = (int32_t)sym_u(nx, d);
        k.y = (int32_t)sym_u(ny, d);
        k.z = (int32_t)sym_u(nz, d);
    }
    return k;
}
static VoxelKey anc(const VoxelKey &k, int d) { return VoxelKey(d, k.x >> (k.d - d), k.y >> (k.d - d), k.z >> (k.d - d)); }
// what the file should hold
struct Want
{
    std::vector<Node> nodes; // as returned when added, with the page they belong to
    std::vector<Bytes> data;
    int find(const VoxelKey &k) const
    {
        for (size_t i = 0; i < nodes.size(); i++)
            if (keyEq(nodes[i].key, k)) return (int)i;
        return -1;
    }
    void put(const Node &n, const Bytes &d)
    {
        int i = find(n.key);
        if (i < 0) { nodes.push_back(n); data.push_back(d); }
        else { nodes[i] = n; data[i] = d; }
    }
    std::vector<VoxelKey> pages() const
    {
        std::vector<VoxelKey> r{VoxelKey(0, 0, 0, 0)};
        for (auto &n : nodes)
        {
            bool seen = false;
            for (auto &p : r) seen = seen || keyEq(p, n.page_key);
            if (!seen) r.push_back(n.page_key);
        }
        return r;
    }
};
static bool sameNode(const Node &a, const Node &b) { return all(sameEntry(a, b), keyEq(a.page_key, b.page_key)); }
// the listing holds exactly the wanted nodes, each once
static bool sameSet(const std::vector<Node> &got, const std::vector<Node> &want)
{
    if (got.size() != want.size()) return false;
    int ok = 1;
    for (auto &w : want)
    {
        int n = 0;
        for (auto &g : got) n += sameNode(g, w);
        ok &= n == 1;
    }
    return ok;
}
static bool sameKeys(const std::vector<VoxelKey> &got, const std::vector<VoxelKey> &want)
{
    if (got.size() != want.size()) return false;
    int ok = 1;
    for (auto &w : want)
    {
        int n = 0;
        for (auto &g : got) n += keyEq(g, w);
        ok &= n == 1;
    }
    return ok;
}
