// everything a reader says about a file
#pragma once
#include "med.h"
struct Ans
{
    las::LasHeader h;
    CopcInfo info;
    std::vector<double> ext;
    std::string wkt;
    std::vector<std::string> eb;
    std::vector<Node> nodes;
    std::vector<VoxelKey> pages;
};
static bool sameD(double a, double b) { return bitsOf(a) == bitsOf(b); }
static bool sameHeader(const las::LasHeader &a, const las::LasHeader &b)
{
    int ok = all(a.file_source_id == b.file_source_id, a.global_encoding == b.global_encoding, a.creation_day == b.creation_day, a.creation_year == b.creation_year, a.PointOffset() == b.PointOffset(),
                 a.VlrCount() == b.VlrCount(), a.PointFormatId() == b.PointFormatId(), a.PointRecordLength() == b.PointRecordLength(), a.PointCount() == b.PointCount(), a.EvlrOffset() == b.EvlrOffset(),
                 a.EvlrCount() == b.EvlrCount(), a.IsCopc() == b.IsCopc(), sameV(a.Scale(), b.Scale()), sameV(a.Offset(), b.Offset()), sameV(a.min, b.min), sameV(a.max, b.max));
    for (int i = 0; i < 15; i++) ok &= a.points_by_return[i] == b.points_by_return[i];
    return ok && a.GUID() == b.GUID() && a.SystemIdentifier() == b.SystemIdentifier() && a.GeneratingSoftware() == b.GeneratingSoftware();
}
static std::vector<std::string> ebOf(const las::EbVlr &v)
{
    std::vector<std::string> r;
    for (auto &f : v.items)
    {
        std::string s(1, (char)f.data_type);
        s += (char)f.options;
        r.push_back(s + "|" + f.name + "|" + f.description);
    }
    return r;
}
static std::vector<double> extOf(CopcExtents e)
{
    std::vector<double> r;
    for (auto &x : e.Extents())
    {
        r.push_back(x->minimum);
        r.push_back(x->maximum);
        r.push_back(x->mean);
        r.push_back(x->var);
    }
    r.push_back(e.HasExtendedStats());
    return r;
}
static bool sameDs(const std::vector<double> &a, const std::vector<double> &b)
{
    if (a.size() != b.size()) return false;
    int ok = 1;
    for (size_t i = 0; i < a.size(); i++) ok &= sameD(a[i], b[i]);
    return ok;
}
static bool sameInfo(const CopcInfo &a, const CopcInfo &b)
{
    return all(sameD(a.center_x, b.center_x), sameD(a.center_y, b.center_y), sameD(a.center_z, b.center_z), sameD(a.halfsize, b.halfsize), sameD(a.spacing, b.spacing), a.root_hier_offset == b.root_hier_offset,
               a.root_hier_size == b.root_hier_size);
}
template <class R> static Ans config(R &r)
{
    Ans a;
    auto c = r.CopcConfig();
    a.h = c.LasHeader();
    a.info = c.CopcInfo();
    a.ext = extOf(c.CopcExtents());
    a.wkt = c.Wkt();
    a.eb = ebOf(c.ExtraBytesVlr());
    return a;
}
static bool sameConfig(const Ans &a, const Ans &b) { return sameHeader(a.h, b.h) && sameInfo(a.info, b.info) && sameDs(a.ext, b.ext) && sameBytes(a.wkt, b.wkt) && a.eb == b.eb; }
