// point attribute snapshots
#pragma once
#include "h.h"
#include <copc-lib/las/point.hpp>
using copc::las::Point;
struct At
{
    uint64_t x, y, z, gps;
    uint32_t inten, rn, nr, cls, ud, psi, chan, syn, key, wit, ovl, sdf, eof;
    int32_t ang;
    uint32_t r = 0, g = 0, b = 0, nir = 0;
    std::vector<uint8_t> eb;
    int fmt;
    uint32_t len;
};
static At snap(const Point &p)
{
    At a;
    a.x = bitsOf(p.X()); a.y = bitsOf(p.Y()); a.z = bitsOf(p.Z()); a.gps = bitsOf(p.GPSTime());
    a.inten = p.Intensity(); a.rn = p.ReturnNumber(); a.nr = p.NumberOfReturns(); a.cls = p.Classification();
    a.ud = p.UserData(); a.psi = p.PointSourceId(); a.chan = p.ScannerChannel(); a.syn = p.Synthetic(); a.key = p.KeyPoint();
    a.wit = p.Withheld(); a.ovl = p.Overlap(); a.sdf = p.ScanDirectionFlag(); a.eof = p.EdgeOfFlightLineFlag(); a.ang = p.ScanAngle();
    if (p.HasRgb()) { a.r = p.Red(); a.g = p.Green(); a.b = p.Blue(); }
    if (p.HasNir()) a.nir = p.Nir();
    a.eb = p.ExtraBytes();
    a.fmt = p.PointFormatId();
    a.len = p.PointRecordLength();
    return a;
}
static bool sameEb(const std::vector<uint8_t> &a, const std::vector<uint8_t> &b)
{
    if (a.size() != b.size()) return false;
    int r = 1;
    for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
    return r;
}
// shared attributes (not format, length, colour)
static bool sameBase(const At &a, const At &b)
{
    return all(a.x == b.x, a.y == b.y, a.z == b.z, a.gps == b.gps, a.inten == b.inten, a.rn == b.rn, a.nr == b.nr, a.cls == b.cls, a.ud == b.ud, a.psi == b.psi,
               a.chan == b.chan, a.syn == b.syn, a.key == b.key, a.wit == b.wit, a.ovl == b.ovl, a.sdf == b.sdf, a.eof == b.eof, a.ang == b.ang, sameEb(a.eb, b.eb));
}
static bool sameAt(const At &a, const At &b)
{
    return all(sameBase(a, b), a.r == b.r, a.g == b.g, a.b == b.b, a.nir == b.nir, a.fmt == b.fmt, a.len == b.len);
}
static int baseSize(int fmt) { return fmt == 6 ? 30 : fmt == 7 ? 36 : 38; }
// fill every attribute with arbitrary values (coordinates arbitrary doubles unless xyz=false)
static void fillPt(Point &p, bool xyz = true)
{
    if (xyz) { p.X(symF64("X")); p.Y(symF64("Y")); p.Z(symF64("Z")); }
    p.Intensity(symU16("inten"));
    p.ReturnsBitField(symU8("ret"));
    p.FlagsBitField(symU8("flags"));
    p.Classification(symU8("cls"));
    p.ScanAngle(symI16("ang"));
    p.UserData(symU8("ud"));
    p.PointSourceId(symU16("psi"));
    p.GPSTime(symF64("gps"));
    if (p.PointFormatId() >= 7) p.Rgb(symU16("r"), symU16("g"), symU16("b"));
    if (p.PointFormatId() == 8) p.Nir(symU16("nir"));
    std::vector<uint8_t> eb(p.EbByteSize());
    for (auto &e : eb) e = symU8("eb");
    p.ExtraBytes(eb);
}
