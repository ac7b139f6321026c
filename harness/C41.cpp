// C41: text forms show the values an object has
#include "hdr.h"
#include "text.h"
#include <copc-lib/copc/copc_config.hpp>
#include <copc-lib/copc/extents.hpp>
#include <copc-lib/copc/info.hpp>
#include <copc-lib/geometry/box.hpp>
#include <copc-lib/hierarchy/node.hpp>
#include <copc-lib/hierarchy/page.hpp>
#include <copc-lib/las/points.hpp>
using namespace copc;
template <class O> static Text show(const O &o)
{
    Text t;
    vp_text = 1;
    vp_nlog = 0;
    t.s = o.ToString();
    int n = vp_nlog;
    std::vector<Shown> log(vp_log, vp_log + n);
    vp_nlog = 0;
    std::ostringstream os;
    os << std::hex << std::setprecision(2) << o;
    ASSERT(os.str() == t.s && vp_nlog == n, "printing an object prints its text form");
    int same = 1;
    for (int i = 0; i < n; i++) same &= all(log[i].bits == vp_log[i].bits, log[i].kind == vp_log[i].kind, log[i].prec == vp_log[i].prec);
    ASSERT(same, "printing an object prints its text form");
    vp_text = 0;
    return t;
}
static bool isKey(Text &t, const VoxelKey &k)
{
    bool ok = t.label("(") && t.I(k.d);
    ok = t.label(", ") && all(ok, t.I(k.x));
    ok = t.label(", ") && all(ok, t.I(k.y));
    return t.label(", ") && all(ok, t.I(k.z));
}
static bool isVec(Text &t, const Vector3 &v, int digits = 17)
{
    bool ok = t.label("(") && t.D(v.x, digits);
    ok = t.label(", ") && all(ok, t.D(v.y, digits));
    return t.label(", ") && all(ok, t.D(v.z, digits));
}
static bool isExt(Text &t, const CopcExtent &e)
{
    bool ok = t.label("(") && t.D(e.minimum, 6);
    ok = t.label("/") && all(ok, t.D(e.maximum, 6));
    ok = t.label("/") && all(ok, t.D(e.mean, 6));
    return t.label("/") && all(ok, t.D(e.var, 6));
}
static VoxelKey anyKey() { return VoxelKey(symI32("d"), symI32("x"), symI32("y"), symI32("z")); }
extern "C" void C41_small(void)
{
    VoxelKey k = anyKey();
    Text t = show(k);
    SHOWS(isKey(t, k), "a key");
    Vector3 v(symF64("vx"), symF64("vy"), symF64("vz"));
    t = show(v);
    SHOWS(isVec(t, v), "every coordinate of a vector, with all its digits,");
    Box b;
    b.x_min = symF64("x0"); b.y_min = symF64("y0"); b.z_min = symF64("z0"); b.x_max = symF64("x1"); b.y_max = symF64("y1"); b.z_max = symF64("z1");
    t = show(b);
    LAB(t, "x_min="); SHOWS(t.D(b.x_min, 17), "x_min");
    LAB(t, "y_min="); SHOWS(t.D(b.y_min, 17), "y_min");
    LAB(t, "z_min="); SHOWS(t.D(b.z_min, 17), "z_min");
    LAB(t, "x_max="); SHOWS(t.D(b.x_max, 17), "x_max");
    LAB(t, "y_max="); SHOWS(t.D(b.y_max, 17), "y_max");
    LAB(t, "z_max="); SHOWS(t.D(b.z_max, 17), "z_max");
    CopcInfo i;
    i.center_x = symF64("cx"); i.center_y = symF64("cy"); i.center_z = symF64("cz"); i.halfsize = symF64("hs"); i.spacing = symF64("sp");
    t = show(i);
    LAB(t, "center_x: "); SHOWS(t.D(i.center_x, 6), "center_x");
    LAB(t, "center_y: "); SHOWS(t.D(i.center_y, 6), "center_y");
    LAB(t, "center_z: "); SHOWS(t.D(i.center_z, 6), "center_z");
    LAB(t, "halfsize: "); SHOWS(t.D(i.halfsize, 6), "halfsize");
    LAB(t, "spacing: "); SHOWS(t.D(i.spacing, 6), "spacing");
    REACH("done");
}
extern "C" void C41_entry(void)
{
    Entry e(anyKey(), (int64_t)symU64("off"), symI32("size"), symI32("count"));
    Node n(e, VoxelKey(0, 0, 0, 0));
    Page p(e);
    p.loaded = symBool("loaded");
    for (int w = 0; w < 3; w++)
    {
        const Entry &o = w == 0 ? e : w == 1 ? (const Entry &)n : (const Entry &)p;
        Text t = show(o);
        LAB(t, "Entry ");
        SHOWS(isKey(t, o.key), "the key of an entry");
        LAB(t, "off="); SHOWS(t.U((uint64_t)o.offset), "the offset");
        LAB(t, "size="); SHOWS(t.I(o.byte_size), "the size");
        LAB(t, "count="); SHOWS(t.I(o.point_count), "the point count");
        LAB(t, "is_valid="); SHOWS(t.U(o.IsValid() ? 1 : 0), "whether it is valid");
    }
    REACH("done");
}
extern "C" void C41_extents(void)
{
    int fmt = 6 + sym_choose("fmt", 3), eb = sym_choose("eb", (int)sym_param("EB", 3));
    CopcExtents x(fmt, eb, symBool("ext"));
    auto all_ = x.Extents();
    for (auto &e : all_)
    {
        e->minimum = symF64("min"); e->maximum = symF64("max"); e->mean = symF64("mean"); e->var = symF64("var");
    }
    Text one = show(*all_[0]);
    SHOWS(isExt(one, *all_[0]), "an extent");
    Text t = show(x);
    static const char *const L[] = {"\tX: ", "\tY: ", "\tZ: ", "\tIntensity: ", "\tReturn Number: ", "\tNumber Of Returns: ", "\tScanner Channel: ", "\tScan Direction Flag: ", "\tEdge Of Flight Line: ",
                                    "\tClassification: ", "\tUser Data: ", "\tScan Angle: ", "\tPoint Source ID: ", "\tGPS Time: ", "\tRed: ", "\tGreen: ", "\tBlue: ", "\tNIR: "};
    int base = fmt == 6 ? 14 : fmt == 7 ? 17 : 18;
    for (int i = 0; i < 18; i++)
    {
        if (i >= base)
        {
            ASSERT(t.s.find(L[i]) == std::string::npos, "only the dimensions of the format are shown");
            continue;
        }
        ASSERT(t.label(L[i]), "every dimension of the format has its line");
        SHOWS(isExt(t, *all_[i]), "the extent of a dimension under its name");
    }
    LAB(t, "Extra Bytes:");
    for (int i = 0; i < eb; i++) SHOWS(isExt(t, *all_[base + i]), "the extent of an extra-byte dimension");
    ASSERT(t.s.find('(', t.at) == std::string::npos, "nothing else is shown");
    REACH("done");
}
extern "C" void C41_header(void)
{
    int8_t fmt = 6 + sym_choose("fmt", 3);
    las::LasHeader h(fmt, symU16("len"), symU32("po"), symU64("pc"), symU32("vc"), Vector3(symF64("sx"), symF64("sy"), symF64("sz")), Vector3(symF64("ox"), symF64("oy"), symF64("oz")), symU64("eo"), symU32("ec"), symBool("copc"));
    fill(h);
    h.GUID("guid-text"); h.SystemIdentifier("system text"); h.GeneratingSoftware("software text");
    Text t = show(h);
    LAB(t, "File Source ID: "); SHOWS(t.U(h.file_source_id), "the file source id");
    LAB(t, "Global Encoding ID: "); SHOWS(t.U(h.global_encoding), "the global encoding");
    LAB(t, "GUID: guid-text");
    LAB(t, "Version: "); SHOWS(t.I(1), "the major version");
    LAB(t, "."); SHOWS(t.I(4), "the minor version");
    LAB(t, "System Identifier: system text");
    LAB(t, "Generating Software: software text");
    LAB(t, "(Day/Year): ("); SHOWS(t.U(h.creation_day), "the creation day");
    LAB(t, "/"); SHOWS(t.U(h.creation_year), "the creation year");
    LAB(t, "Header Size: "); SHOWS(t.U(375), "the header size");
    LAB(t, "Point Offset: "); SHOWS(t.U(h.PointOffset()), "the point offset");
    LAB(t, "VLR Count: "); SHOWS(t.U(h.VlrCount()), "the VLR count");
    LAB(t, "Point Format ID: "); SHOWS(t.I(fmt), "the point format");
    LAB(t, "Point Record Length: "); SHOWS(t.U(h.PointRecordLength()), "the record length");
    LAB(t, "Point Count: "); SHOWS(t.U(h.PointCount()), "the point count");
    LAB(t, "Scale: "); SHOWS(isVec(t, h.Scale()), "the scale");
    LAB(t, "Offset: "); SHOWS(isVec(t, h.Offset()), "the offset");
    LAB(t, "Max: "); SHOWS(isVec(t, h.max), "the maximum");
    LAB(t, "Min: "); SHOWS(isVec(t, h.min), "the minimum");
    LAB(t, "EVLR Offset: "); SHOWS(t.U(h.EvlrOffset()), "the EVLR offset");
    LAB(t, "EVLR count: "); SHOWS(t.U(h.EvlrCount()), "the EVLR count");
    LAB(t, "Points By Return:");
    for (int i = 0; i < 15; i++)
    {
        LAB(t, "["); SHOWS(t.I(i), "the number of a return");
        LAB(t, "]: "); SHOWS(t.U(h.points_by_return[i]), "the number of points of a return");
    }
    REACH("done");
}
extern "C" void C41_point(void)
{
    int8_t fmt = 6 + sym_choose("fmt", 3);
    int eb = sym_choose("eb", 3);
    las::LasHeader h(fmt, baseSize(fmt) + eb, Vector3(0.5, 0.5, 0.5), Vector3(0, 0, 0), false);
    las::Points ps(h);
    auto p = ps.CreatePoint();
    std::vector<char> raw = std::vector<char>(baseSize(fmt) + eb);
    fillPt(*p, false);
    int32_t xi = symI32("xi"), yi = symI32("yi"), zi = symI32("zi");
    p->X(xi * 0.5); p->Y(yi * 0.5); p->Z(zi * 0.5);
    Text t = show(*p);
    LAB(t, "X: "); SHOWS(t.D(p->X(), 6), "x");
    LAB(t, "Y: "); SHOWS(t.D(p->Y(), 6), "y");
    LAB(t, "Z: "); SHOWS(t.D(p->Z(), 6), "z");
    LAB(t, "Intensity: "); SHOWS(t.U(p->Intensity()), "the intensity");
    LAB(t, "Return Number: "); SHOWS(t.I(p->ReturnNumber()), "the return number");
    LAB(t, "Number of Returns: "); SHOWS(t.I(p->NumberOfReturns()), "the number of returns");
    LAB(t, "Synthetic: "); SHOWS(t.U(p->Synthetic() ? 1 : 0), "the synthetic flag");
    LAB(t, "Key Point: "); SHOWS(t.U(p->KeyPoint() ? 1 : 0), "the key-point flag");
    LAB(t, "Withheld: "); SHOWS(t.U(p->Withheld() ? 1 : 0), "the withheld flag");
    LAB(t, "Overlap: "); SHOWS(t.U(p->Overlap() ? 1 : 0), "the overlap flag");
    LAB(t, "ScannerChannel: "); SHOWS(t.I(p->ScannerChannel()), "the scanner channel");
    LAB(t, "Scan Direction: "); SHOWS(t.U(p->ScanDirectionFlag() ? 1 : 0), "the scan direction");
    LAB(t, "Edge of Flight Line: "); SHOWS(t.U(p->EdgeOfFlightLineFlag() ? 1 : 0), "the edge flag");
    LAB(t, "ification: "); SHOWS(t.I(p->Classification()), "the classification");
    LAB(t, "User Data: "); SHOWS(t.I(p->UserData()), "the user data");
    LAB(t, "Scan Angle: "); SHOWS(t.I(p->ScanAngle()), "the scan angle");
    LAB(t, "Point Source ID: "); SHOWS(t.U(p->PointSourceId()), "the point source id");
    LAB(t, "GPS Time: "); SHOWS(t.D(p->GPSTime(), 6), "the GPS time");
    if (fmt >= 7)
    {
        LAB(t, "RGB: [ "); SHOWS(t.U(p->Red()), "red");
        LAB(t, ", "); SHOWS(t.U(p->Green()), "green");
        LAB(t, ", "); SHOWS(t.U(p->Blue()), "blue");
    }
    else ASSERT(t.s.find("RGB") == std::string::npos, "no colour without colour");
    if (fmt == 8) { LAB(t, "NIR: "); SHOWS(t.U(p->Nir()), "near infrared"); }
    else ASSERT(t.s.find("NIR") == std::string::npos, "no near infrared without it");
    if (eb) { LAB(t, "Extra Bytes: "); SHOWS(t.U(eb), "the number of extra bytes"); }
    int n = sym_choose("n", 3);
    for (int i = 0; i < n; i++) ps.AddPoint(p);
    t = show(ps);
    LAB(t, "# of points: "); SHOWS(t.U(n), "the size of a collection");
    LAB(t, "Point Format: "); SHOWS(t.I(fmt), "its format");
    LAB(t, "# Extra Bytes: "); SHOWS(t.U(eb), "its extra bytes");
    LAB(t, "Point Record Length: "); SHOWS(t.U(baseSize(fmt) + eb), "its record length");
    REACH("done");
}
