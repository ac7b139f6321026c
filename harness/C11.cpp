// C11: extra-byte sizes and record lengths
#include "pt.h"
#include <copc-lib/copc/copc_config.hpp>
#include <copc-lib/las/header.hpp>
#include <copc-lib/las/points.hpp>
#include <copc-lib/las/utils.hpp>
#include <copc-lib/io/copc_writer.hpp>
#include <sstream>
using namespace copc;
// LAS 1.4 R15 table 24: bytes of data types 1..10; 11-20 and 21-30 are the two- and three-element arrays (deprecated)
static int typeSize(int t)
{
    static const int B[10] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
    return t <= 10 ? B[t - 1] : t <= 20 ? 2 * B[t - 11] : 3 * B[t - 21];
}
static las::EbVlr ebs(int n, int &total)
{
    las::EbVlr v(0);
    total = 0;
    for (int i = 0; i < n; i++)
    {
        las::EbVlr::ebfield f;
        int t = sym_choose("type", 31);
        f.data_type = (uint8_t)t;
        f.options = symU8("opt");
        if (t == 0)
        {
            f.options = (uint8_t)(sym_choose("size", 2) * 254 + sym_choose("sz1", 2));
            total += f.options;
        }
        else
            total += typeSize(t);
        v.addItem(f);
    }
    return v;
}
extern "C" void C11_sum(void)
{
    int total;
    las::EbVlr v = ebs(sym_choose("n", (int)sym_param("N", 3)), total);
    ASSERT(las::NumBytesFromExtraBytes(v.items) == total, "sum of the declared sizes");
    OBS("n", total);
    REACH("done");
}
extern "C" void C11_undoc(void)
{
    las::EbVlr v(0);
    las::EbVlr::ebfield f, g;
    f.data_type = 0; f.options = symU8("o1");
    g.data_type = 0; g.options = symU8("o2");
    v.addItem(f); v.addItem(g);
    ASSERT(las::NumBytesFromExtraBytes(v.items) == (int)f.options + (int)g.options, "undocumented dimensions give their size explicitly");
    REACH("done");
}
extern "C" void C11_badtype(void)
{
    las::EbVlr v(0);
    las::EbVlr::ebfield f;
    f.data_type = symU8("type"); f.options = symU8("opt");
    v.addItem(f);
    int r = -1;
    bool t = throws([&] { r = las::NumBytesFromExtraBytes(v.items); });
    ASSERT(t == (f.data_type > 30), "undefined data types are rejected");
    OBS("r", r);
    REACH(t ? "rejected" : "done");
}
extern "C" void C11_format(void)
{
    int8_t f = (int8_t)symU8("fmt");
    uint16_t eb = symU16("eb");
    bool bad = f < 6 || f > 8;
    int base = 0, pb = 0, dims = 0, ebs = 0;
    bool t1 = throws([&] { base = las::PointBaseByteSize(f); }), t2 = throws([&] { pb = las::PointByteSize(f, eb); });
    bool t3 = throws([&] { dims = las::PointBaseNumberDimensions(f); });
    uint32_t len = symU16("len");
    bool t4 = throws([&] { ebs = las::EbByteSize(f, len); });
    bool rgb = false, nir = false;
    bool t5 = throws([&] { rgb = las::FormatHasRgb((uint8_t)f); }), t6 = throws([&] { nir = las::FormatHasNir((uint8_t)f); });
    ASSERT(all(t1 == bad, t3 == bad, t4 == bad, t5 == bad, t6 == bad), "only formats 6-8 have sizes");
    if (bad) { ASSERT(t2, "only formats 6-8 have sizes"); REACH("rejected"); return; }
    int want = f == 6 ? 30 : f == 7 ? 36 : 38;
    ASSERT(t2 == ((int)eb + want > 65535), "record lengths that 16 bits can't hold are rejected");
    ASSERT(base == want, "base sizes 30, 36, 38");
    ASSERT(dims == (f == 6 ? 14 : f == 7 ? 17 : 18), "number of standard dimensions");
    if (!t2) ASSERT(pb == want + (int)eb, "record length = base + extra bytes");
    if ((int)len >= want) ASSERT(ebs == (int)len - want, "extra bytes = record length - base");
    ASSERT(rgb == (f >= 7) && nir == (f == 8), "colour and NIR by format");
    REACH("done");
}
extern "C" void C11_consistent(void)
{
    int8_t f = 6 + sym_choose("fmt", 3);
    int total;
    las::EbVlr v = ebs(sym_choose("n", (int)sym_param("N", 2)), total);
    int want = baseSize(f) + total;
    las::LazConfigWriter lc(f, Vector3(1, 1, 1), Vector3(0, 0, 0), "", v);
    CopcConfigWriter cc(f, Vector3(1, 1, 1), Vector3(0, 0, 0), "", v, symBool("ext"));
    ASSERT(all(lc.LasHeader()->PointRecordLength() == want, lc.LasHeader()->EbByteSize() == total, lc.LasHeader()->PointFormatId() == f), "LAZ config");
    ASSERT(all(cc.LasHeader()->PointRecordLength() == want, cc.LasHeader()->EbByteSize() == total, cc.LasHeader()->PointFormatId() == f), "COPC config");
    ASSERT(cc.CopcExtents()->NumberOfExtents() == las::PointBaseNumberDimensions(f) + v.items.size(), "one extent per dimension");
    las::LasHeader h = *cc.LasHeader();
    las::Points ps(h);
    ASSERT(ps.PointRecordLength() == want && ps.PointFormatId() == f, "points collection from header");
    auto p = ps.CreatePoint();
    ASSERT(all(p->PointRecordLength() == want, p->EbByteSize() == total, p->ExtraBytes().size() == (size_t)total, p->PointFormatId() == f), "points created from it");
    Point q(h);
    ASSERT(all(q.PointRecordLength() == want, q.EbByteSize() == total), "point from header");
    las::Points p2(f, (uint16_t)total);
    ASSERT(p2.PointRecordLength() == want && p2.EbByteSize() == total, "points from format and extra bytes");
    REACH("done");
}
static void fillEb(las::EbVlr::ebfield &f, const char *p)
{
    sym_bytes(f.reserved, 2, p);
    f.data_type = symU8(p); f.options = symU8(p);
    f.name = std::string(1, (char)symU8(p));
    f.description = std::string(1, (char)symU8(p));
    sym_bytes(f.no_data, 24, p); sym_bytes(f.minval, 24, p); sym_bytes(f.maxval, 24, p); sym_bytes(f.scale, 24, p); sym_bytes(f.offset, 24, p);
}
static bool same24(const double *a, const double *b) { return all(bitsOf(a[0]) == bitsOf(b[0]), bitsOf(a[1]) == bitsOf(b[1]), bitsOf(a[2]) == bitsOf(b[2])); }
extern "C" void C11_eq(void)
{
    las::EbVlr::ebfield a, b;
    fillEb(a, "a");
    fillEb(b, "b");
    bool e = lazperf::operator==(a, b);
    bool want = all(a.reserved[0] == b.reserved[0], a.reserved[1] == b.reserved[1], a.data_type == b.data_type, a.options == b.options, a.name[0] == b.name[0], a.description[0] == b.description[0],
                    same24(a.no_data, b.no_data), same24(a.minval, b.minval), same24(a.maxval, b.maxval), same24(a.scale, b.scale), same24(a.offset, b.offset));
    ASSERT(e == want, "descriptors are equal exactly when all fields are");
    OBS("e", e);
    REACH(e ? "eq" : "done");
}
// dimensions that just fit, and that just don't: n of size, the last one of a size of its own
static las::EbVlr wide(int n, int size, int last)
{
    las::EbVlr v(0);
    for (int i = 0; i < n; i++)
    {
        las::EbVlr::ebfield f;
        f.data_type = 0;
        f.options = (uint8_t)(i + 1 < n ? size : last);
        v.addItem(f);
    }
    return v;
}
extern "C" void C11_limits(void)
{
    int8_t f = 6 + sym_choose("fmt", 3);
    int how = sym_choose("how", 4), len = 0, eb = 0, items = 0;
    int room = 65535 - baseSize(f), n, size, last; // what a record can hold beside the format
    int c = sym_choose("case", 8);
    if (c < 5)
    { // as long as a record can be, one more, as much as the 16 bits alone could count, one more, and one that would look short
        int total = c == 0 ? room : c == 1 ? room + 1 : c == 2 ? 65535 : c == 3 ? 65536 : 65536 + 4000;
        n = c == 4 ? 341 : total / 250 + 1;
        size = c == 4 ? 204 : 250;
        last = total - (n - 1) * size;
    }
    else // as many descriptors as their record can list, one more, and many more
        n = c == 5 ? 341 : c == 6 ? 342 : 700, size = 1, last = 1;
    ASSERT(last >= 0 && last < 256, "the example");
    las::EbVlr v = wide(n, size, last);
    int total = (n - 1) * size + last;
    bool bad = total > room || n * 192 > 65535;
    Vector3 one(1, 1, 1), zero(0, 0, 0);
    bool raised = throws([&] {
        if (how == 0)
        {
            las::LazConfigWriter lc(f, one, zero, "", v);
            len = lc.LasHeader()->PointRecordLength(), eb = lc.LasHeader()->EbByteSize(), items = lc.ExtraBytesVlr().items.size();
        }
        else if (how == 1)
        {
            CopcConfigWriter cc(f, one, zero, "", v);
            len = cc.LasHeader()->PointRecordLength(), eb = cc.LasHeader()->EbByteSize(), items = cc.ExtraBytesVlr().items.size();
        }
        else
        { // a configuration that is changed for the file
            std::stringstream ss;
            CopcConfigWriter cc(how == 2 ? 6 : 8, one, zero, "", how == 2 ? wide(2, 5, 6) : las::EbVlr(0));
            Writer w(ss, cc, f, {}, {}, {}, v);
            len = w.CopcConfig()->LasHeader()->PointRecordLength(), eb = w.CopcConfig()->LasHeader()->EbByteSize(), items = w.CopcConfig()->ExtraBytesVlr().items.size();
            w.Close();
        }
    });
    OBS("len", len);
    ASSERT(raised == bad, "dimensions that don't fit are rejected, those that do aren't");
    if (!bad) ASSERT(len == baseSize(f) + total && eb == total && items == n, "record length = base + extra bytes");
    REACH(bad ? "rejected" : "done");
}
// Points and collections of them have the length that their format and their extra bytes add up to, or don't exist: no
// collection counts a length that wraps around.
extern "C" void C11_long(void)
{
    int8_t f = 6 + sym_choose("fmt", 3), g = 6 + sym_choose("to", 3);
    int room = 65535 - baseSize(f), c = sym_choose("eb", 5), how = sym_choose("how", 4), len = 0;
    int eb = c == 0 ? 0 : c == 1 ? room - 8 : c == 2 ? room : c == 3 ? room + 1 : 65535;
    bool bad = eb > room;
    Vector3 one(1, 1, 1), zero(0, 0, 0);
    if (how == 0)
    {
        ASSERT(throws([&] { Point p(f, (uint16_t)eb); len = p.PointRecordLength(); }) == bad, "points longer than a record are rejected");
        if (!bad) ASSERT(len == baseSize(f) + eb, "a point's length");
    }
    else if (how == 1)
    {
        ASSERT(throws([&] { las::Points p(f, (uint16_t)eb); len = p.PointRecordLength(); }) == bad, "collections of points longer than a record are rejected");
        if (!bad) ASSERT(len == baseSize(f) + eb, "a collection's length");
    }
    else if (how == 2)
    {
        ASSERT(throws([&] { las::Points::Unpack(std::vector<char>(), f, (uint16_t)eb, one, zero); }) == bad, "records that can't be are not unpacked");
    }
    else if (!bad)
    { // conversion to a format that leaves less room
        bool over = baseSize(g) + eb > 65535;
        las::Points ps(f, (uint16_t)eb);
        int n = sym_choose("n", 2);
        for (int i = 0; i < n; i++) ps.AddPoint(ps.CreatePoint());
        ASSERT(throws([&] { ps.ToPointFormat(g); }) == over, "conversions to points longer than a record are rejected");
        int8_t now = over ? f : g;
        ASSERT(all(ps.PointFormatId() == now, (int)ps.PointRecordLength() == baseSize(now) + eb), "the collection has one format and length");
        for (int i = 0; i < n; i++)
            ASSERT(all(ps.Get(i)->PointFormatId() == now, (int)ps.Get(i)->PointRecordLength() == baseSize(now) + eb, ps.Get(i)->HasRgb() == (now >= 7), ps.Get(i)->HasNir() == (now == 8)), "and its points have, too");
        Point p(f, (uint16_t)eb);
        ASSERT(throws([&] { p.ToPointFormat(g); }) == over, "points are not converted to longer ones than a record");
        ASSERT(all(p.PointFormatId() == now, (int)p.PointRecordLength() == baseSize(now) + eb, p.HasRgb() == (now >= 7)), "the point keeps its format then");
    }
    REACH(bad ? "rejected" : "done");
}
