// C03: LAS 1.4 point record layout
#include "pt.h"
#include <copc-lib/las/points.hpp>
using namespace copc;
static const Vector3 ONE(1, 1, 1), ZERO(0, 0, 0);
// the record as LAS 1.4 R15 tables 15-17 give it
static bool layout(const std::string &s, size_t o, const At &a, int32_t rx, int32_t ry, int32_t rz)
{
    const char *p = s.data() + o;
    bool ok = all((int32_t)rdLE(p, 0, 4) == rx, (int32_t)rdLE(p, 4, 4) == ry, (int32_t)rdLE(p, 8, 4) == rz, rdLE(p, 12, 2) == a.inten,
                  (rdLE(p, 14, 1) & 15) == a.rn, rdLE(p, 14, 1) >> 4 == a.nr, (rdLE(p, 15, 1) & 1) == a.syn, (rdLE(p, 15, 1) >> 1 & 1) == a.key,
                  (rdLE(p, 15, 1) >> 2 & 1) == a.wit, (rdLE(p, 15, 1) >> 3 & 1) == a.ovl, (rdLE(p, 15, 1) >> 4 & 3) == a.chan, (rdLE(p, 15, 1) >> 6 & 1) == a.sdf,
                  rdLE(p, 15, 1) >> 7 == a.eof, rdLE(p, 16, 1) == a.cls, rdLE(p, 17, 1) == a.ud, (int16_t)rdLE(p, 18, 2) == a.ang, rdLE(p, 20, 2) == a.psi,
                  rdLE(p, 22, 8) == a.gps);
    if (a.fmt >= 7) ok &= all(rdLE(p, 30, 2) == a.r, rdLE(p, 32, 2) == a.g, rdLE(p, 34, 2) == a.b);
    if (a.fmt == 8) ok &= rdLE(p, 36, 2) == a.nir;
    for (size_t i = 0; i < a.eb.size(); i++) ok &= (uint8_t)p[baseSize(a.fmt) + i] == a.eb[i];
    return ok;
}
static int extra();
extern "C" void C03_pack(void)
{
    int fmt = 6 + sym_choose("fmt", 3), eb = extra();
    Point p(fmt, eb);
    fillPt(p, false);
    int32_t rx = symI32("rx"), ry = symI32("ry"), rz = symI32("rz");
    p.X(rx); p.Y(ry); p.Z(rz);
    At before = snap(p);
    ASSERT(before.len == (uint32_t)(baseSize(fmt) + eb) && before.fmt == fmt && before.eb.size() == (size_t)eb, "record length");
    std::stringstream ss;
    ss.write("??", 2);
    p.Pack(ss, ONE, ZERO);
    std::string s = ss.str();
    ASSERT(s.size() == 2 + before.len, "packs exactly its record length");
    ASSERT(layout(s, 2, before, rx, ry, rz), "LAS 1.4 record layout");
    ASSERT(sameAt(snap(p), before), "packing does not change the point");
    OBS("x", rdLE(s.data(), 2, 8));
    REACH("done");
}
static int extra()
{ // few extra bytes, or as many as lengths of one byte do not hold
    static const int W[] = {255, 256, 257, 300, 1000};
    if (sym_param("wide", 0)) return W[sym_choose("eb", 5)];
    return sym_choose("eb", sym_param("EB", 4));
}
extern "C" void C03_unpack(void)
{
    int fmt = 6 + sym_choose("fmt", 3), eb = extra();
    int len = baseSize(fmt) + eb;
    std::string rec(len, 0);
    sym_bytes(&rec[0], len, "rec");
    std::stringstream in(rec + "tail");
    auto p = Point::Unpack(in, fmt, ONE, ZERO, eb);
    At a = snap(*p);
    ASSERT(a.len == (uint32_t)len && a.fmt == fmt && a.eb.size() == (size_t)eb, "format and record length");
    ASSERT((long)in.tellg() == len, "consumes exactly one record");
    ASSERT(all(sameBits(p->X(), (double)(int32_t)rdLE(&rec[0], 0, 4)), sameBits(p->Y(), (double)(int32_t)rdLE(&rec[0], 4, 4)), sameBits(p->Z(), (double)(int32_t)rdLE(&rec[0], 8, 4))), "coordinates");
    ASSERT(layout(rec, 0, a, rdLE(&rec[0], 0, 4), rdLE(&rec[0], 4, 4), rdLE(&rec[0], 8, 4)), "attributes are those the record encodes");
    std::stringstream out;
    p->Pack(out, ONE, ZERO);
    std::string s = out.str();
    ASSERT((int)s.size() == len, "same length again");
    bool same = true;
    for (int i = 0; i < len; i++) same &= s[i] == rec[i];
    ASSERT(same, "record reproduced byte for byte");
    OBS("gps", bitsOf(p->GPSTime()));
    REACH("done");
}
// power-of-two scales are exactly representable: any stored coordinate survives
extern "C" void C03_scaled(void)
{
    static const double sc[] = {0.5, 0.25, 0.0078125, 0.0009765625, 2, 64};
    int fmt = 6 + sym_choose("fmt", 3), k = sym_choose("scale", 6);
    int len = baseSize(fmt);
    std::string rec(len, 0);
    sym_bytes(&rec[0], len, "rec");
    std::stringstream in(rec);
    Vector3 S(sc[k], sc[(k + 1) % 6], sc[(k + 2) % 6]), O(0, 0, 0);
    auto p = Point::Unpack(in, fmt, S, O, 0);
    std::stringstream out;
    p->Pack(out, S, O);
    std::string s = out.str();
    ASSERT((int)s.size() == len, "same length again");
    bool same = true;
    for (int i = 0; i < len; i++) same &= s[i] == rec[i];
    ASSERT(same, "record reproduced byte for byte");
    REACH("done");
}
