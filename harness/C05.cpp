// C05: point attributes are independent, masked and range-checked
#include "pt.h"
using namespace copc;
static Point mk()
{
    int fmt = 6 + sym_choose("fmt", 3), eb = sym_param("EB", 2);
    Point p(fmt, eb);
    fillPt(p);
    return p;
}
static void chk(Point &p, const At &want) { ASSERT(sameAt(snap(p), want), "setter sets its attribute and no other"); }
extern "C" void C05_plain(void)
{
    Point p = mk();
    At w = snap(p);
    ASSERT(w.rn == (p.ReturnsBitField() & 15u) && w.nr == (unsigned)p.ReturnsBitField() >> 4, "return bit positions");
    unsigned f = p.FlagsBitField();
    ASSERT(all(w.syn == (f & 1), w.key == (f >> 1 & 1), w.wit == (f >> 2 & 1), w.ovl == (f >> 3 & 1), w.chan == (f >> 4 & 3), w.sdf == (f >> 6 & 1), w.eof == (f >> 7)), "flag bit positions");
    int k = sym_choose("setter", 12);
    switch (k)
    {
    case 0: { double v = symF64("v"); p.X(v); w.x = bitsOf(v); break; }
    case 1: { double v = symF64("v"); p.Y(v); w.y = bitsOf(v); break; }
    case 2: { double v = symF64("v"); p.Z(v); w.z = bitsOf(v); break; }
    case 3: { uint16_t v = symU16("v"); p.Intensity(v); w.inten = v; break; }
    case 4: { uint8_t v = symU8("v"); p.Classification(v); w.cls = v; break; }
    case 5: { int16_t v = symI16("v"); p.ScanAngle(v); w.ang = v; break; }
    case 6: { uint8_t v = symU8("v"); p.UserData(v); w.ud = v; break; }
    case 7: { uint16_t v = symU16("v"); p.PointSourceId(v); w.psi = v; break; }
    case 8: { double v = symF64("v"); p.GPSTime(v); w.gps = bitsOf(v); break; }
    case 9: { uint8_t v = symU8("v"); p.ReturnsBitField(v); ASSERT(p.ReturnsBitField() == v, "returns byte"); w.rn = v & 15; w.nr = v >> 4; break; }
    case 10: { uint8_t v = symU8("v"); p.FlagsBitField(v); ASSERT(p.FlagsBitField() == v, "flags byte"); w.syn = v & 1; w.key = v >> 1 & 1; w.wit = v >> 2 & 1; w.ovl = v >> 3 & 1; w.chan = v >> 4 & 3; w.sdf = v >> 6 & 1; w.eof = v >> 7; break; }
    default: break;
    }
    chk(p, w);
    OBS("ret", p.ReturnsBitField());
    OBS("flags", p.FlagsBitField());
    REACH("done");
}
extern "C" void C05_bits(void)
{
    Point p = mk();
    At w = snap(p);
    int k = sym_choose("setter", 9);
    uint8_t v = symU8("v");
    bool b = v & 1;
    bool bad = false, t = false;
    switch (k)
    {
    case 0: bad = v > 15; t = throws([&] { p.ReturnNumber(v); }); if (!bad) w.rn = v; break;
    case 1: bad = v > 15; t = throws([&] { p.NumberOfReturns(v); }); if (!bad) w.nr = v; break;
    case 2: bad = v > 3; t = throws([&] { p.ScannerChannel(v); }); if (!bad) w.chan = v; break;
    case 3: p.Synthetic(b); w.syn = b; break;
    case 4: p.KeyPoint(b); w.key = b; break;
    case 5: p.Withheld(b); w.wit = b; break;
    case 6: p.Overlap(b); w.ovl = b; break;
    case 7: p.ScanDirectionFlag(b); w.sdf = b; break;
    case 8: p.EdgeOfFlightLineFlag(b); w.eof = b; break;
    }
    ASSERT(t == bad, "out-of-range sub-field values are rejected, others accepted");
    chk(p, w);
    unsigned f = p.FlagsBitField(), r = p.ReturnsBitField();
    ASSERT(all(r == (w.rn | w.nr << 4), f == (w.syn | w.key << 1 | w.wit << 2 | w.ovl << 3 | w.chan << 4 | w.sdf << 6 | w.eof << 7)), "sub-fields at their LAS bit positions");
    OBS("ret", r);
    OBS("flags", f);
    REACH(t ? "rejected" : "done");
}
extern "C" void C05_colour(void)
{
    Point p = mk();
    At w = snap(p);
    int fmt = w.fmt;
    ASSERT(p.HasRgb() == (fmt >= 7) && p.HasNir() == (fmt == 8), "which formats have colour and NIR");
    int k = sym_choose("setter", 10);
    uint16_t a = symU16("a"), b = symU16("b"), c = symU16("c");
    bool t, bad = fmt < 7;
    switch (k)
    {
    case 0: t = throws([&] { p.Red(a); }); if (!bad) w.r = a; break;
    case 1: t = throws([&] { p.Green(a); }); if (!bad) w.g = a; break;
    case 2: t = throws([&] { p.Blue(a); }); if (!bad) w.b = a; break;
    case 3: t = throws([&] { p.Rgb(a, b, c); }); if (!bad) { w.r = a; w.g = b; w.b = c; } break;
    case 4:
    {
        int n = sym_choose("n", 6);
        std::vector<uint16_t> v;
        for (int i = 0; i < n; i++) v.push_back(symU16("v"));
        bad |= n != 3;
        t = throws([&] { p.Rgb(v); });
        if (!bad) { w.r = v[0]; w.g = v[1]; w.b = v[2]; }
        break;
    }
    case 5: bad = fmt != 8; t = throws([&] { p.Nir(a); }); if (!bad) w.nir = a; break;
    case 6: t = throws([&] { p.Red(); }); break;
    case 7: t = throws([&] { p.Green(); }); break;
    case 8: t = throws([&] { p.Blue(); }); break;
    default: bad = fmt != 8; t = throws([&] { p.Nir(); }); break;
    }
    ASSERT(t == bad, "colour and NIR rejected exactly where the format lacks them");
    chk(p, w);
    REACH(t ? "rejected" : "done");
}
extern "C" void C05_eb(void)
{
    int fmt = 6 + sym_choose("fmt", 3), eb = sym_choose("eb", sym_param("EB", 4)), n = sym_choose("n", sym_param("EB", 4) + 1);
    // lengths that agree with the declared one in their low 8 or 16 bits only
    int more = sym_choose("more", 3);
    if (more) n += more == 1 ? 256 : 65536;
    Point p(fmt, eb);
    fillPt(p);
    At w = snap(p);
    ASSERT(p.EbByteSize() == eb, "extra byte size");
    std::vector<uint8_t> v;
    if (more) v.resize(n);
    else for (int i = 0; i < n; i++) v.push_back(symU8("v"));
    bool t = throws([&] { p.ExtraBytes(v); });
    ASSERT(t == (n != eb), "wrong number of extra bytes rejected");
    if (!t) w.eb = v;
    chk(p, w);
    REACH(t ? "rejected" : "done");
}
extern "C" void C05_ctor(void)
{
    int8_t fmt = (int8_t)symU8("fmt");
    bool t = throws([&] { Point p(fmt, 1); });
    ASSERT(t == (fmt < 6 || fmt > 8), "only formats 6-8");
    if (t) { REACH("rejected"); return; }
    int8_t f = (int8_t)sym_concretize((uint8_t)fmt);
    Point p(f, 2);
    At a = snap(p);
    ASSERT(all(a.x == 0, a.y == 0, a.z == 0, a.gps == 0, a.inten == 0, a.rn == 0, a.nr == 0, a.cls == 0, a.ud == 0, a.psi == 0, a.ang == 0, a.r == 0, a.g == 0, a.b == 0, a.nir == 0, a.eb[0] == 0, a.eb[1] == 0), "a new point is all zero");
    REACH("done");
}
// scan angle in degrees: what is read and set again is the same step
extern "C" void C05_angle(void)
{
    Point p(6, 0);
    fillPt(p);
    At w = snap(p);
    int16_t q = symI16("q");
    p.ScanAngle(q);
    float d = p.ScanAngleDegrees();
    ASSERT(d == 0.006f * (float)q, "degrees");
    p.ScanAngleDegrees(d);
    int back = p.ScanAngle();
    ASSERT(back == q, "degrees set back to the same step");
    w.ang = back;
    chk(p, w);
    OBS("back", (uint16_t)back);
    REACH("done");
}
// any angle: the nearest step, or rejected
extern "C" void C05_degrees(void)
{
    Point p(6, 0);
    fillPt(p);
    At w = snap(p);
    float d = symF32("d");
    bool t = throws([&] { p.ScanAngleDegrees(d); });
    float steps = d / 0.006f;
    bool in = steps > -32768.5f && steps < 32767.5f;
    ASSERT(t == !in, "angles that don't fit the field are rejected");
    if (!t)
    {
        float off = steps - (float)p.ScanAngle();
        ASSERT(off >= -0.5f && off <= 0.5f, "the nearest step");
        w.ang = p.ScanAngle();
    }
    chk(p, w);
    REACH(t ? "rejected" : "done");
}
