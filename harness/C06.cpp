// C06: point copy, equality, conversion
#include "pt.h"
#include <copc-lib/las/header.hpp>
using namespace copc;
extern "C" void C06_copy(void)
{
    int fmt = 6 + sym_choose("fmt", 3), eb = sym_choose("eb", sym_param("EB", 3));
    Point p(fmt, eb);
    fillPt(p);
    At w = snap(p);
    Point c(p);
    ASSERT(sameAt(snap(c), w), "copy has all attributes");
    ASSERT(sameAt(snap(p), w), "original unchanged by copying");
    // independence, both ways
    fillPt(c);
    ASSERT(sameAt(snap(p), w), "changing the copy leaves the original");
    At wc = snap(c);
    fillPt(p);
    ASSERT(sameAt(snap(c), wc), "changing the original leaves the copy");
    Point d(6, 0);
    d = p;
    ASSERT(sameAt(snap(d), snap(p)), "assignment copies all attributes");
    OBS("x", bitsOf(d.X()));
    REACH("done");
}
extern "C" void C06_copyeq(void)
{
    int fmt = 6 + sym_choose("fmt", 3), eb = sym_choose("eb", sym_param("EB", 3));
    Point p(fmt, eb);
    fillPt(p);
    ASSUME(all(finite64(p.X()), finite64(p.Y()), finite64(p.Z()), p.GPSTime() == p.GPSTime()));
    Point c(p);
    bool e = p == c;
    ASSERT(e, "a copy equals the original");
    ASSERT(!(p != c), "!= negates ==");
    ASSERT(p == p, "equality reflexive");
    REACH("done");
}
extern "C" void C06_eq(void)
{
    int f1 = 6 + sym_choose("fmt", 3), e1 = sym_choose("eb", 2), f2 = 6 + sym_choose("fmt", 3), e2 = sym_choose("eb", 2);
    Point p(f1, e1), q(f2, e2);
    fillPt(p);
    fillPt(q);
    At a = snap(p), b = snap(q);
    // coordinates: identical or clearly apart (the 1e-6 tolerance itself is checked by C06_tol)
    a.x = b.x = a.y = b.y = a.z = b.z = 0;
    q.X(p.X()); q.Y(p.Y()); q.Z(p.Z());
    ASSUME(all(finite64(p.X()), finite64(p.Y()), finite64(p.Z())));
    bool gpsSame = p.GPSTime() == q.GPSTime();
    a.gps = b.gps = 0;
    bool want = all(sameAt(a, b), gpsSame);
    bool e = p == q;
    ASSERT(e == want, "equal exactly when format, length, extra bytes and attributes agree");
    OBS("e", e);
    REACH(e ? "eq" : "done");
}
extern "C" void C06_tol(void)
{
    Point p(6, 0), q(6, 0);
    int ax = sym_choose("axis", 3);
    double u = symF64("u"), v = symF64("v");
    ASSUME(finite64(u) && finite64(v));
    if (ax == 0) { p.X(u); q.X(v); }
    if (ax == 1) { p.Y(u); q.Y(v); }
    if (ax == 2) { p.Z(u); q.Z(v); }
    bool e = p == q;
    double d = u - v;
    if (d < 0) d = -d;
    bool close = d < 0.0000009, far = d > 0.0000011;
    ASSERT(!far || !e, "coordinates differing by more than 1e-6 are different");
    ASSERT(!close || e, "coordinates within 1e-6 are equal");
    ASSERT((q == p) == e, "equality symmetric");
    REACH(e ? "eq" : "done");
}
extern "C" void C06_conv(void)
{
    int fmt = 6 + sym_choose("fmt", 3), eb = sym_choose("eb", sym_param("EB", 3));
    Point p(fmt, eb);
    fillPt(p);
    At w = snap(p);
    int8_t to = (int8_t)symU8("to");
    bool bad = to < 6 || to > 8;
    bool t = throws([&] { p.ToPointFormat(to); });
    ASSERT(t == bad, "only formats 6-8 are targets");
    if (t) { ASSERT(sameAt(snap(p), w), "rejected conversion changes nothing"); REACH("rejected"); return; }
    int f = (int)sym_concretize((uint8_t)to);
    At g = snap(p);
    ASSERT(sameBase(g, w), "common attributes and extra bytes kept");
    ASSERT(g.fmt == f && g.len == (uint32_t)(baseSize(f) + eb) && p.EbByteSize() == eb, "format and record length updated");
    ASSERT(p.HasRgb() == (f >= 7) && p.HasNir() == (f == 8), "dimension availability follows the format");
    if (f >= 7 && fmt >= 7) ASSERT(all(g.r == w.r, g.g == w.g, g.b == w.b), "colour kept");
    if (f == 8 && fmt == 8) ASSERT(g.nir == w.nir, "NIR kept");
    // the converted point is a point of the new format in every respect
    Point c(p);
    ASSERT(sameAt(snap(c), g), "copy of a converted point");
    std::stringstream ss;
    p.X(0); p.Y(0); p.Z(0);
    p.Pack(ss, Vector3(1, 1, 1), Vector3(0, 0, 0));
    ASSERT(ss.str().size() == (size_t)(baseSize(f) + eb), "packed size follows the format");
    OBS("len", g.len);
    REACH("done");
}

// records with many extra bytes: every byte takes part in copying, comparison and conversion
extern "C" void C06_wide(void)
{
    static const int EBS[] = {255, 256, 257, 300, 1000};
    int fmt = 6 + sym_choose("fmt", 3), eb = EBS[sym_choose("eb", 5)];
    Point p(fmt, eb);
    std::vector<uint8_t> v(eb);
    for (int i = 0; i < eb; i++) v[i] = (uint8_t)(i * 7 + 3);
    int at[] = {0, 1, 254, 255 < eb ? 255 : 253, 256 < eb ? 256 : 252, eb - 2, eb - 1};
    int pos = at[sym_choose("pos", 7)];
    v[pos] = symU8("v");
    p.ExtraBytes(v);
    Point c(p);
    ASSERT(sameAt(snap(c), snap(p)) && sameEb(snap(c).eb, v), "copy has every extra byte");
    ASSERT(c == p && !(c != p), "a copy equals the original");
    uint8_t o = symU8("o");
    auto w = v;
    w[pos] = o;
    c.ExtraBytes(w);
    bool e = c == p, same = o == v[pos];
    ASSERT(e == same, "every extra byte takes part in equality");
    ASSERT((p == c) == same && (p != c) != same, "symmetrically");
    Point d(6, 0);
    d = c;
    ASSERT(sameAt(snap(d), snap(c)), "assignment has every extra byte");
    int to = 6 + sym_choose("to", 3);
    c.ToPointFormat(to);
    At g = snap(c);
    ASSERT(g.fmt == to && g.len == (uint32_t)(baseSize(to) + eb) && c.EbByteSize() == eb && sameEb(g.eb, w), "conversion keeps every extra byte");
    Point x(fmt, eb + 256);
    x.ExtraBytes(std::vector<uint8_t>(eb + 256));
    ASSERT(!(x == p) && x != p, "another length is another point");
    OBS("e", e);
    REACH(e ? "eq" : "done");
}
