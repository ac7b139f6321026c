// C04: coordinate quantisation
#include "pt.h"
#include <copc-lib/las/header.hpp>
#include <copc-lib/las/points.hpp>
using namespace copc;
using las::LasHeader;
static const double SC[] = {0.01, 0.001, 1, 0.1, 0.0001, 0.5, 2, 1e-7, 0.00025, 3, 1e-5, 0.3048, 12.5, 100};
static double pickAx(const Vector3 &v, int ax) { return ax == 0 ? v.x : ax == 1 ? v.y : v.z; }
// round to nearest, halves away from zero, without the implementation's own call
static double refStored(double v, double s, double o) { return std::round((v - o) / s); }
static bool fits(double n) { return n >= -2147483648.0 && n <= 2147483647.0; }
// one coordinate (axis ax) stored through the point's record; others stay representable
static bool storePoint(double v, int ax, const Vector3 &s, const Vector3 &o, int32_t &n)
{
    Point p(6, 0);
    p.X(ax == 0 ? v : o.x); p.Y(ax == 1 ? v : o.y); p.Z(ax == 2 ? v : o.z);
    std::stringstream ss;
    if (throws([&] { p.Pack(ss, s, o); })) return false;
    n = (int32_t)rdLE(ss.str().data(), 4 * ax, 4);
    return true;
}
static bool storeHeader(double v, int ax, const Vector3 &s, const Vector3 &o, int32_t &n)
{
    LasHeader h(6, 30, s, o, true);
    return !throws([&] { n = ax == 0 ? h.RemoveScaleX(v) : ax == 1 ? h.RemoveScaleY(v) : h.RemoveScaleZ(v); });
}
// every coordinate, scale and offset: stored value is the rounded quotient, or rejected
extern "C" void C04_store(void)
{
    int ax = sym_choose("axis", 3), how = sym_choose("how", 2);
    double v = symF64("v"), s = symF64("s"), o = symF64("o");
    ASSUME(all(finite64(o), finite64(s), s > 0));
    Vector3 S(1, 1, 1), O(0, 0, 0);
    (ax == 0 ? S.x : ax == 1 ? S.y : S.z) = s;
    (ax == 0 ? O.x : ax == 1 ? O.y : O.z) = o;
    double n = refStored(v, s, o);
    int32_t got = 0;
    bool ok = how ? storeHeader(v, ax, S, O, got) : storePoint(v, ax, S, O, got);
    ASSERT(ok == fits(n), "rejected exactly when the nearest stored value is NaN or does not fit 32 bits");
    if (!ok) { REACH("rejected"); return; }
    ASSERT(got == (int32_t)n, "stores the nearest multiple of the scale");
    OBS("n", (uint32_t)got);
    REACH("done");
}
// stored value within half a scale step (independent of the formula), for a list of scales
extern "C" void C04_nearest(void)
{
    int ax = sym_choose("axis", 3);
    double s = SC[sym_choose("scale", (int)sym_param("S", 3))];
    double v = symF64("v"), o = symF64("o");
    double B = 1e9 * s;
    ASSUME(all(v >= -B, v <= B, o >= -B, o <= B));
    Vector3 S(1, 1, 1), O(0, 0, 0);
    (ax == 0 ? S.x : ax == 1 ? S.y : S.z) = s;
    (ax == 0 ? O.x : ax == 1 ? O.y : O.z) = o;
    int32_t n = 0;
    bool ok = storePoint(v, ax, S, O, n);
    ASSERT(ok, "representable coordinates are accepted");
    double d = (double)n * s + o - v;
    ASSERT(d <= 0.501 * s && d >= -0.501 * s, "stored value is within half a step");
    REACH("done");
}
extern "C" void C04_read(void)
{
    Vector3 s(symF64("sx"), symF64("sy"), symF64("sz")), o(symF64("ox"), symF64("oy"), symF64("oz"));
    char rec[30];
    sym_bytes(rec, 30, "rec");
    std::stringstream in(std::string(rec, 30));
    auto p = Point::Unpack(in, 6, s, o, 0);
    double x = (double)(int32_t)rdLE(rec, 0, 4) * s.x + o.x, y = (double)(int32_t)rdLE(rec, 4, 4) * s.y + o.y, z = (double)(int32_t)rdLE(rec, 8, 4) * s.z + o.z;
    ASSERT(all(sameF(p->X(), x), sameF(p->Y(), y), sameF(p->Z(), z)), "read coordinate is raw * scale + offset on its axis");
    LasHeader h(7, 36, s, o, false);
    double a = symF64("a"), b = symF64("b"), c = symF64("c");
    Vector3 w = h.ApplyScale(Vector3(a, b, c));
    ASSERT(all(sameF(w.x, a * s.x + o.x), sameF(w.y, b * s.y + o.y), sameF(w.z, c * s.z + o.z)), "ApplyScale per axis");
    ASSERT(all(sameF(h.ApplyScaleX(a), a * s.x + o.x), sameF(h.ApplyScaleY(b), b * s.y + o.y), sameF(h.ApplyScaleZ(c), c * s.z + o.z)), "ApplyScaleX/Y/Z");
    Vector3 u = h.ApplyInverseScale(Vector3(a, b, c));
    ASSERT(all(sameF(u.x, (a - o.x) / s.x), sameF(u.y, (b - o.y) / s.y), sameF(u.z, (c - o.z) / s.z)), "ApplyInverseScale inverts the formula");
    OBS("x", bitsOf(p->X()));
    REACH("done");
}
// raw -> coordinate -> raw is the identity
extern "C" void C04_restore(void)
{
    int ax = sym_choose("axis", 3), how = sym_choose("how", 2);
    double s = SC[sym_choose("scale", (int)sym_param("S", 3))];
    int32_t raw = symI32("raw");
    double o = symF64("o");
    double B = 1e10 * s;
    ASSUME(all(o >= -B, o <= B));
    Vector3 S(1, 1, 1), O(0, 0, 0);
    (ax == 0 ? S.x : ax == 1 ? S.y : S.z) = s;
    (ax == 0 ? O.x : ax == 1 ? O.y : O.z) = o;
    double v;
    if (how)
    {
        LasHeader h(6, 30, S, O, true);
        v = ax == 0 ? h.ApplyScaleX(raw) : ax == 1 ? h.ApplyScaleY(raw) : h.ApplyScaleZ(raw);
    }
    else
    {
        char rec[30] = {0};
        wrLE(rec, 4 * ax, 4, (uint32_t)raw);
        std::stringstream in(std::string(rec, 30));
        auto p = Point::Unpack(in, 6, S, O, 0);
        v = ax == 0 ? p->X() : ax == 1 ? p->Y() : p->Z();
    }
    int32_t n = 0;
    bool ok = how ? storeHeader(v, ax, S, O, n) : storePoint(v, ax, S, O, n);
    ASSERT(ok, "re-storing is accepted");
    ASSERT(n == raw, "re-stored coordinate is unchanged");
    REACH("done");
}
