// C09: voxel bounds and key predicates
#include "h.h"
#include <copc-lib/copc/info.hpp>
#include <copc-lib/geometry/box.hpp>
#include <copc-lib/hierarchy/key.hpp>
#include <copc-lib/las/header.hpp>
using namespace copc;
static las::LasHeader hdr(double B)
{
    las::LasHeader h;
    h.min = Vector3(symF64("minx"), symF64("miny"), symF64("minz"));
    h.max = Vector3(symF64("maxx"), symF64("maxy"), symF64("maxz"));
    ASSUME(all(h.min.x >= -B, h.min.y >= -B, h.min.z >= -B, h.max.x <= B, h.max.y <= B, h.max.z <= B));
    ASSUME(all(h.min.x <= h.max.x, h.min.y <= h.max.y, h.min.z <= h.max.z));
    return h;
}
static double span(const las::LasHeader &h)
{
    double a = h.max.x - h.min.x, b = h.max.y - h.min.y, c = h.max.z - h.min.z, m = a;
    if (b > m) m = b;
    if (c > m) m = c;
    return m;
}
static bool near(double got, double want, double tol)
{
    double d = got - want;
    return sameF(got, want) | ((d <= tol) & (d >= -tol));
}
struct Ref { double x0, y0, z0, x1, y1, z1; };
static Ref ref(const las::LasHeader &h, const VoxelKey &k, double pw)
{
    double step = span(h) / pw;
    Ref r;
    r.x0 = step * k.x + h.min.x; r.y0 = step * k.y + h.min.y; r.z0 = step * k.z + h.min.z;
    r.x1 = r.x0 + step; r.y1 = r.y0 + step; r.z1 = r.z0 + step;
    return r;
}
static double pow2(int d)
{
    double p = 1;
    for (int i = 0; i < d; i++) p *= 2;
    return p;
}
static VoxelKey key(int D)
{
    static const int DEEP[] = {10, 16, 20, 30, 31, 32, 33, 40, 62, 64, 100};
    int d = sym_choose("d", D + 11);
    if (d >= D) d = DEEP[d - D];
    VoxelKey k(d, symI32("kx"), symI32("ky"), symI32("kz"));
    ASSUME(k.IsValid());
    return k;
}
extern "C" void C09_box(void)
{
    las::LasHeader h = hdr(1e12);
    VoxelKey k = key((int)sym_param("D", 6));
    Ref r = ref(h, k, pow2(k.d));
    Box b(k, h);
    double tol = 1e-9 * (span(h) + 1);
    ASSERT(all(near(b.x_min, r.x0, tol), near(b.y_min, r.y0, tol), near(b.z_min, r.z0, tol)), "minimum is header minimum + index * step on each axis");
    ASSERT(all(near(b.x_max, r.x1, tol), near(b.y_max, r.y1, tol), near(b.z_max, r.z1, tol)), "maximum is one step more on each axis");
    ASSERT(near(h.Span(), span(h), 0), "span is the largest extent");
    OBS("x0", bitsOf(b.x_min));
    REACH("done");
}
extern "C" void C09_pred(void)
{
    static const double MN[3][3] = {{0, 0, 0}, {-10, 5, -300.5}, {1e6, -2e6, 10}}, MX[3][3] = {{8, 8, 8}, {6, 7, -290.5}, {1e6 + 100, -2e6 + 300, 50}};
    static const int K[9][4] = {{0, 0, 0, 0}, {1, 0, 1, 0}, {33, 9, 0, 1 << 30}, {1, 1, 0, 1}, {2, 3, 1, 2}, {3, 7, 0, 4}, {5, 31, 30, 1}, {10, 1000, 3, 512}, {2, 5, 6, 7}};
    int hi = sym_choose("header", (int)sym_param("H", 2)), ki = sym_choose("key", (int)sym_param("K", 4));
    las::LasHeader h;
    h.min = Vector3(MN[hi][0], MN[hi][1], MN[hi][2]);
    h.max = Vector3(MX[hi][0], MX[hi][1], MX[hi][2]);
    VoxelKey k(K[ki][0], K[ki][1], K[ki][2], K[ki][3]);
    Box b(k, h);
    Box q;
    q.x_min = symF64("qx0"); q.y_min = symF64("qy0"); q.z_min = symF64("qz0");
    q.x_max = symF64("qx1"); q.y_max = symF64("qy1"); q.z_max = symF64("qz1");
    ASSUME(all(q.x_min <= q.x_max, q.y_min <= q.y_max, q.z_min <= q.z_max));
    Vector3 p(symF64("px"), symF64("py"), symF64("pz"));
    ASSUME(all(p.x == p.x, p.y == p.y, p.z == p.z));
    bool wi = all(b.x_min <= q.x_max, q.x_min <= b.x_max, b.y_min <= q.y_max, q.y_min <= b.y_max, b.z_min <= q.z_max, q.z_min <= b.z_max);
    bool wc = all(b.x_min <= q.x_min, q.x_max <= b.x_max, b.y_min <= q.y_min, q.y_max <= b.y_max, b.z_min <= q.z_min, q.z_max <= b.z_max);
    bool ww = all(q.x_min <= b.x_min, b.x_max <= q.x_max, q.y_min <= b.y_min, b.y_max <= q.y_max, q.z_min <= b.z_min, b.z_max <= q.z_max);
    bool wp = all(b.x_min <= p.x, p.x <= b.x_max, b.y_min <= p.y, p.y <= b.y_max, b.z_min <= p.z, p.z <= b.z_max);
    ASSERT(k.Intersects(h, q) == wi, "intersects is the voxel box's");
    ASSERT(k.Contains(h, q) == wc, "contains box is the voxel box's");
    ASSERT(k.Contains(h, p) == wp, "contains point is the voxel box's");
    ASSERT(k.Within(h, q) == ww, "within is the voxel box's");
    ASSERT(k.Crosses(h, q) == (wi && !ww), "crosses is intersecting without being within");
    OBS("i", wi);
    REACH("done");
}
// the eight children of a voxel halve it; siblings touch without overlapping (up to rounding)
static bool close(double got, double want, double tol)
{
    double d = got - want;
    return (d <= tol) & (d >= -tol);
}
// the cube is as wide as the header's longest side, however short
extern "C" void C09_span(void)
{
    las::LasHeader h = hdr(1e12);
    double a = h.max.x - h.min.x, b = h.max.y - h.min.y, c = h.max.z - h.min.z, s = h.Span();
    ASSERT(s >= a & s >= b & s >= c, "no side is longer than the cube");
    ASSERT(s == a | s == b | s == c, "the cube is as long as a side");
    OBS("s", bitsOf(s));
    REACH("done");
}
extern "C" void C09_tile(void)
{
    double B = 1e7;
    las::LasHeader h;
    h.min = Vector3(symF64("minx"), 0, 0);
    h.max = Vector3(symF64("maxx"), 1, 1);
    ASSUME(all(h.min.x >= -B, h.max.x <= B, h.max.x - h.min.x >= 2));
    int d = sym_choose("d", (int)sym_param("D", 3));
    int x = sym_choose("kx", 1 << d);
    VoxelKey k(d, x, 0, 0);
    Box b(k, h);
    double mid = (b.x_min + b.x_max) / 2;
    std::vector<VoxelKey> ch = k.GetChildren();
    ASSERT(ch.size() == 8, "eight children");
    double tol = 1e-6;
    int lo = 0, hi = 0;
    for (auto &c : ch)
    {
        Box cb(c, h);
        bool isLo = c.x == 2 * x;
        lo += isLo; hi += !isLo;
        if (isLo) ASSERT(close(cb.x_min, b.x_min, tol) & close(cb.x_max, mid, tol), "low children fill the low half");
        else ASSERT(close(cb.x_min, mid, tol) & close(cb.x_max, b.x_max, tol), "high children fill the high half");
    }
    ASSERT(lo == 4 && hi == 4, "four children on each side");
    Box root(VoxelKey(0, 0, 0, 0), h);
    ASSERT(close(root.x_min, h.min.x, tol) & close(root.x_max, h.max.x, tol), "root voxel is the header's cube");
    REACH("done");
}
extern "C" void C09_resolution(void)
{
    las::LasHeader h = hdr(1e12);
    CopcInfo info;
    info.spacing = symF64("spacing");
    info.halfsize = symF64("halfsize");
    VoxelKey k = key((int)sym_param("D", 32));
    double want = info.spacing / pow2(k.d);
    ASSERT(sameF(k.Resolution(h, info), want), "resolution is spacing / 2^d");
    ASSERT(sameF(VoxelKey::GetResolutionAtDepth(k.d, h, info), want), "resolution at depth");
    OBS("r", bitsOf(want));
    REACH("done");
}
