// C08: Box predicates
#include "h.h"
#include <copc-lib/geometry/box.hpp>
#include <limits>
using namespace copc;
static const double INF = std::numeric_limits<double>::infinity(), MX = std::numeric_limits<double>::max();
static Box raw(const char *p, bool order)
{
    Box b;
    std::string s(p);
    b.x_min = symF64((s + "x0").c_str()); b.y_min = symF64((s + "y0").c_str()); b.z_min = symF64((s + "z0").c_str());
    b.x_max = symF64((s + "x1").c_str()); b.y_max = symF64((s + "y1").c_str()); b.z_max = symF64((s + "z1").c_str());
    ASSUME(all(b.x_min == b.x_min, b.x_max == b.x_max, b.y_min == b.y_min, b.y_max == b.y_max, b.z_min == b.z_min, b.z_max == b.z_max));
    if (order) ASSUME(all(b.x_min <= b.x_max, b.y_min <= b.y_max, b.z_min <= b.z_max));
    return b;
}
static bool in(double v, double a, double b) { return (a <= v) & (v <= b); }
static bool bitsBox(const Box &b, double a, double c, double d, double e, double f, double g)
{
    return all(sameBits(b.x_min, a), sameBits(b.y_min, c), sameBits(b.z_min, d), sameBits(b.x_max, e), sameBits(b.y_max, f), sameBits(b.z_max, g));
}
extern "C" void C08_contains(void)
{
    Box a = raw("a", true), b = raw("b", true);
    Vector3 p(symF64("px"), symF64("py"), symF64("pz"));
    ASSUME(all(p.x == p.x, p.y == p.y, p.z == p.z));
    bool c = a.Contains(b);
    bool want = all(a.x_min <= b.x_min, b.x_max <= a.x_max, a.y_min <= b.y_min, b.y_max <= a.y_max, a.z_min <= b.z_min, b.z_max <= a.z_max);
    ASSERT(c == want, "contains box");
    ASSERT(b.Within(a) == want, "within is the converse");
    bool cp = a.Contains(p);
    bool wp = all(in(p.x, a.x_min, a.x_max), in(p.y, a.y_min, a.y_max), in(p.z, a.z_min, a.z_max));
    ASSERT(cp == wp, "contains point");
    OBS("c", c);
    OBS("cp", cp);
    REACH("done");
}
extern "C" void C08_intersects(void)
{
    Box a = raw("a", true), b = raw("b", true);
    bool i = a.Intersects(b);
    bool want = all(a.x_min <= b.x_max, b.x_min <= a.x_max, a.y_min <= b.y_max, b.y_min <= a.y_max, a.z_min <= b.z_max, b.z_min <= a.z_max);
    ASSERT(i == want, "intersects is closed-interval overlap");
    ASSERT(b.Intersects(a) == want, "intersects symmetric");
    OBS("i", i);
    REACH("done");
}
extern "C" void C08_laws(void)
{
    Box a = raw("a", true), b = raw("b", true), c = raw("c", true);
    Vector3 p(symF64("px"), symF64("py"), symF64("pz"));
    ASSERT(a.Contains(a) && a.Within(a) && a.Intersects(a), "reflexive");
    bool ab = a.Contains(b), bc = b.Contains(c);
    if (ab && bc) { ASSERT(a.Contains(c), "contains transitive"); REACH("trans"); }
    bool ap = a.Contains(p), bp = b.Contains(p);
    if (ap && bp) { ASSERT(a.Intersects(b), "sharing a point implies intersecting"); REACH("share"); }
    if (ab && bp) ASSERT(ap, "contained box's points are contained");
    REACH("done");
}
extern "C" void C08_ctor6(void)
{
    double v[6];
    for (double &d : v) { d = symF64("v"); ASSUME(d == d); }
    bool bad = (v[3] < v[0]) | (v[4] < v[1]) | (v[5] < v[2]);
    int how = sym_choose("how", 3);
    Box b;
    bool t = throws([&] {
        if (how == 0) b = Box(v[0], v[1], v[2], v[3], v[4], v[5]);
        else if (how == 1) b = Box(Vector3(v[0], v[1], v[2]), Vector3(v[3], v[4], v[5]));
        else b = Box(std::vector<double>{v[0], v[1], v[2], v[3], v[4], v[5]});
    });
    ASSERT(t == bad, "rejected exactly when a minimum exceeds its maximum");
    if (!t) { ASSERT(bitsBox(b, v[0], v[1], v[2], v[3], v[4], v[5]), "bounds kept"); REACH("done"); }
    else REACH("rejected");
}
extern "C" void C08_ctor4(void)
{
    double v[4];
    for (double &d : v) { d = symF64("v"); ASSUME(d == d); }
    bool bad = (v[2] < v[0]) | (v[3] < v[1]);
    int how = sym_choose("how", 2);
    Box b;
    bool t = throws([&] {
        if (how == 0) b = Box(v[0], v[1], v[2], v[3]);
        else b = Box(std::vector<double>{v[0], v[1], v[2], v[3]});
    });
    ASSERT(t == bad, "2D box rejected exactly when a minimum exceeds its maximum");
    if (t) { REACH("rejected"); return; }
    ASSERT(all(sameBits(b.x_min, v[0]), sameBits(b.y_min, v[1]), sameBits(b.x_max, v[2]), sameBits(b.y_max, v[3])), "2D bounds kept");
    Vector3 p(v[0], v[1], symF64("z"));
    ASSUME(finite64(p.z));
    ASSERT(b.Contains(p), "2D box spans all heights");
    REACH("done");
}
extern "C" void C08_misc(void)
{
    int n = sym_choose("n", sym_param("N", 9));
    std::vector<double> v;
    for (int i = 0; i < n; i++) v.push_back(symF64("v"));
    if (n != 4 && n != 6) { ASSERT(throws([&] { Box b(v); }), "lists not of length 4 or 6 rejected"); REACH("len"); }
    Box m = Box::MaxBox();
    Vector3 p(symF64("px"), symF64("py"), symF64("pz"));
    ASSUME(all(finite64(p.x), finite64(p.y), finite64(p.z)));
    ASSERT(m.Contains(p), "the maximal box contains every finite point");
    Box e = Box::EmptyBox();
    ASSERT(bitsBox(e, 0, 0, 0, 0, 0, 0), "empty box");
    REACH("done");
}

// the same relations with the bounds from a small set of values on one axis, so that they are decided even
// when an implementation computes with them (sums, differences, centres) rather than compares them
static double special()
{
    static const double T[16] = {-INF, -MX, -1e300, -3, -1, -5e-324, 0, 5e-324, 1e-9, 1, 1.0000000000000002, 2, 3, 9007199254740993.0, MX, INF};
    uint32_t i = symU8("i") & 15;
    return T[i];
}
extern "C" void C08_table(void)
{
    int ax = sym_choose("axis", 3);
    double v[5];
    for (double &d : v) d = special();
    ASSUME((v[0] <= v[1]) & (v[2] <= v[3]));
    auto box = [&](double lo, double hi) {
        double l[3] = {-1, -1, -1}, h[3] = {1, 1, 1};
        l[ax] = lo;
        h[ax] = hi;
        return Box(l[0], l[1], l[2], h[0], h[1], h[2]);
    };
    Box a = box(v[0], v[1]), b = box(v[2], v[3]);
    Vector3 p(0, 0, 0);
    (ax == 0 ? p.x : ax == 1 ? p.y : p.z) = v[4];
    bool i = a.Intersects(b), c = a.Contains(b), w = b.Within(a), cp = a.Contains(p);
    ASSERT(i == all(v[0] <= v[3], v[2] <= v[1]), "intersects is closed-interval overlap");
    ASSERT(b.Intersects(a) == all(v[0] <= v[3], v[2] <= v[1]), "intersects symmetric");
    ASSERT(c == all(v[0] <= v[2], v[3] <= v[1]), "contains box");
    ASSERT(w == all(v[0] <= v[2], v[3] <= v[1]), "within is the converse");
    ASSERT(cp == in(v[4], v[0], v[1]), "contains point");
    OBS("i", i);
    OBS("c", c);
    OBS("cp", cp);
    REACH("done");
}
