// C26: Vector3 arithmetic
#include "h.h"
#include <copc-lib/geometry/vector3.hpp>
using namespace copc;
static bool is3(const Vector3 &v, double x, double y, double z) { return all(sameBits(v.x, x), sameBits(v.y, y), sameBits(v.z, z)); }
// results: NaN payloads are outside IEEE's guarantees
static bool sb(double a, double b) { return (bitsOf(a) == bitsOf(b)) | ((a != a) & (b != b)); }
static bool res3(const Vector3 &v, double x, double y, double z) { return all(sb(v.x, x), sb(v.y, y), sb(v.z, z)); }
extern "C" void C26_ops(void)
{
    Vector3 a(symF64("ax"), symF64("ay"), symF64("az")), b(symF64("bx"), symF64("by"), symF64("bz"));
    double d = symF64("d");
    Vector3 a0(a), b0(b);
    double d0 = d;
    ASSERT(res3(a + b, a.x + b.x, a.y + b.y, a.z + b.z), "v+v");
    ASSERT(res3(a - b, a.x - b.x, a.y - b.y, a.z - b.z), "v-v");
    ASSERT(res3(a * b, a.x * b.x, a.y * b.y, a.z * b.z), "v*v");
    ASSERT(res3(a / b, a.x / b.x, a.y / b.y, a.z / b.z), "v/v");
    ASSERT(res3(a + d, a.x + d, a.y + d, a.z + d), "v+s");
    ASSERT(res3(a - d, a.x - d, a.y - d, a.z - d), "v-s");
    ASSERT(res3(a * d, a.x * d, a.y * d, a.z * d), "v*s");
    ASSERT(res3(a / d, a.x / d, a.y / d, a.z / d), "v/s");
    ASSERT(is3(a, a0.x, a0.y, a0.z) && is3(b, b0.x, b0.y, b0.z) && sameBits(d, d0), "operands unchanged");
    // aliasing
    ASSERT(res3(a - a, a.x - a.x, a.y - a.y, a.z - a.z) && res3(a * a.y, a.x * a.y, a.y * a.y, a.z * a.y) && res3(a / a.x, a.x / a.x, a.y / a.x, a.z / a.x), "aliased operands");
    OBS("sum", bitsOf((a + b).x));
    OBS("prod", bitsOf((a * b).y));
    REACH("done");
}
extern "C" void C26_eq(void)
{
    Vector3 a(symF64("ax"), symF64("ay"), symF64("az")), b(symF64("bx"), symF64("by"), symF64("bz"));
    bool e = a == b;
    bool want = all(a.x == b.x, a.y == b.y, a.z == b.z);
    ASSERT(e == want, "== iff all components equal");
    ASSERT((a != b) == !want, "!= negates ==");
    ASSERT((b == a) == want, "symmetric");
    OBS("e", e);
    REACH("done");
}
extern "C" void C26_ctor(void)
{
    int n = sym_choose("n", sym_param("N", 8));
    std::vector<double> v;
    for (int i = 0; i < n; i++) v.push_back(symF64("v"));
    Vector3 r(1, 2, 3);
    bool t = throws([&] { r = Vector3(v); });
    ASSERT(t == (n != 3), "lists of length other than three are rejected");
    if (!t)
    {
        ASSERT(is3(r, v[0], v[1], v[2]), "components in order");
        REACH("done");
    }
    Vector3 s = Vector3::DefaultScale(), o = Vector3::DefaultOffset(), z;
    ASSERT(is3(s, 0.01, 0.01, 0.01), "default scale");
    ASSERT(is3(o, 0, 0, 0), "default offset");
    ASSERT(is3(z, 0, 0, 0), "default vector");
    Vector3 w(symF64("x"), symF64("y"), symF64("z")), c(w);
    ASSERT(is3(c, w.x, w.y, w.z), "copy");
    Vector3 as(9, 9, 9);
    as = w;
    ASSERT(is3(as, w.x, w.y, w.z), "assignment");
}
