// C02: key equality, hash and construction
#include "h.h"
#include <copc-lib/hierarchy/key.hpp>
using namespace copc;
extern "C" void C02_eq(void)
{
    VoxelKey a(symI32("d"), symI32("x"), symI32("y"), symI32("z")), b(symI32("d2"), symI32("x2"), symI32("y2"), symI32("z2"));
    bool same = all(a.d == b.d, a.x == b.x, a.y == b.y, a.z == b.z);
    bool e = a == b;
    ASSERT(e == same, "== iff all components equal");
    ASSERT((b == a) == same, "== symmetric");
    ASSERT((a != b) == !same, "!= negates ==");
    bool valid = all(a.d >= 0, a.x >= 0, a.y >= 0, a.z >= 0);
    ASSERT(a.IsValid() == valid, "valid iff no negative component");
    OBS("e", e);
    REACH("done");
}
extern "C" void C02_hash(void)
{
    VoxelKey a(symI32("d"), symI32("x"), symI32("y"), symI32("z"));
    VoxelKey c;
    c.d = a.d; c.x = a.x; c.y = a.y; c.z = a.z;
    VoxelKey k3(a);
    std::hash<VoxelKey> h;
    ASSERT(h(a) == h(c), "equal keys hash equally");
    ASSERT(h(a) == h(k3), "copies hash equally");
    VoxelKey b(symI32("d2"), symI32("x2"), symI32("y2"), symI32("z2"));
    if (a == b) { ASSERT(h(a) == h(b), "keys that compare equal hash equally"); REACH("eq"); }
    REACH("done");
}
extern "C" void C02_ctor(void)
{
    int n = sym_choose("n", sym_param("N", 9));
    std::vector<int32_t> v;
    for (int i = 0; i < n; i++) v.push_back(symI32("v"));
    VoxelKey k;
    bool t = throws([&] { k = VoxelKey(v); });
    ASSERT(t == (n != 4), "lists of length other than four are rejected");
    if (!t)
    {
        ASSERT(all(k.d == v[0], k.x == v[1], k.y == v[2], k.z == v[3]), "list order is d,x,y,z");
        OBS("kx", k.x);
        REACH("done");
    }
    else
        REACH("rejected");
    VoxelKey dflt;
    ASSERT(!dflt.IsValid() && dflt == VoxelKey::InvalidKey() && !VoxelKey::InvalidKey().IsValid(), "default key is the invalid key");
    VoxelKey q(symI32("a"), symI32("b"), symI32("c"), symI32("e"));
    VoxelKey r(q);
    ASSERT(all(r.d == q.d, r.x == q.x, r.y == q.y, r.z == q.z), "copy");
}
