// C01: voxel keys form a consistent octree
#include "h.h"
#include <copc-lib/hierarchy/key.hpp>
using namespace copc;
static bool eq(const VoxelKey &a, int32_t d, int32_t x, int32_t y, int32_t z) { return all(a.d == d, a.x == x, a.y == y, a.z == z); }
static int32_t sh(int32_t v, int k) { return k >= 31 ? 0 : v >> k; }
static bool neg(const VoxelKey &k) { return ((k.d | k.x | k.y | k.z) >> 31) != 0; }

extern "C" void C01_children(void)
{
    VoxelKey k(symI32("d"), symI32("x"), symI32("y"), symI32("z"));
    const int32_t L = 1 << 30;
    ASSUME(all(k.d >= 0, k.d < 0x7fffffff, k.x >= 0, k.x < L, k.y >= 0, k.y < L, k.z >= 0, k.z < L));
    auto ch = k.GetChildren();
    ASSERT(ch.size() == 8, "eight children");
    unsigned seen = 0;
    for (int i = 0; i < 8; i++)
    {
        ASSERT(all(ch[i].d == k.d + 1, (ch[i].x >> 1) == k.x, (ch[i].y >> 1) == k.y, (ch[i].z >> 1) == k.z), "child is one level deeper inside the key");
        unsigned bit = (ch[i].x & 1) | (ch[i].y & 1) << 1 | (ch[i].z & 1) << 2;
        seen |= 1u << bit;
        VoxelKey p = ch[i].GetParent();
        ASSERT(eq(p, k.d, k.x, k.y, k.z), "child's parent is the key");
        for (int j = 0; j < i; j++) ASSERT(!eq(ch[i], ch[j].d, ch[j].x, ch[j].y, ch[j].z), "children distinct");
    }
    ASSERT(seen == 0xff, "all eight bit combinations");
    uint64_t dir = symU64("dir");
    ASSUME(dir < 8);
    VoxelKey b = k.Bisect(dir);
    ASSERT(all(b.d == k.d + 1, (b.x >> 1) == k.x, (b.y >> 1) == k.y, (b.z >> 1) == k.z), "bisect gives a child");
    ASSERT(eq(b.GetParent(), k.d, k.x, k.y, k.z), "bisect's parent is the key");
    uint64_t dir2 = symU64("dir2");
    ASSUME(all(dir2 < 8, dir2 != dir));
    VoxelKey b2 = k.Bisect(dir2);
    ASSERT(!eq(b, b2.d, b2.x, b2.y, b2.z), "different directions, different children");
    OBS("bx", b.x);
    OBS("by", b.y);
    OBS("bz", b.z);
    REACH("done");
}
extern "C" void C01_parent(void)
{
    VoxelKey k(symI32("d"), symI32("x"), symI32("y"), symI32("z"));
    VoxelKey p = k.GetParent();
    if (neg(k)) { ASSERT(!p.IsValid(), "invalid key has no valid parent"); REACH("invalid"); }
    else if (k.d == 0) { ASSERT(!p.IsValid(), "root has no valid parent"); REACH("root"); }
    else { ASSERT(eq(p, k.d - 1, k.x >> 1, k.y >> 1, k.z >> 1), "parent halves the index"); REACH("done"); }
    ASSERT(VoxelKey::RootKey().IsValid() && eq(VoxelKey::RootKey(), 0, 0, 0, 0), "root key");
}
extern "C" void C01_parents(void)
{
    VoxelKey k(symI32("d"), symI32("x"), symI32("y"), symI32("z"));
    int D = sym_param("D", 12), at = sym_param("at", 0);
    if (at) ASSUME(k.d == at);
    else ASSUME(k.d <= D);
    bool self = sym_param("self", 0);
    auto ps = k.GetParents(self);
    if (neg(k)) { ASSERT(ps.empty(), "invalid key: no parents"); REACH("invalid"); return; }
    ASSERT(ps.size() == (size_t)(k.d + (self ? 1 : 0)), "number of parents");
    for (size_t i = 0; i < ps.size(); i++)
    {
        int up = (int)i + (self ? 0 : 1);
        ASSERT(eq(ps[i], k.d - up, sh(k.x, up), sh(k.y, up), sh(k.z, up)), "parents in order up to the root");
    }
    if (ps.size()) OBS("last.x", ps.back().x);
    OBS("n", ps.size());
    REACH("done");
}
extern "C" void C01_atdepth(void)
{
    int k = sym_choose("k", sym_param("K", 40));
    int32_t dep = symI32("depth"), x = symI32("x"), y = symI32("y"), z = symI32("z");
    ASSUME(all(dep >= 0, dep <= 0x7fffffff - k, x >= 0, y >= 0, z >= 0));
    VoxelKey key(dep + k, x, y, z);
    VoxelKey p = key.GetParentAtDepth(dep);
    ASSERT(eq(p, dep, sh(x, k), sh(y, k), sh(z, k)), "parent at depth = repeated parent");
    OBS("px", p.x);
    REACH("done");
}
extern "C" void C01_atdepth_err(void)
{
    VoxelKey key(symI32("d"), symI32("x"), symI32("y"), symI32("z"));
    int32_t dep = symI32("depth");
    ASSUME((neg(key) | (dep < 0) | (dep > key.d)));
    bool inv = neg(key);
    VoxelKey p = VoxelKey::RootKey();
    bool t = throws([&] { p = key.GetParentAtDepth(dep); });
    if (inv) { ASSERT(t || !p.IsValid(), "invalid key: no valid parent at any depth"); REACH("invalid"); }
    else { ASSERT(t, "out-of-range depth rejected"); REACH("done"); }
}
extern "C" void C01_childof(void)
{
    VoxelKey k(symI32("d"), symI32("x"), symI32("y"), symI32("z")), o(symI32("od"), symI32("ox"), symI32("oy"), symI32("oz"));
    int D = sym_param("D", 8), at = sym_param("at", 0);
    if (at) ASSUME(k.d == at);
    else ASSUME(k.d <= D);
    bool r = k.ChildOf(o);
    if (neg(k)) { ASSERT(!r, "invalid key is a child of nothing"); REACH("invalid"); return; }
    if (r)
    {
        ASSERT(!neg(o) && o.d <= k.d, "ancestor valid and not deeper");
        int n = k.d - o.d;
        ASSERT(all((n >= 31 ? 0 : k.x >> n) == o.x, (n >= 31 ? 0 : k.y >> n) == o.y, (n >= 31 ? 0 : k.z >> n) == o.z), "is an ancestor or itself");
        REACH("yes");
    }
    else
    {
        int n = (k.d - o.d) & 63;
        int m = n > 31 ? 31 : n;
        bool anc = all(o.d >= 0, o.d <= k.d, (k.x >> m) == o.x, (k.y >> m) == o.y, (k.z >> m) == o.z);
        ASSERT(!anc, "every ancestor counts");
        REACH("no");
    }
    OBS("r", r);
}
