// C14: hierarchy Entry codec
#include "sym.h"
#include <copc-lib/hierarchy/entry.hpp>
#include <copc-lib/hierarchy/node.hpp>
#include <copc-lib/hierarchy/page.hpp>
#include <sstream>
using namespace copc;
extern "C" void C14_pack(void)
{
    Entry e(VoxelKey(symI32("d"), symI32("x"), symI32("y"), symI32("z")), symU64("off"), symI32("size"), symI32("cnt"));
    std::stringstream ss;
    ss.write("abc", 3);
    e.Pack(ss);
    std::string s = ss.str();
    ASSERT(s.size() == 3 + 32, "entry is 32 bytes");
    const unsigned char *p = (const unsigned char *)s.data() + 3;
    auto le = [&](int o, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)p[o + i] << (8 * i); return v; };
    ASSERT((int32_t)le(0, 4) == e.key.d && (int32_t)le(4, 4) == e.key.x && (int32_t)le(8, 4) == e.key.y && (int32_t)le(12, 4) == e.key.z, "key layout");
    ASSERT(le(16, 8) == e.offset, "offset layout");
    ASSERT((int32_t)le(24, 4) == e.byte_size && (int32_t)le(28, 4) == e.point_count, "size layout");
    ss.seekg(3);
    Entry r = Entry::Unpack(ss);
    ASSERT(r.key == e.key && r.offset == e.offset && r.byte_size == e.byte_size && r.point_count == e.point_count, "round trip");
    OBS("off", r.offset);
    REACH("done");
}
// classification and equality
static Entry any(const char *d, const char *x, const char *y, const char *z, const char *o, const char *s, const char *c)
{
    return Entry(VoxelKey(symI32(d), symI32(x), symI32(y), symI32(z)), symU64(o), symI32(s), symI32(c));
}
extern "C" void C14_class(void)
{
    Entry e = any("d", "x", "y", "z", "off", "size", "cnt");
    bool key = (e.key.d >= 0) & (e.key.x >= 0) & (e.key.y >= 0) & (e.key.z >= 0);
    bool valid = key & (e.byte_size >= 0), page = valid & (e.point_count == -1);
    ASSERT(e.IsValid() == valid, "valid exactly when the key is valid and the size is not negative");
    ASSERT(e.IsPage() == page, "a page exactly when valid with a point count of -1");
    Node n(e, VoxelKey(1, 2, 3, 4));
    ASSERT(n.IsValid() == valid && n.IsPage() == page, "the same for a node");
    ASSERT(n.key == e.key && n.offset == e.offset && n.byte_size == e.byte_size && n.point_count == e.point_count && n.page_key == VoxelKey(1, 2, 3, 4), "a node has its entry's fields and its page");
    Page p(e);
    ASSERT(!p.loaded && p.IsValid() == valid && p.IsPage() == page, "the same for a page that is not loaded");
    p.loaded = true;
    ASSERT(p.IsValid() == key, "a loaded page is valid with any size");
    Page q(e.key, 5, e.byte_size);
    ASSERT(q.IsPage() == valid && q.key == e.key && q.offset == 5 && q.byte_size == e.byte_size, "a page built from its fields");
    ASSERT(!Entry().IsValid() && !Entry().IsPage() && !Node().IsValid() && !Node().page_key.IsValid(), "default entries are invalid");
    OBS("valid", valid);
    REACH(page ? "page" : "done");
}
extern "C" void C14_equal(void)
{
    Entry a = any("d", "x", "y", "z", "off", "size", "cnt"), b = any("d2", "x2", "y2", "z2", "off2", "size2", "cnt2");
    bool same = (a.key.d == b.key.d) & (a.key.x == b.key.x) & (a.key.y == b.key.y) & (a.key.z == b.key.z) & (a.offset == b.offset) & (a.byte_size == b.byte_size) & (a.point_count == b.point_count);
    Node m(a, VoxelKey(0, 0, 0, 0)), n(b, VoxelKey(0, 0, 0, 0));
    ASSERT((m == n) == same, "nodes are equal exactly when key, offset, size and point count are");
    Page p(a), q(b);
    p.loaded = symBool("la");
    q.loaded = symBool("lb");
    ASSERT((p == q) == (same & (p.loaded == q.loaded)), "pages are equal exactly when these and the loaded state are");
    OBS("same", same);
    REACH(same ? "eq" : "done");
}
