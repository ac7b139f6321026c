// C33: the Python module exposes the C++ semantics (rt/pybind11 stands in for pybind11)
#include "hdr.h"
#include "files.h"
#include <copc-lib/laz/compressor.hpp>
#include <copc-lib/laz/decompressor.hpp>
#include <algorithm>
#include <bindings.cpp>
using py::object;
using py::F; using py::I; using py::L; using py::N; using py::S; using py::SL; using py::T; using py::U;
static void module()
{
    static bool done = false;
    if (done) return;
    done = true;
    py::module_ m;
    pybind11_init__core(m);
}
static int64_t asI(const object &o) { if (o.v->k != py::K::Int) throw py::type_error("int"); return (int64_t)o.v->i; }
static double asF(const object &o) { if (o.v->k != py::K::Float) throw py::type_error("float"); return o.v->f; }
static bool asB(const object &o) { if (o.v->k != py::K::Bool) throw py::type_error("bool"); return o.v->i & 1; }
static std::string asS(const object &o) { if (o.v->k != py::K::Str) throw py::type_error("str"); return o.v->s; }
static VoxelKey asK(const object &o) { return py::as<VoxelKey>(o); }
static Vector3 asV(const object &o) { return py::as<Vector3>(o); }
static object key(const VoxelKey &k) { return py::call("VoxelKey", {I(k.d), I(k.x), I(k.y), I(k.z)}); }
static object vec(const Vector3 &v) { return py::call("Vector3", {F(v.x), F(v.y), F(v.z)}); }
static object boxp(const Box &b) { return py::call("Box", {F(b.x_min), F(b.y_min), F(b.z_min), F(b.x_max), F(b.y_max), F(b.z_max)}); }
static bool isList(const object &o, size_t n) { return o.v->k == py::K::List && o.v->items.size() == n; }
#define RAISES(e) throws([&] { e; })
// a module whose calls fail shows as an exception: turn it into a failed assertion
template <class G> static void run(G g)
{
    module();
    bool t = false;
    try { g(); }
    catch (std::exception &) { t = true; }
    ASSERT(!t, "no call of the module raises");
}
static VoxelKey anyKey(const char *d = "d", const char *x = "x", const char *y = "y", const char *z = "z") { return VoxelKey(symI32(d), symI32(x), symI32(y), symI32(z)); }
static Vector3 anyVec(const char *x = "vx", const char *y = "vy", const char *z = "vz") { return Vector3(symF64(x), symF64(y), symF64(z)); }
static bool sameVec(const Vector3 &a, const Vector3 &b) { return all(sameF(a.x, b.x), sameF(a.y, b.y), sameF(a.z, b.z)); }

extern "C" void C33_key(void)
{
    run([] {
        VoxelKey k = anyKey();
        object o = key(k);
        ASSERT(keyEq(asK(o), k), "constructor from four integers");
        ASSERT(keyEq(asK(py::call("VoxelKey", {}, {{"z", I(k.z)}, {"y", I(k.y)}, {"x", I(k.x)}, {"d", I(k.d)}})), k), "by name");
        ASSERT(keyEq(asK(py::call("VoxelKey", {L({I(k.d), I(k.x), I(k.y), I(k.z)})})), k) & keyEq(asK(py::call("VoxelKey", {}, {{"list", T({I(k.d), I(k.x), I(k.y), I(k.z)})}})), k), "from a list");
        ASSERT(RAISES(py::call("VoxelKey", {L({I(1), I(2), I(3)})})), "of four integers");
        ASSERT(keyEq(asK(py::call("VoxelKey", {})), VoxelKey::InvalidKey()), "default");
        ASSERT(all(asI(py::get(o, "d")) == k.d, asI(py::get(o, "x")) == k.x, asI(py::get(o, "y")) == k.y, asI(py::get(o, "z")) == k.z), "attributes");
        object c = py::repickle(o);
        ASSERT(keyEq(asK(c), k) && asB(py::mcall(o, "__eq__", {c})), "pickling gives an equal key");
        ASSERT(asI(py::mcall(o, "__hash__")) == asI(py::mcall(c, "__hash__")), "and an equal hash");
        ASSERT(asB(py::mcall(o, "IsValid")) == k.IsValid(), "IsValid");
        ASSERT(keyEq(asK(py::scall("VoxelKey", "RootKey", {})), VoxelKey(0, 0, 0, 0)) && keyEq(asK(py::scall("VoxelKey", "InvalidKey", {})), VoxelKey(-1, -1, -1, -1)), "special keys");
        VoxelKey k2 = anyKey("d2", "x2", "y2", "z2");
        ASSERT(asB(py::mcall(o, "__eq__", {key(k2)})) == keyEq(k, k2), "equality");
        ASSERT(asB(py::mcall(o, "__eq__", {T({I(k2.d), I(k2.x), I(k2.y), I(k2.z)})})) == keyEq(k, k2), "and with a tuple");
        object s = key(k);
        py::set(s, "d", I(k2.d)); py::set(s, "x", I(k2.x)); py::set(s, "y", I(k2.y)); py::set(s, "z", I(k2.z));
        ASSERT(keyEq(asK(s), k2) && keyEq(asK(o), k), "assigning attributes");
        object st = T({I(k.d), I(k.x), I(k.y)});
        ASSERT(RAISES(o.v->type->setstate(st)), "states of another size are rejected");
    });
    REACH("done");
}
extern "C" void C33_tree(void)
{
    run([] {
        int d = sym_choose("d", (int)sym_param("D", 4));
        VoxelKey k = symKey(d);
        object o = key(k);
        object ch = py::mcall(o, "GetChildren");
        std::vector<VoxelKey> want = k.GetChildren();
        ASSERT(isList(ch, want.size()), "a list of children");
        for (size_t i = 0; i < want.size(); i++) ASSERT(keyEq(asK(ch.v->items[i]), want[i]) & keyEq(asK(py::mcall(o, "Bisect", {I(i)})), k.Bisect(i)), "children");
        ASSERT(keyEq(asK(py::mcall(o, "GetParent")), k.GetParent()), "parent");
        int at = sym_choose("at", d + 1);
        ASSERT(keyEq(asK(py::mcall(o, "GetParentAtDepth", {}, {{"depth", I(at)}})), k.GetParentAtDepth(at)), "parent at a depth");
        bool cur = sym_choose("cur", 2);
        object ps = py::mcall(o, "GetParents", {}, {{"include_current", py::B(cur)}});
        std::vector<VoxelKey> wp = k.GetParents(cur);
        ASSERT(isList(ps, wp.size()), "a list of parents");
        for (size_t i = 0; i < wp.size(); i++) ASSERT(keyEq(asK(ps.v->items[i]), wp[i]), "parents");
        VoxelKey q = symKey(sym_choose("qd", 3), "qx", "qy", "qz");
        ASSERT(asB(py::mcall(o, "ChildOf", {}, {{"parent_key", key(q)}})) == k.ChildOf(q), "ChildOf");
    });
    REACH("done");
}
extern "C" void C33_keybox(void)
{
    static const int K[3][4] = {{0, 0, 0, 0}, {2, 3, 1, 2}, {4, 9, 0, 15}};
    run([] {
        int ki = sym_choose("key", 3);
        VoxelKey k(K[ki][0], K[ki][1], K[ki][2], K[ki][3]);
        object h = py::call("LasHeader", {});
        py::set(h, "min", vec(Vector3(-1, 2, 5)));
        py::set(h, "max", vec(Vector3(15, 12, 6)));
        las::LasHeader w;
        w.min = Vector3(-1, 2, 5);
        w.max = Vector3(15, 12, 6);
        Box b;
        b.x_min = symF64("x0"); b.y_min = symF64("y0"); b.z_min = symF64("z0"); b.x_max = symF64("x1"); b.y_max = symF64("y1"); b.z_max = symF64("z1");
        ASSUME(all(b.x_min <= b.x_max, b.y_min <= b.y_max, b.z_min <= b.z_max));
        Vector3 p = anyVec();
        object o = key(k), bo = boxp(b), po = vec(p);
        ASSERT(asB(py::mcall(o, "Intersects", {h, bo})) == k.Intersects(w, b), "Intersects");
        ASSERT(asB(py::mcall(o, "Contains", {h, bo})) == k.Contains(w, b), "Contains a box");
        ASSERT(asB(py::mcall(o, "Contains", {h, po})) == k.Contains(w, p), "Contains a point");
        ASSERT(asB(py::mcall(o, "Within", {h, bo})) == k.Within(w, b), "Within");
        ASSERT(asB(py::mcall(o, "Crosses", {h, bo})) == k.Crosses(w, b), "Crosses");
        object info = py::call("CopcInfo", {});
        CopcInfo ci;
        ci.spacing = symF64("spacing");
        py::set(info, "spacing", F(ci.spacing));
        ASSERT(sameF(asF(py::mcall(o, "Resolution", {}, {{"las_header", h}, {"copc_header", info}})), k.Resolution(w, ci)), "Resolution");
        int d = sym_choose("depth", 5);
        ASSERT(sameF(asF(py::scall("VoxelKey", "GetResolutionAtDepth", {I(d), h, info})), VoxelKey::GetResolutionAtDepth(d, w, ci)), "at a depth");
        Box kb(k, w);
        object kbo = py::call("Box", {o, h});
        ASSERT(all(sameF(asF(py::get(kbo, "x_min")), kb.x_min), sameF(asF(py::get(kbo, "y_min")), kb.y_min), sameF(asF(py::get(kbo, "z_min")), kb.z_min), sameF(asF(py::get(kbo, "x_max")), kb.x_max),
                   sameF(asF(py::get(kbo, "y_max")), kb.y_max), sameF(asF(py::get(kbo, "z_max")), kb.z_max)), "box of a key");
    });
    REACH("done");
}
extern "C" void C33_box(void)
{
    run([] {
        double v[6];
        static const char *NM[6] = {"x_min", "y_min", "z_min", "x_max", "y_max", "z_max"};
        for (int i = 0; i < 6; i++) v[i] = symF64(NM[i]);
        bool ok = all(v[0] <= v[3], v[1] <= v[4], v[2] <= v[5]);
        object o;
        int how = sym_choose("how", 5);
        bool flat = how == 4;
        if (flat) ok = all(v[0] <= v[3], v[1] <= v[4]);
        py::kwargs_t kw;
        for (int i = 0; i < 6; i++) kw.push_back({NM[i], F(v[i])});
        bool t = throws([&] {
            if (how == 0) o = py::call("Box", {F(v[0]), F(v[1]), F(v[2]), F(v[3]), F(v[4]), F(v[5])});
            else if (how == 1) o = py::call("Box", {}, kw);
            else if (how == 2) o = py::call("Box", {vec(Vector3(v[0], v[1], v[2])), vec(Vector3(v[3], v[4], v[5]))});
            else if (how == 3) o = py::call("Box", {T({F(v[0]), F(v[1]), F(v[2]), F(v[3]), F(v[4]), F(v[5])})});
            else o = py::call("Box", {F(v[0]), F(v[1]), F(v[3]), F(v[4])});
        });
        bool want = throws([&] {
            if (flat) Box b(v[0], v[1], v[3], v[4]);
            else Box b(v[0], v[1], v[2], v[3], v[4], v[5]);
        });
        ASSERT(t == want, "rejected exactly when the C++ constructor does");
        if (t) return;
        for (int i = 0; i < 6; i++)
            if (!flat || i % 3 < 2) ASSERT(sameF(asF(py::get(o, NM[i])), v[i]), "bounds");
        Box b = flat ? Box(v[0], v[1], v[3], v[4]) : Box(v[0], v[1], v[2], v[3], v[4], v[5]);
        ASSERT(all(sameF(asF(py::get(o, "z_min")), b.z_min), sameF(asF(py::get(o, "z_max")), b.z_max)), "height");
        Box q;
        q.x_min = symF64("qx0"); q.y_min = symF64("qy0"); q.z_min = symF64("qz0"); q.x_max = symF64("qx1"); q.y_max = symF64("qy1"); q.z_max = symF64("qz1");
        ASSUME(all(q.x_min <= q.x_max, q.y_min <= q.y_max, q.z_min <= q.z_max));
        object qo = boxp(q);
        ASSERT(asB(py::mcall(o, "Intersects", {qo})) == b.Intersects(q), "Intersects");
        ASSERT(asB(py::mcall(o, "Contains", {qo})) == b.Contains(q), "Contains a box");
        ASSERT(asB(py::mcall(o, "Within", {qo})) == b.Within(q), "Within");
        Vector3 p = anyVec();
        ASSERT(asB(py::mcall(o, "Contains", {vec(p)})) == b.Contains(p), "Contains a point");
        ASSERT(asB(py::mcall(o, "Contains", {T({F(p.x), F(p.y), F(p.z)})})) == b.Contains(p), "also as a tuple");
        int w = sym_choose("which", 6);
        double nv = symF64("nv");
        py::set(o, NM[w], F(nv));
        for (int i = 0; i < 6; i++)
            if (!flat || i % 3 < 2) ASSERT(sameF(asF(py::get(o, NM[i])), i == w ? nv : v[i]), "assigning one bound");
        Box mb = Box::MaxBox(), eb = Box::EmptyBox();
        object m1 = py::scall("Box", "MaxBox", {}), e1 = py::scall("Box", "EmptyBox", {});
        ASSERT(all(asF(py::get(m1, "x_min")) == mb.x_min, asF(py::get(m1, "z_max")) == mb.z_max, sameF(asF(py::get(e1, "x_min")), eb.x_min), sameF(asF(py::get(e1, "z_max")), eb.z_max)), "special boxes");
    });
    REACH("done");
}
extern "C" void C33_vector(void)
{
    run([] {
        Vector3 a = anyVec(), b = anyVec("wx", "wy", "wz");
        double s = symF64("s");
        object o = vec(a), p = vec(b);
        ASSERT(all(sameF(asF(py::get(o, "x")), a.x), sameF(asF(py::get(o, "y")), a.y), sameF(asF(py::get(o, "z")), a.z)), "components");
        ASSERT(sameVec(asV(py::call("Vector3", {T({F(a.x), F(a.y), F(a.z)})})), a) && sameVec(asV(py::call("Vector3", {}, {{"z", F(a.z)}, {"x", F(a.x)}, {"y", F(a.y)}})), a), "constructors");
        ASSERT(sameVec(asV(py::call("Vector3", {})), Vector3()), "default");
        ASSERT(sameVec(asV(py::scall("Vector3", "DefaultScale", {})), Vector3(0.01, 0.01, 0.01)) && sameVec(asV(py::scall("Vector3", "DefaultOffset", {})), Vector3(0, 0, 0)), "defaults");
        object c = py::repickle(o);
        ASSERT(sameVec(asV(c), a), "pickling gives an equal vector");
        ASSERT(asB(py::mcall(o, "__eq__", {p})) == (a == b), "equality");
        static const char *OP[5] = {"__mul__", "__truediv__", "__floordiv__", "__add__", "__sub__"};
        int op = sym_choose("op", 5);
        bool sc = sym_choose("scalar", 2);
        if (sc) b = Vector3(s, s, s);
        Vector3 w;
        if (op == 0) w = Vector3(a.x * b.x, a.y * b.y, a.z * b.z);
        if (op == 1) w = Vector3(a.x / b.x, a.y / b.y, a.z / b.z);
        if (op == 2) w = Vector3(std::floor(a.x / b.x), std::floor(a.y / b.y), std::floor(a.z / b.z));
        if (op == 3) w = Vector3(a.x + b.x, a.y + b.y, a.z + b.z);
        if (op == 4) w = Vector3(a.x - b.x, a.y - b.y, a.z - b.z);
        const Vector3 &r = asV(py::mcall(o, OP[op], {sc ? F(s) : p}));
        ASSERT(sameVec(r, w), "arithmetic is component-wise");
        ASSERT(sameVec(asV(o), a), "and leaves the operands alone");
        int i = sym_choose("i", 3);
        static const char *NM[3] = {"x", "y", "z"};
        double nv = symF64("nv");
        py::set(o, NM[i], F(nv));
        ASSERT(all(sameF(asV(o).x, i == 0 ? nv : a.x), sameF(asV(o).y, i == 1 ? nv : a.y), sameF(asV(o).z, i == 2 ? nv : a.z)), "assigning one component");
        OBS("z", bitsOf(asV(o).z));
    });
    REACH("done");
}
extern "C" void C33_node(void)
{
    run([] {
        object o = py::call("Node", {});
        Node dflt;
        ASSERT(sameNode(py::as<Node>(o), dflt), "default");
        VoxelKey k = anyKey(), p = anyKey("pd", "px", "py", "pz");
        uint64_t off = symU64("off");
        int32_t size = symI32("size"), cnt = symI32("cnt");
        py::set(o, "key", key(k)); py::set(o, "offset", U(off)); py::set(o, "byte_size", I(size)); py::set(o, "point_count", I(cnt)); py::set(o, "page_key", key(p));
        Node w(Entry(k, off, size, cnt), p);
        ASSERT(sameNode(py::as<Node>(o), w), "assigning attributes");
        ASSERT(all(keyEq(asK(py::get(o, "key")), k), (uint64_t)asI(py::get(o, "offset")) == off, asI(py::get(o, "byte_size")) == size, asI(py::get(o, "point_count")) == cnt, keyEq(asK(py::get(o, "page_key")), p)), "reading them");
        ASSERT(asB(py::mcall(o, "IsValid")) == w.IsValid() && asB(py::mcall(o, "IsPage")) == w.IsPage(), "IsValid and IsPage");
        object c = py::repickle(o);
        ASSERT(sameNode(py::as<Node>(c), w), "pickling gives an equal node");
        py::set(py::get(o, "key"), "x", I(77));
        ASSERT(asK(py::get(o, "key")).x == 77 && asK(py::get(c, "key")).x == k.x, "attributes refer to the node they belong to");
        ASSERT(RAISES(o.v->type->setstate(T({key(k), U(off), I(size), I(cnt)}))), "states of another size are rejected");
        Page pg(Entry(k, off, size, cnt));
        pg.loaded = symBool("loaded");
        object po = py::to_py(pg);
        ASSERT(all(keyEq(asK(py::get(po, "key")), k), (uint64_t)asI(py::get(po, "offset")) == off, asI(py::get(po, "byte_size")) == size, asI(py::get(po, "point_count")) == cnt, asB(py::get(po, "loaded")) == pg.loaded), "pages");
        ASSERT(asB(py::mcall(po, "IsValid")) == pg.IsValid() && asB(py::mcall(po, "IsPage")) == pg.IsPage(), "IsValid and IsPage of pages");
    });
    REACH("done");
}
// every attribute of a point
struct Attr { const char *name; object (*get)(const las::Point &); void (*set)(las::Point &, const object &); int kind; };
template <class X> static X val(const object &o) { return o.cast<X>(); }
#define AT(name, M, X) {name, [](const las::Point &p) { return py::to_py(p.M()); }, [](las::Point &p, const object &o) { p.M(val<X>(o)); }
static const Attr ATTR[] = {
    AT("x", X, double), 0}, AT("y", Y, double), 0}, AT("z", Z, double), 0}, AT("gps_time", GPSTime, double), 0},
    AT("intensity", Intensity, uint16_t), 1}, AT("point_source_id", PointSourceId, uint16_t), 1}, AT("red", Red, uint16_t), 1}, AT("green", Green, uint16_t), 1}, AT("blue", Blue, uint16_t), 1}, AT("nir", Nir, uint16_t), 1},
    AT("returns_bit_field", ReturnsBitField, uint8_t), 2}, AT("return_number", ReturnNumber, uint8_t), 2}, AT("number_of_returns", NumberOfReturns, uint8_t), 2}, AT("flags_bit_field", FlagsBitField, uint8_t), 2},
    AT("scanner_channel", ScannerChannel, uint8_t), 2}, AT("classification", Classification, uint8_t), 2}, AT("user_data", UserData, uint8_t), 2},
    AT("synthetic", Synthetic, bool), 3}, AT("key_point", KeyPoint, bool), 3}, AT("withheld", Withheld, bool), 3}, AT("overlap", Overlap, bool), 3}, AT("scan_direction_flag", ScanDirectionFlag, bool), 3},
    AT("edge_of_flight_line", EdgeOfFlightLineFlag, bool), 3}, AT("scan_angle", ScanAngle, int16_t), 4}};
static bool samePy(const object &a, const object &b)
{
    if (a.v->k != b.v->k) return false;
    if (a.v->k == py::K::Float) return sameF(a.v->f, b.v->f);
    return all(a.v->i == b.v->i, a.v->big == b.v->big);
}
extern "C" void C33_point(void)
{
    run([] {
        int fmt = 6 + sym_choose("fmt", 3), eb = sym_choose("eb", 2);
        object pts = py::call("Points", {I(fmt)}, {{"eb_byte_size", I(eb)}});
        object o = py::mcall(pts, "CreatePoint");
        las::Point &p = py::as<las::Point>(o);
        ASSERT(p.PointFormatId() == fmt && p.EbByteSize() == eb, "created with the collection's format");
        fillPt(p);
        las::Point w(p);
        int a = sym_choose("attr", (int)(sizeof ATTR / sizeof *ATTR));
        const Attr &at = ATTR[a];
        object v = at.kind == 0 ? F(symF64("vf")) : at.kind == 3 ? py::B(symBool("vb")) : I((int64_t)symU64("vi"));
        bool fits = true;
        if (at.kind == 1) fits = v.v->i < 65536;
        if (at.kind == 2) fits = v.v->i < 256;
        if (at.kind == 4) fits = all((int64_t)v.v->i >= -32768, (int64_t)v.v->i < 32768);
        bool tg = false, wg = throws([&] { at.get(w); });
        tg = throws([&] { ASSERT(samePy(py::get(o, at.name), at.get(w)), "reads the attribute"); });
        ASSERT(tg == wg, "raises exactly when the C++ getter does");
        if (!fits)
        {
            ASSERT(RAISES(py::set(o, at.name, v)) && sameAt(snap(p), snap(w)), "values that do not fit are rejected");
            REACH("rejected");
            return;
        }
        bool ts = throws([&] { py::set(o, at.name, v); }), ws = throws([&] { at.set(w, v); });
        ASSERT(ts == ws, "raises exactly when the C++ setter does");
        ASSERT(sameAt(snap(p), snap(w)), "the same attributes change");
        ASSERT(asI(py::get(o, "point_format_id")) == fmt && asI(py::get(o, "point_record_length")) == baseSize(fmt) + eb && asI(py::mcall(o, "EbByteSize")) == eb, "format and lengths");
        ASSERT(asB(py::mcall(o, "HasRgb")) == (fmt > 6) && asB(py::mcall(o, "HasNir")) == (fmt > 7), "colours");
        OBS("a", a);
    });
    REACH("done");
}
extern "C" void C33_point2(void)
{
    run([] {
        int fmt = 6 + sym_choose("fmt", 3), eb = sym_choose("eb", 3);
        object pts = py::call("Points", {I(fmt), I(eb)});
        object o = py::mcall(pts, "CreatePoint"), o2 = py::mcall(pts, "CreatePoint");
        las::Point &p = py::as<las::Point>(o), &p2 = py::as<las::Point>(o2);
        static const float DEG[8] = {0, 30, -30, 1.003f, -179.999f, 180, 180.01f, -181};
        float deg = DEG[sym_choose("deg", 8)];
        bool dt = RAISES(py::set(o, "scan_angle_degrees", F(deg))), dw = throws([&] { p2.ScanAngleDegrees(deg); });
        ASSERT(dt == dw && p.ScanAngle() == p2.ScanAngle() && sameF(asF(py::get(o, "scan_angle_degrees")), p2.ScanAngleDegrees()), "scan angle in degrees");
        fillPt(p);
        p2 = las::Point(p);
        uint16_t delta = symU16("delta");
        p2.Intensity(delta);
        ASSERT(asB(py::mcall(o, "__eq__", {o2})) == (p == p2) && asB(py::mcall(o, "__ne__", {o2})) == (p != p2), "equality");
        int what = sym_choose("what", 5);
        las::Point w(p);
        if (what == 0)
        {
            uint16_t r = symU16("nr"), g = symU16("ng"), b = symU16("nb");
            bool t = RAISES(py::set(o, "rgb", L({I(r), I(g), I(b)}))), e = throws([&] { w.Rgb(std::vector<uint16_t>{r, g, b}); });
            ASSERT(t == e && sameAt(snap(p), snap(w)), "rgb");
            ASSERT(RAISES(py::get(o, "rgb")) && RAISES(py::set(o, "rgb", L({I(1), I(2)}))), "is write-only and takes three values");
        }
        else if (what == 1)
        {
            std::vector<uint8_t> n(sym_choose("len", 4));
            std::vector<object> l;
            for (auto &x : n)
            {
                x = symU8("ne");
                l.push_back(I(x));
            }
            bool t = RAISES(py::set(o, "extra_bytes", L(l))), e = throws([&] { w.ExtraBytes(n); });
            ASSERT(t == e && sameAt(snap(p), snap(w)), "extra bytes");
            object got = py::get(o, "extra_bytes");
            ASSERT(isList(got, w.ExtraBytes().size()), "as a list");
            for (size_t i = 0; i < w.ExtraBytes().size(); i++) ASSERT(asI(got.v->items[i]) == w.ExtraBytes()[i], "of integers");
        }
        else if (what == 2)
        {
            int to = sym_choose("to", 12) - 1;
            bool t = RAISES(py::mcall(o, "ToPointFormat", {}, {{"point_format_id", I(to)}})), e = throws([&] { w.ToPointFormat((int8_t)to); });
            ASSERT(t == e && sameAt(snap(p), snap(w)), "conversion");
        }
        else if (what == 3)
        {
            Box b;
            b.x_min = symF64("x0"); b.y_min = symF64("y0"); b.z_min = symF64("z0"); b.x_max = symF64("x1"); b.y_max = symF64("y1"); b.z_max = symF64("z1");
            ASSUME(all(b.x_min <= b.x_max, b.y_min <= b.y_max, b.z_min <= b.z_max));
            ASSERT(asB(py::mcall(o, "Within", {boxp(b)})) == p.Within(b), "Within");
        }
        else
        {
            static const float DEG[4] = {0, 1.5f, -180, 179.994f};
            float d = DEG[sym_choose("deg", 4)];
            py::set(o, "scan_angle_degrees", F(d));
            w.ScanAngleDegrees(d);
            ASSERT(sameAt(snap(p), snap(w)) && asF(py::get(o, "scan_angle_degrees")) == w.ScanAngleDegrees(), "scan angle in degrees");
        }
    });
    REACH("done");
}
// --- collections of points ---
static object some(int fmt, int eb, int n)
{
    object o = py::call("Points", {I(fmt), I(eb)});
    for (int i = 0; i < n; i++) py::mcall(o, "AddPoint", {py::mcall(o, "CreatePoint")});
    return o;
}
static las::Points &pts(const object &o) { return py::as<las::Points>(o); }
static std::vector<las::Point *> ids(const object &o)
{
    std::vector<las::Point *> r;
    for (auto &p : pts(o).Get()) r.push_back(p.get());
    return r;
}
extern "C" void C33_points(void)
{
    run([] {
        static const char *NM[8] = {"x", "y", "z", "classification", "point_source_id", "red", "green", "blue"};
        int fmt = 6 + sym_choose("fmt", 3), n = sym_choose("n", 3), a = sym_choose("attr", 8);
        object o = some(fmt, 1, n);
        for (auto &p : pts(o).Get()) fillPt(*p);
        std::vector<las::Point> w;
        for (auto &p : pts(o).Get()) w.push_back(*p);
        auto one = [&](const las::Point &p) { return a == 0 ? py::to_py(p.X()) : a == 1 ? py::to_py(p.Y()) : a == 2 ? py::to_py(p.Z()) : a == 3 ? py::to_py(p.Classification()) : a == 4 ? py::to_py(p.PointSourceId())
                                                : a == 5 ? py::to_py(p.Red()) : a == 6 ? py::to_py(p.Green()) : py::to_py(p.Blue()); };
        bool no = a >= 5 && fmt == 6 && n > 0;
        object got;
        ASSERT(RAISES(got = py::get(o, NM[a])) == no, "raises exactly when a point has no such attribute");
        if (!no)
        {
            ASSERT(isList(got, n), "one value per point");
            for (int i = 0; i < n; i++) ASSERT(samePy(got.v->items[i], one(w[i])), "the values in order");
        }
        int m = sym_choose("len", 3);
        std::vector<object> l;
        for (int i = 0; i < m; i++) l.push_back(a < 3 ? F(symF64("nf")) : a == 3 ? I(symU8("nc")) : I(symU16("ni")));
        bool t = RAISES(py::set(o, NM[a], L(l)));
        ASSERT(t == (m != n || no), "rejected unless there is one value per point");
        if (!t)
            for (int i = 0; i < n; i++)
            {
                if (a == 0) w[i].X(l[i].v->f);
                if (a == 1) w[i].Y(l[i].v->f);
                if (a == 2) w[i].Z(l[i].v->f);
                if (a == 3) w[i].Classification((uint8_t)l[i].v->i);
                if (a == 4) w[i].PointSourceId((uint16_t)l[i].v->i);
                if (a == 5) w[i].Red((uint16_t)l[i].v->i);
                if (a == 6) w[i].Green((uint16_t)l[i].v->i);
                if (a == 7) w[i].Blue((uint16_t)l[i].v->i);
            }
        for (int i = 0; i < n; i++) ASSERT(sameAt(snap(*pts(o).Get(i)), snap(w[i])), "exactly these attributes change");
        ASSERT(asI(py::get(o, "point_format_id")) == fmt && asI(py::get(o, "point_record_length")) == baseSize(fmt) + 1 && asI(py::get(o, "eb_byte_size")) == 1 && asI(py::mcall(o, "__len__")) == n, "format, lengths and size");
    });
    REACH("done");
}
// indexes and slices as Python's lists have them
extern "C" void C33_seq(void)
{
    run([] {
        int n = sym_choose("n", (int)sym_param("N", 4)), fmt = 6 + sym_choose("fmt", 2);
        object o = some(fmt, fmt - 6, n);
        std::vector<las::Point *> w = ids(o);
        int what = sym_choose("what", 6);
        object i = I(symI32("i"));
        int64_t iv = (int64_t)i.v->i, at = iv < 0 ? iv + n : iv;
        bool in = at >= 0 && at < n;
        if (what == 0)
        {
            object r;
            ASSERT(RAISES(r = py::mcall(o, "__getitem__", {i})) == !in, "an index inside the list");
            if (in) ASSERT(&py::as<las::Point>(r) == w[at], "gives the point there");
        }
        else if (what == 1)
        {
            object p = py::mcall(o, "CreatePoint");
            ASSERT(RAISES(py::mcall(o, "__setitem__", {i, p})) == !in, "assigning inside the list");
            if (in) w[at] = &py::as<las::Point>(p);
            ASSERT(ids(o) == w, "replaces that point");
        }
        else if (what < 4)
        {
            // part by part: absent, or a value around the list
            object part[3];
            int64_t v[3];
            bool has[3];
            static const char *NM[3] = {"start", "stop", "step"};
            for (int j = 0; j < 3; j++)
            {
                int R = n + 3, c = sym_choose(NM[j], 2 * R);
                has[j] = c > 0;
                v[j] = c - R;
                if (c == 1) v[j] = j == 2 ? INT64_MIN + 1 : INT64_MIN;
                if (c == 2) v[j] = INT64_MAX;
                part[j] = has[j] ? I(v[j]) : N();
            }
            if (has[2] && v[2] == 0)
            {
                ASSERT(RAISES(py::mcall(o, "__getitem__", {SL(part[0], part[1], part[2])})), "a step of zero is rejected");
                return;
            }
            // the reference: walk
            int64_t step = has[2] ? v[2] : 1, a, b;
            auto norm = [&](int64_t x, int64_t lo, int64_t hi) { if (x < 0) x += n; return std::min(std::max(x, lo), hi); };
            a = has[0] ? norm(v[0], step < 0 ? -1 : 0, step < 0 ? n - 1 : n) : step < 0 ? n - 1 : 0;
            b = has[1] ? norm(v[1], step < 0 ? -1 : 0, step < 0 ? n - 1 : n) : step < 0 ? -1 : n;
            std::vector<int64_t> sel;
            for (int64_t x = a; step < 0 ? x > b : x < b;)
            {
                sel.push_back(x);
                if (step > n || step < -n) break;
                x += step;
            }
            object s = SL(part[0], part[1], part[2]);
            if (what == 2)
            {
                object r = py::mcall(o, "__getitem__", {s});
                std::vector<las::Point *> e;
                for (auto x : sel) e.push_back(w[x]);
                ASSERT(ids(r) == e, "a slice holds the selected points in order");
                ASSERT(pts(r).PointFormatId() == fmt && (int)pts(r).EbByteSize() == fmt - 6, "and has the collection's format");
                ASSERT(ids(o) == w, "the collection is unchanged");
            }
            else
            {
                int m = sym_choose("m", n + 3);
                bool self = m == n + 2; // the collection itself as the value
                if (self) m = n;
                object val = self ? o : some(fmt, fmt - 6, m);
                std::vector<las::Point *> vi = ids(val);
                bool t = RAISES(py::mcall(o, "__setitem__", {s, val}));
                ASSERT(t == (m != (int)sel.size()), "slices take as many points as they have");
                if (!t)
                    for (int j = 0; j < m; j++) w[sel[j]] = vi[j];
                ASSERT(ids(o) == w, "a slice assignment replaces the selected points");
            }
        }
        else if (what == 4)
        {
            object it = py::mcall(o, "__iter__");
            bool kept = !it.v->borrows;
            for (auto &x : it.v->keeps) kept |= x == o.v;
            ASSERT(kept, "an iterator keeps its collection");
            ASSERT(isList(it, n), "iteration visits every point");
            for (int j = 0; j < n; j++) ASSERT(&py::as<las::Point>(it.v->items[j]) == w[j], "in order");
            for (int j = 0; j < n; j++) ASSERT(asB(py::mcall(o, "__contains__", {it.v->items[j]})), "contains its points");
            ASSERT(!asB(py::mcall(o, "__contains__", {py::mcall(o, "CreatePoint")})), "and no other");
        }
        else
        {
            int m = sym_choose("m", 3), f2 = 6 + sym_choose("f2", 2), how = sym_choose("how", 3);
            object other = some(f2, f2 - 6, m);
            std::vector<las::Point *> e = ids(other);
            std::vector<object> l;
            for (int j = 0; j < m; j++) l.push_back(py::mcall(other, "__getitem__", {I(j)}));
            bool bad = f2 != fmt && (m > 0 || how == 0);
            bool t = throws([&] {
                if (how == 0) py::mcall(o, "AddPoints", {other});
                else if (how == 1) py::mcall(o, "AddPoints", {L(l)});
                else
                    for (auto &x : l) py::mcall(o, "AddPoint", {x});
            });
            ASSERT(t == bad, "points of another format are rejected");
            if (!t) w.insert(w.end(), e.begin(), e.end());
            ASSERT(ids(o) == w, "points are appended in order");
            bool tc = RAISES(ASSERT(ids(py::call("Points", {L(l)})) == e, "a collection from a list"));
            ASSERT(tc == (m == 0), "of at least one point");
        }
    });
    REACH("done");
}
extern "C" void C33_pack(void)
{
    run([] {
        int fmt = 6 + sym_choose("fmt", 3), eb = sym_choose("eb", 2), n = sym_choose("n", 3);
        las::LasHeader h(las::LasHeader(), (int8_t)fmt, (uint16_t)(baseSize(fmt) + eb), Vector3(1, 1, 1), Vector3(0, 0, 0));
        object ho = py::to_py(h);
        Bytes raw = mkRaw(baseSize(fmt) + eb, n);
        object data = py::to_py(raw);
        object a = py::scall("Points", "Unpack", {data, ho});
        object b = py::scall("Points", "Unpack", {data, I(fmt), I(eb), vec(Vector3(1, 1, 1)), vec(Vector3(0, 0, 0))});
        las::Points w = las::Points::Unpack(raw, h);
        ASSERT(pts(a).Size() == w.Size() && pts(b).Size() == w.Size(), "every record");
        for (size_t i = 0; i < w.Size() && i < pts(a).Size() && i < pts(b).Size(); i++) ASSERT(sameAt(snap(*pts(a).Get(i)), snap(*w.Get(i))) & sameAt(snap(*pts(b).Get(i)), snap(*w.Get(i))), "unpacked alike");
        ASSERT(sameBytes(py::as<Bytes>(py::mcall(a, "Pack", {ho})), raw), "packing with a header");
        ASSERT(sameBytes(py::as<Bytes>(py::mcall(a, "Pack", {vec(Vector3(1, 1, 1)), vec(Vector3(0, 0, 0))})), raw), "packing with scale and offset");
        object c = py::call("CompressBytes", {data, ho}), d = py::call("CompressBytes", {data, I(fmt), I(eb)});
        Bytes wc = laz::Compressor::CompressBytes(raw, h), wd = laz::Compressor::CompressBytes(raw, (int8_t)fmt, (uint16_t)eb);
        ASSERT(sameBytes(py::as<Bytes>(c), wc) && sameBytes(py::as<Bytes>(d), wd), "compression");
        ASSERT(sameBytes(py::as<Bytes>(py::call("DecompressBytes", {c, ho, I(n)})), raw), "decompression with a header");
        ASSERT(sameBytes(py::as<Bytes>(py::call("DecompressBytes", {c, I(fmt), I(eb)}, {{"point_count", I(n)}})), raw), "decompression with a format");
        py::kwargs_t fk = {{"eb_byte_size", I(eb)}, {"point_format_id", I(fmt)}}, dk = fk;
        dk.push_back({"compressed_data", c});
        dk.push_back({"point_count", I(n)});
        ASSERT(sameBytes(py::as<Bytes>(py::call("CompressBytes", {data}, fk)), wc), "compression by name");
        ASSERT(sameBytes(py::as<Bytes>(py::call("DecompressBytes", {}, dk)), raw), "decompression by name");
        ASSERT(sameBytes(py::as<Bytes>(py::call("DecompressBytes", {}, {{"compressed_data", c}, {"point_count", I(n)}, {"header", ho}})), raw), "decompression by name with a header");
        ASSERT(sameBytes(py::as<Bytes>(py::repickle(data)), raw), "pickling gives equal bytes");
        object e = py::call("Points", {ho});
        ASSERT(pts(e).PointFormatId() == fmt && (int)pts(e).EbByteSize() == eb, "a collection for a header");
        int to = 5 + sym_choose("to", 5);
        bool t = RAISES(py::mcall(a, "ToPointFormat", {I(to)})), wt = throws([&] { w.ToPointFormat((int8_t)to); });
        ASSERT(t == wt && pts(a).PointFormatId() == w.PointFormatId(), "conversion");
        Box q(0, 0, 0, 100, 100, 100);
        ASSERT(asB(py::mcall(a, "Within", {boxp(q)})) == w.Within(q), "Within");
        object in = py::mcall(a, "GetWithin", {boxp(q)});
        ASSERT(in.v->items.size() == w.GetWithin(q).size(), "GetWithin");
    });
    REACH("done");
}
// --- headers ---
extern "C" void C33_header(void)
{
    run([] {
        static const int TL[4][3] = {{0, 0, 0}, {3, 2, 1}, {16, 0, 5}, {0, 32, 32}};
        int tl = sym_choose("text", 4);
        las::LasHeader w((int8_t)symU8("fmt"), symU16("len"), symU32("po"), symU64("pc"), symU32("vc"), anyVec("sx", "sy", "sz"), anyVec("ox", "oy", "oz"), symU64("eo"), symU32("ec"), symBool("copc"));
        fill(w);
        std::string txt[3];
        for (int i = 0; i < 3; i++)
        {
            txt[i] = std::string(TL[tl][i], 'x');
            if (TL[tl][i]) sym_bytes(&txt[i][0], TL[tl][i], "text"); // any bytes
        }
        w.GUID(txt[0]); w.SystemIdentifier(txt[1]); w.GeneratingSoftware(txt[2]);
        object o = py::to_py(w);
        object c = py::repickle(o);
        const las::LasHeader &g = py::as<las::LasHeader>(c);
        ASSERT(sameUser(g, w), "pickling keeps the attributes");
        ASSERT(all(g.global_encoding == w.global_encoding, g.PointOffset() == w.PointOffset(), g.VlrCount() == w.VlrCount(), g.EvlrOffset() == w.EvlrOffset(), g.EvlrCount() == w.EvlrCount(), g.PointCount() == w.PointCount(),
                   g.IsCopc() == w.IsCopc()), "pickling keeps counts, offsets and flags");
        ASSERT(sameBytes(g.GUID(), w.GUID()) && sameBytes(g.SystemIdentifier(), w.SystemIdentifier()) && sameBytes(g.GeneratingSoftware(), w.GeneratingSoftware()), "pickling keeps the identifiers");
        std::vector<object> st = o.v->type->getstate(o).v->items;
        st.pop_back();
        ASSERT(RAISES(o.v->type->setstate(T(st))), "states of another size are rejected");
    });
    REACH("done");
}
extern "C" void C33_header2(void)
{
    run([] {
        las::LasHeader w((int8_t)symU8("fmt"), symU16("len"), symU32("po"), symU64("pc"), symU32("vc"), anyVec("sx", "sy", "sz"), anyVec("ox", "oy", "oz"), symU64("eo"), symU32("ec"), symBool("copc"));
        fill(w);
        object o = py::to_py(w);
        ASSERT(all(asI(py::get(o, "file_source_id")) == w.file_source_id, asI(py::get(o, "global_encoding")) == w.global_encoding, asI(py::get(o, "creation_day")) == w.creation_day, asI(py::get(o, "creation_year")) == w.creation_year,
                   asI(py::get(o, "point_offset")) == w.PointOffset(), asI(py::get(o, "vlr_count")) == w.VlrCount(), asI(py::get(o, "point_format_id")) == w.PointFormatId(), asI(py::get(o, "point_record_length")) == w.PointRecordLength(),
                   (uint64_t)asI(py::get(o, "evlr_offset")) == w.EvlrOffset(), asI(py::get(o, "evlr_count")) == w.EvlrCount(), (uint64_t)asI(py::get(o, "point_count")) == w.PointCount()), "numbers");
        ASSERT(sameVec(asV(py::get(o, "scale")), w.Scale()) & sameVec(asV(py::get(o, "offset")), w.Offset()) & sameVec(asV(py::get(o, "min")), w.min) & sameVec(asV(py::get(o, "max")), w.max), "vectors");
        object br = py::get(o, "points_by_return");
        ASSERT(isList(br, 15), "fifteen return counts");
        for (int i = 0; i < 15; i++) ASSERT((uint64_t)asI(br.v->items[i]) == w.points_by_return[i], "return counts");
        // changes
        las::LasHeader &h = py::as<las::LasHeader>(o);
        int what = sym_choose("what", 11);
        uint16_t nv = symU16("nv");
        Vector3 v = anyVec();
        if (what == 0) { py::set(o, "file_source_id", I(nv)); w.file_source_id = nv; }
        if (what == 1) { py::set(o, "global_encoding", I(nv)); w.global_encoding = nv; }
        if (what == 2) { py::set(o, "creation_day", I(nv)); w.creation_day = nv; }
        if (what == 3) { py::set(o, "creation_year", I(nv)); w.creation_year = nv; }
        if (what == 4) { py::set(o, "min", vec(v)); w.min = v; }
        if (what == 5) { py::set(o, "max", vec(v)); w.max = v; }
        if (what == 6) { py::set(py::get(o, "min"), "y", F(v.x)); w.min.y = v.x; }
        if (what == 7)
        {
            std::vector<object> l;
            for (int i = 0; i < 15; i++)
            {
                w.points_by_return[i] = symU64("nr");
                l.push_back(U(w.points_by_return[i]));
            }
            ASSERT(RAISES(py::set(o, "points_by_return", L({I(1)}))), "fifteen values");
            py::set(o, "points_by_return", L(l));
        }
        if (what == 8) { py::mcall(o, "SetGpsTimeBit"); w.SetGpsTimeBit(); }
        if (what == 9)
        {
            object p = py::mcall(py::call("Points", {I(6)}), "CreatePoint");
            py::set(p, "x", F(v.x)); py::set(p, "y", F(v.y)); py::set(p, "z", F(v.z));
            py::mcall(o, "CheckAndUpdateBounds", {p});
            w.CheckAndUpdateBounds(py::as<las::Point>(p));
        }
        if (what == 10)
        {
            static const char *NM[3] = {"guid", "system_identifier", "generating_software"};
            static const int TL[5] = {0, 1, 16, 17, 33};
            int a = sym_choose("a", 3), n = TL[sym_choose("l", 5)];
            std::string s(n, 'a');
            if (n) s[n - 1] = (char)(symU8("ch") & 127);
            bool big = n > (a == 0 ? 16 : 32);
            ASSERT(RAISES(py::set(o, NM[a], S(s))) == big, "identifiers that fit");
            if (!big)
            {
                ASSERT(sameBytes(asS(py::get(o, NM[a])), s), "identifiers are kept");
                ASSERT(sameBytes(a == 0 ? h.GUID() : a == 1 ? h.SystemIdentifier() : h.GeneratingSoftware(), s), "in their own field");
            }
        }
        ASSERT(sameUser(h, w) && h.global_encoding == w.global_encoding, "the same attributes change");
        ASSERT(RAISES(py::set(o, "scale", vec(v))) && RAISES(py::set(o, "point_count", I(1))) && RAISES(py::set(o, "point_format_id", I(7))), "derived attributes are read-only");
        ASSERT(asI(py::mcall(py::call("LasHeader", {}), "EbByteSize")) == las::LasHeader().EbByteSize(), "EbByteSize");
    });
    REACH("done");
}
extern "C" void C33_scale(void)
{
    run([] {
        las::LasHeader w(las::LasHeader(), 6, 30, Vector3(0.5, 2, 4), Vector3(1, -8, 16));
        w.min = anyVec("minx", "miny", "minz");
        w.max = anyVec("maxx", "maxy", "maxz");
        object o = py::to_py(w);
        Vector3 v = anyVec();
        ASSERT(sameVec(asV(py::mcall(o, "ApplyScale", {vec(v)})), w.ApplyScale(v)) && sameVec(asV(py::mcall(o, "ApplyInverseScale", {vec(v)})), w.ApplyInverseScale(v)), "vectors");
        ASSERT(all(sameF(asF(py::mcall(o, "ApplyScaleX", {F(v.x)})), w.ApplyScaleX(v.x)), sameF(asF(py::mcall(o, "ApplyScaleY", {F(v.x)})), w.ApplyScaleY(v.x)), sameF(asF(py::mcall(o, "ApplyScaleZ", {F(v.x)})), w.ApplyScaleZ(v.x))), "single coordinates");
        static const char *NM[3] = {"RemoveScaleX", "RemoveScaleY", "RemoveScaleZ"};
        int a = sym_choose("axis", 3);
        int32_t got = 0, want = 0;
        bool t = RAISES(got = (int32_t)asI(py::mcall(o, NM[a], {F(v.x)}))), e = throws([&] { want = a == 0 ? w.RemoveScaleX(v.x) : a == 1 ? w.RemoveScaleY(v.x) : w.RemoveScaleZ(v.x); });
        ASSERT(t == e && got == want, "removing the scale");
        ASSERT(sameF(asF(py::mcall(o, "Span")), w.Span()), "Span");
        object b;
        t = RAISES(b = py::mcall(o, "Bounds")), e = throws([&] { w.Bounds(); });
        ASSERT(t == e, "Bounds raises as in C++");
        if (!t) ASSERT(all(sameF(asF(py::get(b, "x_min")), w.min.x), sameF(asF(py::get(b, "z_max")), w.max.z)), "Bounds");
    });
    REACH("done");
}
// --- info and extents ---
extern "C" void C33_info(void)
{
    run([] {
        static const char *NM[5] = {"center_x", "center_y", "center_z", "halfsize", "spacing"};
        object o = py::call("CopcInfo", {});
        double v[5];
        for (int i = 0; i < 5; i++)
        {
            v[i] = symF64(NM[i]);
            py::set(o, NM[i], F(v[i]));
        }
        uint64_t off = symU64("off"), size = symU64("size");
        py::set(o, "root_hier_offset", U(off));
        py::set(o, "root_hier_size", U(size));
        const CopcInfo &c = py::as<CopcInfo>(o);
        ASSERT(all(sameF(c.center_x, v[0]), sameF(c.center_y, v[1]), sameF(c.center_z, v[2]), sameF(c.halfsize, v[3]), sameF(c.spacing, v[4]), c.root_hier_offset == off, c.root_hier_size == size), "info is assigned");
        for (int i = 0; i < 5; i++) ASSERT(sameF(asF(py::get(o, NM[i])), v[i]), "and read");
        ASSERT((uint64_t)asI(py::get(o, "root_hier_offset")) == off && (uint64_t)asI(py::get(o, "root_hier_size")) == size, "with the root page");
        ASSERT(RAISES(py::set(o, "root_hier_size", I(-1))), "sizes are not negative");
    });
    REACH("done");
}
static object extent(const CopcExtent &e) { return py::call("CopcExtent", {F(e.minimum), F(e.maximum), F(e.mean), F(e.var)}); }
static bool sameExt(const CopcExtent &a, const CopcExtent &b) { return all(sameF(a.minimum, b.minimum), sameF(a.maximum, b.maximum), sameF(a.mean, b.mean), sameF(a.var, b.var)); }
extern "C" void C33_extent(void)
{
    run([] {
        double v[4] = {symF64("min"), symF64("max"), symF64("mean"), symF64("var")};
        int how = sym_choose("how", 5);
        object o;
        CopcExtent w;
        bool t = throws([&] {
            if (how == 0) o = py::call("CopcExtent", {F(v[0]), F(v[1]), F(v[2]), F(v[3])});
            if (how == 1) o = py::call("CopcExtent", {}, {{"var", F(v[3])}, {"mean", F(v[2])}, {"maximum", F(v[1])}, {"minimum", F(v[0])}});
            if (how == 2) o = py::call("CopcExtent", {F(v[0]), F(v[1])});
            if (how == 3) o = py::call("CopcExtent", {L({F(v[0]), F(v[1]), F(v[2]), F(v[3])})});
            if (how == 4) o = py::call("CopcExtent", {T({F(v[0]), F(v[1])})});
        });
        bool e = throws([&] {
            if (how < 2) w = CopcExtent(v[0], v[1], v[2], v[3]);
            if (how == 2) w = CopcExtent(v[0], v[1], 0, 1);
            if (how == 3) w = CopcExtent(std::vector<double>{v[0], v[1], v[2], v[3]});
            if (how == 4) w = CopcExtent(std::vector<double>{v[0], v[1]});
        });
        ASSERT(t == e, "rejected exactly when the C++ constructor does");
        if (t) return;
        ASSERT(sameExt(py::as<CopcExtent>(o), w), "constructors");
        ASSERT(all(sameF(asF(py::get(o, "minimum")), w.minimum), sameF(asF(py::get(o, "maximum")), w.maximum), sameF(asF(py::get(o, "mean")), w.mean), sameF(asF(py::get(o, "var")), w.var)), "attributes");
        static const char *NM[4] = {"minimum", "maximum", "mean", "var"};
        int i = sym_choose("i", 4);
        double nv = symF64("nv");
        CopcExtent b = w;
        (i == 0 ? w.minimum : i == 1 ? w.maximum : i == 2 ? w.mean : w.var) = nv;
        py::set(o, NM[i], F(nv));
        ASSERT(sameExt(py::as<CopcExtent>(o), w), "assigning one");
        ASSERT(asB(py::mcall(o, "__eq__", {py::to_py(b)})) == (w == b), "equality");
    });
    REACH("done");
}
struct Ext { const char *name; std::shared_ptr<CopcExtent> (*get)(CopcExtents &); int fmt; };
#define EX(name, M, f) {name, [](CopcExtents &e) { return e.M(); }, f}
static const Ext EXT[] = {EX("x", X, 6), EX("y", Y, 6), EX("z", Z, 6), EX("intensity", Intensity, 6), EX("return_number", ReturnNumber, 6), EX("number_of_returns", NumberOfReturns, 6), EX("scanner_channel", ScannerChannel, 6),
                          EX("scan_direction_flag", ScanDirectionFlag, 6), EX("edge_of_flight_line", EdgeOfFlightLine, 6), EX("classification", Classification, 6), EX("user_data", UserData, 6), EX("scan_angle", ScanAngle, 6),
                          EX("point_source_id", PointSourceId, 6), EX("gps_time", GpsTime, 6), EX("red", Red, 7), EX("green", Green, 7), EX("blue", Blue, 7), EX("nir", Nir, 8)};
extern "C" void C33_extents(void)
{
    run([] {
        int fmt = 6 + sym_choose("fmt", 3), eb = sym_choose("eb", 3);
        object o = py::call("CopcExtents", {I(fmt)}, {{"num_eb_items", I(eb)}});
        CopcExtents &c = py::as<CopcExtents>(o);
        int n = (int)c.Extents().size();
        ASSERT(isList(py::get(o, "extents"), n) && asI(py::get(o, "point_format_id")) == fmt && asB(py::get(o, "has_extended_stats")) == c.HasExtendedStats(), "format and count");
        CopcExtent e;
        e.minimum = symF64("min"); e.maximum = symF64("max"); e.mean = symF64("mean"); e.var = symF64("var");
        ASSUME(all(e.minimum <= e.maximum, e.var >= 0));
        int a = sym_choose("attr", (int)(sizeof EXT / sizeof *EXT) + 1), m = (int)(sizeof EXT / sizeof *EXT);
        std::vector<std::shared_ptr<CopcExtent>> before;
        for (auto &x : c.Extents()) before.push_back(std::make_shared<CopcExtent>(*x));
        if (a < m)
        {
            const Ext &x = EXT[a];
            bool no = fmt < x.fmt;
            ASSERT(RAISES(py::set(o, x.name, extent(e))) == no && RAISES(py::get(o, x.name)) == no, "exactly the dimensions of the format");
            if (no) return;
            ASSERT(sameExt(*x.get(c), e) && sameExt(py::as<CopcExtent>(py::get(o, x.name)), e), "the extent is stored");
            int changed = 0, other = 0;
            for (int i = 0; i < n; i++)
            {
                bool mine = x.get(c).get() == c.Extents()[i].get();
                changed += mine;
                if (!mine) ASSERT(sameExt(*c.Extents()[i], *before[i]), "no other changes");
            }
            ASSERT(changed == 1, "one dimension");
            py::set(py::get(o, x.name), "minimum", F(5));
            ASSERT(x.get(c)->minimum == 5, "changing the extent that was read changes the collection's");
        }
        else
        {
            int k = sym_choose("k", 4);
            std::vector<object> l;
            for (int i = 0; i < k; i++) l.push_back(extent(e));
            ASSERT(RAISES(py::set(o, "extra_bytes", L(l))) == (k != eb), "one per extra-byte dimension");
            object g = py::get(o, "extra_bytes");
            ASSERT(isList(g, eb), "are read as a list");
            for (int i = 0; i < eb && k == eb; i++) ASSERT(sameExt(py::as<CopcExtent>(g.v->items[i]), e), "with their values");
        }
    });
    REACH("done");
}
// --- configurations, readers and writers ---
static const char *PATH = "f.copc.laz";
static object ebv(int n) { return py::to_py(mkEb(n)); }
extern "C" void C33_config(void)
{
    run([] {
        int fmt = 6 + sym_choose("fmt", 3), what = sym_choose("what", 3);
        bool kw = sym_choose("kw", 2), ext = sym_choose("ext", 2);
        Vector3 sc = anyVec("sx", "sy", "sz"), of = anyVec("ox", "oy", "oz");
        ASSUME(all(sc.x > 0, sc.y > 0, sc.z > 0));
        const char *cls = what == 2 ? "LazConfigWriter" : "CopcConfigWriter";
        py::kwargs_t k = {{"wkt", S("abc")}, {"extra_bytes_vlr", ebv(2)}, {"offset", vec(of)}, {"scale", T({F(sc.x), F(sc.y), F(sc.z)})}};
        if (what != 2) k.push_back({"has_extended_stats", py::B(ext)});
        std::vector<object> pos = {I(fmt), vec(sc), vec(of), S("abc"), ebv(2)};
        if (what != 2) pos.push_back(py::B(ext));
        object o = kw ? py::call(cls, {I(fmt)}, k) : py::call(cls, pos);
        object h = py::get(o, "las_header");
        const las::LasHeader &lh = py::as<las::LasHeader>(h);
        ASSERT(all(lh.PointFormatId() == fmt, lh.PointRecordLength() == baseSize(fmt) + 2, lh.IsCopc() == (what != 2)) && sameVec(lh.Scale(), sc) && sameVec(lh.Offset(), of), "header");
        ASSERT(asS(py::get(o, "wkt")) == "abc" && py::as<las::EbVlr>(py::get(o, "extra_bytes_vlr")).items.size() == 2, "WKT and descriptors");
        py::set(h, "creation_day", I(42));
        ASSERT(asI(py::get(py::get(o, "las_header"), "creation_day")) == 42, "the header is the configuration's own");
        if (what != 2)
        {
            object x = py::get(o, "copc_extents"), i = py::get(o, "copc_info");
            ASSERT(py::as<CopcExtents>(x).HasExtendedStats() == ext && py::as<CopcExtents>(x).Extents().size() == CopcExtents((int8_t)fmt, (uint16_t)2).Extents().size(), "extents");
            py::set(i, "spacing", F(3));
            py::set(x, "x", extent(CopcExtent(1, 2, 3, 4)));
            ASSERT(asF(py::get(py::get(o, "copc_info"), "spacing")) == 3 && py::as<CopcExtent>(py::get(py::get(o, "copc_extents"), "x")).maximum == 2, "info and extents are the configuration's own");
        }
        object d = py::call(cls, {I(fmt)});
        const las::LasHeader &dh = py::as<las::LasHeader>(py::get(d, "las_header"));
        ASSERT(sameVec(dh.Scale(), Vector3::DefaultScale()) && sameVec(dh.Offset(), Vector3::DefaultOffset()) && dh.PointRecordLength() == baseSize(fmt) && asS(py::get(d, "wkt")).empty(), "defaults");
        if (what != 2) ASSERT(!py::as<CopcExtents>(py::get(d, "copc_extents")).HasExtendedStats(), "no extended statistics by default");
        ASSERT(RAISES(py::call(cls, {I(5)})) && RAISES(py::call(cls, {I(9)})) && RAISES(py::call(cls, {I(300)})), "other formats are rejected");
    });
    REACH("done");
}
static int pts2(const object &o) { return o.v->k == py::K::List ? (int)o.v->items.size() : (int)py::as<las::Points>(o).Size(); }
// arguments by name are the arguments by position
extern "C" void C33_names(void)
{
    run([] {
        int what = sym_choose("what", 6);
        if (what == 0)
        {
            VoxelKey k = anyKey(), p = anyKey("pd", "px", "py", "pz");
            ASSUME(all(k.d >= 0, k.d <= 3));
            int depth = sym_choose("depth", 5), ic = sym_choose("ic", 2);
            object o = key(k);
            ASSERT(asB(py::mcall(o, "ChildOf", {}, {{"parent_key", key(p)}})) == asB(py::mcall(o, "ChildOf", {key(p)})), "ChildOf");
            VoxelKey a, b;
            bool t1 = RAISES(a = asK(py::mcall(o, "GetParentAtDepth", {}, {{"depth", I(depth)}}))), t2 = RAISES(b = k.GetParentAtDepth(depth));
            ASSERT(t1 == t2 && keyEq(a, b), "GetParentAtDepth");
            std::vector<VoxelKey> want = k.GetParents(ic);
            object l = py::mcall(o, "GetParents", {}, {{"include_current", py::B(ic)}}), l2 = py::mcall(o, "GetParents", {py::B(ic)});
            ASSERT(isList(l, want.size()) && isList(l2, want.size()), "GetParents");
            for (size_t i = 0; i < want.size(); i++) ASSERT(keyEq(asK(l.v->items[i]), want[i]) & keyEq(asK(l2.v->items[i]), want[i]), "GetParents");
        }
        if (what == 1)
        {
            double v[6];
            static const char *NM[6] = {"x_min", "y_min", "z_min", "x_max", "y_max", "z_max"};
            for (int i = 0; i < 6; i++) v[i] = symF64(NM[i]);
            ASSUME(all(v[0] <= v[3], v[1] <= v[4], v[2] <= v[5]));
            py::kwargs_t kw;
            for (int i = 0; i < 6; i++) if (i % 3 < 2) kw.push_back({NM[i], F(v[i])});
            object o = py::call("Box", {}, kw);
            for (int i = 0; i < 6; i++) if (i % 3 < 2) ASSERT(sameF(asF(py::get(o, NM[i])), v[i]), "a box of two dimensions");
            object q = py::call("Box", {}, {{"max", vec(Vector3(v[3], v[4], v[5]))}, {"min", vec(Vector3(v[0], v[1], v[2]))}});
            object s = py::call("Box", {}, {{"list", L({F(v[0]), F(v[1]), F(v[2]), F(v[3]), F(v[4]), F(v[5])})}});
            object u = py::call("Vector3", {}, {{"list", L({F(v[0]), F(v[1]), F(v[2])})}});
            for (int i = 0; i < 6; i++) ASSERT(sameF(asF(py::get(q, NM[i])), v[i]) & sameF(asF(py::get(s, NM[i])), v[i]), "a box of two corners, of a list");
            ASSERT(sameVec(asV(u), Vector3(v[0], v[1], v[2])), "a vector of a list");
            object e = py::call("CopcExtent", {}, {{"list", L({F(v[0]), F(v[3])})}});
            ASSERT(sameF(asF(py::get(e, "minimum")), v[0]) & sameF(asF(py::get(e, "maximum")), v[3]), "an extent of a list");
            object h = py::call("LasHeader", {});
            las::LasHeader w;
            py::set(h, "max", vec(Vector3(8, 8, 8)));
            w.max = Vector3(8, 8, 8);
            VoxelKey k(2, 1, 2, 3);
            Box b(k, w);
            object c = py::call("Box", {}, {{"las_header", h}, {"key", key(k)}});
            ASSERT(asF(py::get(c, "x_min")) == b.x_min && asF(py::get(c, "y_min")) == b.y_min && asF(py::get(c, "z_min")) == b.z_min && asF(py::get(c, "x_max")) == b.x_max && asF(py::get(c, "y_max")) == b.y_max && asF(py::get(c, "z_max")) == b.z_max, "the box of a key");
        }
        if (what == 2)
        {
            int fmt = 6 + sym_choose("fmt", 3), to = 6 + sym_choose("to", 3), eb = sym_choose("eb", 3);
            object o = py::call("Points", {}, {{"eb_byte_size", I(eb)}, {"point_format_id", I(fmt)}});
            object p = py::mcall(o, "CreatePoint");
            ASSERT(asI(py::get(p, "point_format_id")) == fmt && asI(py::mcall(p, "EbByteSize")) == eb, "format and extra bytes");
            double x = symF64("px");
            py::set(p, "x", F(x)); py::set(p, "y", F(1)); py::set(p, "z", F(1));
            object b = boxp(Box(0, 0, 0, 2, 2, 2));
            bool in = all(x >= 0, x <= 2);
            ASSERT(asB(py::mcall(p, "Within", {}, {{"box", b}})) == in, "Within");
            object c = py::call("Points", {}, {{"points", L({p})}});
            ASSERT(asB(py::mcall(c, "Within", {}, {{"box", b}})) == in, "Within of a collection");
            object g = py::mcall(c, "GetWithin", {}, {{"box", b}});
            ASSERT(pts2(g) == (in ? 1 : 0), "GetWithin");
            py::mcall(c, "ToPointFormat", {}, {{"point_format_id", I(to)}});
            ASSERT(asI(py::get(py::mcall(c, "__getitem__", {I(0)}), "point_format_id")) == to && asI(py::get(c, "point_format_id")) == to, "ToPointFormat");
            object e = py::call("CopcExtents", {}, {{"num_eb_items", I(eb)}, {"point_format_id", I(fmt)}});
            ASSERT(asI(py::get(e, "point_format_id")) == fmt && isList(py::get(e, "extra_bytes"), eb), "extents");
            Bytes raw = mkRaw(baseSize(fmt) + eb, 2);
            object z = py::call("CompressBytes", {}, {{"eb_byte_size", I(eb)}, {"point_format_id", I(fmt)}, {"in", py::to_py(raw)}});
            ASSERT(sameBytes(py::as<Bytes>(py::call("DecompressBytes", {}, {{"point_format_id", I(fmt)}, {"eb_byte_size", I(eb)}, {"compressed_data", z}, {"point_count", I(2)}})), raw), "compression");
        }
        if (what == 3)
        {
            int fmt = 6 + sym_choose("fmt", 3), m = sym_choose("m", 3);
            object cfg = py::call("CopcConfigWriter", {I(fmt)}, {{"scale", vec(Vector3(1, 2, 3))}, {"offset", vec(Vector3(4, 5, 6))}, {"wkt", S("W")}, {"extra_bytes_vlr", ebv(m)}});
            { object w = py::call("FileWriter", {S(PATH), cfg}); py::mcall(w, "Close"); }
            object r = py::call("FileReader", {S(PATH)});
            object c = py::get(r, "copc_config");
            for (int i = 0; i < 2; i++)
            {
                // a COPC configuration makes a LAZ configuration: the constructor, and as an argument
                object l = i == 0 ? py::call("LazConfigWriter", {c}) : py::get(py::call("LazWriter", {S("n.laz"), c}), "laz_config");
                const las::LasHeader &h = py::as<las::LasHeader>(py::get(l, "las_header"));
                ASSERT(h.PointFormatId() == fmt && h.PointRecordLength() == baseSize(fmt) + m && sameVec(h.Scale(), Vector3(1, 2, 3)) && sameVec(h.Offset(), Vector3(4, 5, 6)), "the header of a LAZ configuration made of a COPC configuration");
                ASSERT(asS(py::get(l, "wkt")) == "W" && (int)py::as<las::EbVlr>(py::get(l, "extra_bytes_vlr")).items.size() == m, "its records");
            }
            object d = py::call("CopcConfigWriter", {c});
            const las::LasHeader &h = py::as<las::LasHeader>(py::get(d, "las_header"));
            ASSERT(h.PointFormatId() == fmt && h.PointRecordLength() == baseSize(fmt) + m && sameVec(h.Scale(), Vector3(1, 2, 3)) && sameVec(h.Offset(), Vector3(4, 5, 6)), "the header of a COPC configuration made of another");
            ASSERT(asS(py::get(d, "wkt")) == "W" && (int)py::as<las::EbVlr>(py::get(d, "extra_bytes_vlr")).items.size() == m, "its records");
        }
        if (what == 4)
        {
            object cfg = py::call("CopcConfigWriter", {I(6)}, {{"scale", vec(Vector3(1, 1, 1))}});
            py::set(py::get(cfg, "las_header"), "max", vec(Vector3(8, 8, 8)));
            py::set(py::get(cfg, "copc_info"), "spacing", F(1));
            object w = py::call("FileWriter", {S(PATH), cfg});
            Bytes d[3];
            VoxelKey k[3] = {VoxelKey(0, 0, 0, 0), VoxelKey(1, 1, 0, 1), VoxelKey(2, 2, 1, 3)};
            object h = py::get(py::get(w, "copc_config"), "las_header"), hi = py::get(py::get(w, "copc_config"), "copc_info");
            for (int i = 0; i < 3; i++)
            {
                d[i] = mkRaw(30, 1 + i);
                object data = py::to_py(d[i]);
                if (i == 0) py::mcall(w, "AddNode", {}, {{"uncompressed_data", data}, {"key", key(k[i])}});
                if (i == 1) py::mcall(w, "AddNode", {}, {{"page_key", key(k[i])}, {"points", py::scall("Points", "Unpack", {data, h})}, {"key", key(k[i])}});
                if (i == 2) py::mcall(w, "AddNode", {}, {{"page_key", key(k[1])}, {"uncompressed_data", data}, {"key", key(k[i])}});
            }
            py::mcall(w, "Close");
            object r = py::call("FileReader", {S(PATH)});
            FileReader ref(PATH);
            int i = sym_choose("node", 3);
            object f = py::mcall(r, "FindNode", {}, {{"key", key(k[i])}});
            ASSERT(sameNode(py::as<Node>(f), ref.FindNode(k[i])), "FindNode");
            for (int by = 0; by < 2; by++)
            {
                py::kwargs_t kw;
                if (by) kw.push_back({"key", key(k[i])});
                else kw.push_back({"node", f});
                ASSERT(sameBytes(py::as<Bytes>(py::mcall(r, "GetPointData", {}, kw)), d[i]), "GetPointData");
                ASSERT(sameBytes(py::as<Bytes>(py::mcall(r, "GetPointDataCompressed", {}, kw)), ref.GetPointDataCompressed(k[i])), "GetPointDataCompressed");
                ASSERT(pts2(py::mcall(r, "GetPoints", {}, kw)) == 1 + i, "GetPoints");
            }
            ASSERT(isList(py::mcall(r, "GetAllChildrenOfPage", {}, {{"key", key(k[i])}}), ref.GetAllChildrenOfPage(k[i]).size()), "GetAllChildrenOfPage");
            static const double RES[4] = {0, 1, 0.5, 0.25};
            double res = RES[sym_choose("res", 4)];
            object R = F(res);
            ASSERT(asI(py::mcall(r, "GetDepthAtResolution", {}, {{"resolution", R}})) == ref.GetDepthAtResolution(res) && isList(py::mcall(r, "GetNodesAtResolution", {}, {{"resolution", R}}), ref.GetNodesAtResolution(res).size()) &&
                       isList(py::mcall(r, "GetNodesWithinResolution", {}, {{"resolution", R}}), ref.GetNodesWithinResolution(res).size()) && (size_t)pts2(py::mcall(r, "GetAllPoints", {}, {{"resolution", R}})) == ref.GetAllPoints(res).Size(), "by resolution");
            Box q(0, 0, 0, 4.5, 4.5, 8);
            ASSERT(isList(py::mcall(r, "GetNodesWithinBox", {}, {{"resolution", R}, {"box", boxp(q)}}), ref.GetNodesWithinBox(q, res).size()) && isList(py::mcall(r, "GetNodesIntersectBox", {}, {{"resolution", R}, {"box", boxp(q)}}), ref.GetNodesIntersectBox(q, res).size()) &&
                       (size_t)pts2(py::mcall(r, "GetPointsWithinBox", {}, {{"resolution", R}, {"box", boxp(q)}})) == ref.GetPointsWithinBox(q, res).Size(), "by box");
            (void)hi;
        }
        if (what == 5)
        {
            VoxelKey k = VoxelKey(sym_choose("d", 4), 0, 0, 0);
            object h = py::call("LasHeader", {}), info = py::call("CopcInfo", {});
            py::set(h, "max", vec(Vector3(8, 8, 8)));
            double sp = symF64("spacing");
            py::set(info, "spacing", F(sp));
            las::LasHeader w;
            w.max = Vector3(8, 8, 8);
            CopcInfo ci;
            ci.spacing = sp;
            double e = VoxelKey::GetResolutionAtDepth(k.d, w, ci);
            ASSERT(sameF(asF(py::scall("VoxelKey", "GetResolutionAtDepth", {I(k.d), h, info})), e), "GetResolutionAtDepth");
            ASSERT(sameF(asF(py::mcall(key(k), "Resolution", {}, {{"copc_header", info}, {"las_header", h}})), e) && sameF(asF(py::mcall(key(k), "Resolution", {h, info})), e), "Resolution");
        }
    });
    REACH("done");
}
extern "C" void C33_file(void)
{
    run([] {
        int fmt = 6 + sym_choose("fmt", 2), rec = baseSize(fmt) + 1;
        static const int K[2][4] = {{1, 1, 0, 1}, {2, 3, 1, 2}};
        object cfg = py::call("CopcConfigWriter", {I(fmt)}, {{"scale", vec(Vector3(1, 1, 1))}, {"offset", vec(Vector3(0, 0, 0))}, {"wkt", S("W")}, {"extra_bytes_vlr", ebv(1)}});
        py::set(py::get(cfg, "las_header"), "max", vec(Vector3(8, 8, 8)));
        py::set(py::get(cfg, "copc_info"), "spacing", F(1));
        int open0 = openFiles();
        object w = py::call("FileWriter", {}, {{"config", cfg}, {"file_path", S(PATH)}});
        ASSERT(asS(py::get(w, "path")) == PATH, "path");
        int how = sym_choose("how", 3);
        Bytes d[2];
        VoxelKey root(0, 0, 0, 0), k[2], pg[2];
        py::object n[2];
        for (int i = 0; i < 2; i++)
        {
            d[i] = mkRaw(rec, 1 + i);
            k[i] = VoxelKey(K[i][0], K[i][1], K[i][2], K[i][3]);
            pg[i] = sym_choose("page", 2) ? k[i] : root;
            py::kwargs_t kw;
            bool named = how == 1;
            if (!keyEq(pg[i], root)) kw.push_back({"page_key", key(pg[i])});
            object data = py::to_py(d[i]);
            object h = py::get(py::get(w, "copc_config"), "las_header");
            if (how == 0) n[i] = py::mcall(w, "AddNode", {T({I(k[i].d), I(k[i].x), I(k[i].y), I(k[i].z)}), data}, kw);
            if (how == 1) n[i] = py::mcall(w, "AddNode", {key(k[i]), py::scall("Points", "Unpack", {data, h})}, kw);
            if (how == 2)
            {
                kw.push_back({"point_count", I(1 + i)});
                kw.push_back({"compressed_data", py::call("CompressBytes", {data, h})});
                n[i] = py::mcall(w, "AddNodeCompressed", {key(k[i])}, kw);
            }
            (void)named;
            ASSERT(sameNode(py::as<Node>(py::mcall(w, "FindNode", {key(k[i])})), py::as<Node>(n[i])), "the node is found");
        }
        if (sym_choose("move", 2))
        {
            py::mcall(w, "ChangeNodePage", {}, {{"new_page_key", key(VoxelKey(1, 1, 0, 1))}, {"node_key", key(k[1])}});
            pg[1] = VoxelKey(1, 1, 0, 1);
        }
        py::mcall(w, "Close");
        ASSERT(openFiles() == open0, "closing a writer closes its file");
        object r = py::call("FileReader", {S(PATH)});
        ASSERT(asS(py::get(r, "path")) == PATH, "path of the reader");
        FileReader ref(PATH);
        int qi = sym_choose("query", 4);
        object list = py::mcall(r, "GetAllNodes");
        ASSERT(isList(list, 2) && isList(py::mcall(r, "GetPageList"), ref.GetPageList().size()), "nodes and pages");
        for (int i = 0; i < 2; i++)
        {
            Node e = ref.FindNode(k[i]);
            ASSERT(e.IsValid() && keyEq(e.page_key, pg[i]), "the node is in its page");
            object f = py::mcall(r, "FindNode", {}, {{"key", key(k[i])}});
            ASSERT(sameNode(py::as<Node>(f), e), "FindNode");
            bool bykey = (qi + i) & 1;
            object arg = bykey ? key(k[i]) : f;
            ASSERT(sameBytes(py::as<Bytes>(py::mcall(r, "GetPointData", {arg})), d[i]), "GetPointData");
            ASSERT(sameBytes(py::as<Bytes>(py::mcall(r, "GetPointDataCompressed", {arg})), ref.GetPointDataCompressed(k[i])), "GetPointDataCompressed");
            object p = py::mcall(r, "GetPoints", {arg});
            ASSERT((int)pts(p).Size() == 1 + i && sameBytes(pts(p).Pack(Vector3(1, 1, 1), Vector3(0, 0, 0)), d[i]), "GetPoints");
        }
        object c = py::get(r, "copc_config");
        ASSERT(asS(py::get(c, "wkt")) == "W" && py::as<las::LasHeader>(py::get(c, "las_header")).PointFormatId() == fmt && asF(py::get(py::get(c, "copc_info"), "spacing")) == 1 &&
                   py::as<las::EbVlr>(py::get(c, "extra_bytes_vlr")).items.size() == 1 && py::as<CopcExtents>(py::get(c, "copc_extents")).PointFormatId() == fmt, "configuration");
        ASSERT(isList(py::mcall(r, "GetAllChildrenOfPage", {key(k[0])}), ref.GetAllChildrenOfPage(k[0]).size()), "GetAllChildrenOfPage");
        static const double RES[4] = {0, 1, 0.5, 0.25};
        double res = RES[qi];
        Box q(0, 0, 0, qi & 1 ? 8 : 4.5, 8, 8);
        object bo = boxp(q);
        ASSERT(asI(py::mcall(r, "GetDepthAtResolution", {F(res)})) == ref.GetDepthAtResolution(res) && asI(py::mcall(r, "GetMaxDepth")) == 2, "depths");
        ASSERT(isList(py::mcall(r, "GetNodesAtResolution", {F(res)}), ref.GetNodesAtResolution(res).size()) && isList(py::mcall(r, "GetNodesWithinResolution", {F(res)}), ref.GetNodesWithinResolution(res).size()), "nodes by resolution");
        ASSERT(isList(py::mcall(r, "GetNodesWithinBox", {bo}, {{"resolution", F(res)}}), ref.GetNodesWithinBox(q, res).size()) && isList(py::mcall(r, "GetNodesIntersectBox", {bo}, {{"resolution", F(res)}}), ref.GetNodesIntersectBox(q, res).size()) &&
                   isList(py::mcall(r, "GetNodesWithinBox", {bo}), ref.GetNodesWithinBox(q).size()) && isList(py::mcall(r, "GetNodesIntersectBox", {bo}), ref.GetNodesIntersectBox(q).size()), "nodes by box");
        ASSERT(pts(py::mcall(r, "GetPointsWithinBox", {}, {{"box", boxp(Box::MaxBox())}, {"resolution", F(res)}})).Size() == ref.GetPointsWithinBox(Box::MaxBox(), res).Size() && pts(py::mcall(r, "GetPointsWithinBox", {boxp(Box::MaxBox())})).Size() == 3, "points in a box");
        bool valid = qi & 2 ? asB(py::mcall(r, "ValidateSpatialBounds")) : asB(py::mcall(r, "ValidateSpatialBounds", {}, {{"verbose", py::B(false)}}));
        ASSERT(valid == ref.ValidateSpatialBounds(), "validation");
        ASSERT(pts(py::mcall(r, "GetAllPoints", {}, {{"resolution", F(res)}})).Size() == ref.GetAllPoints(res).Size() && pts(py::mcall(r, "GetAllPoints")).Size() == 3, "all points");
        ASSERT(openFiles() == open0 + 2, "the readers have the file open");
        py::mcall(r, "Close");
        ASSERT(openFiles() == open0 + 1, "closing a reader closes its file");
        REACH("read");
    });
    REACH("done");
}
extern "C" void C33_override(void)
{
    run([] {
        object cfg = py::call("CopcConfigWriter", {I(6)}, {{"wkt", S("W")}, {"extra_bytes_vlr", ebv(1)}});
        { object w = py::call("FileWriter", {S(PATH), cfg}); py::mcall(w, "Close"); }
        object r = py::call("FileReader", {S(PATH)});
        py::kwargs_t kw;
        bool f = sym_choose("f", 2), s = sym_choose("s", 2), o = sym_choose("o", 2), t = sym_choose("t", 2), e = sym_choose("e", 2), x = sym_choose("x", 2);
        if (x) kw.push_back({"has_extended_stats", py::B(true)});
        if (e) kw.push_back({"extra_bytes_vlr", ebv(2)});
        if (t) kw.push_back({"wkt", S("new")});
        if (o) kw.push_back({"offset", vec(Vector3(1, 2, 3))});
        if (s) kw.push_back({"scale", vec(Vector3(4, 5, 6))});
        if (f) kw.push_back({"point_format_id", I(8)});
        object w = py::call("FileWriter", {S("g.copc.laz"), py::get(r, "copc_config")}, kw); // (converts a reader's configuration)
        object c = py::get(w, "copc_config");
        const las::LasHeader &h = py::as<las::LasHeader>(py::get(c, "las_header"));
        ASSERT(h.PointFormatId() == (f ? 8 : 6) && h.PointRecordLength() == (f ? 38 : 30) + (e ? 2 : 1) && sameVec(h.Scale(), s ? Vector3(4, 5, 6) : Vector3::DefaultScale()) && sameVec(h.Offset(), o ? Vector3(1, 2, 3) : Vector3::DefaultOffset()), "overrides of the header");
        ASSERT(asS(py::get(c, "wkt")) == (t ? "new" : "W") && py::as<las::EbVlr>(py::get(c, "extra_bytes_vlr")).items.size() == (e ? 2 : 1) && py::as<CopcExtents>(py::get(c, "copc_extents")).HasExtendedStats() == x, "overrides of the records");
        py::mcall(w, "Close");
    });
    REACH("done");
}
extern "C" void C33_laz(void)
{
    run([] {
        int fmt = 6 + sym_choose("fmt", 3), rec = baseSize(fmt);
        object cfg = py::call("LazConfigWriter", {I(fmt)}, {{"scale", vec(Vector3(1, 1, 1))}, {"offset", vec(Vector3(0, 0, 0))}, {"wkt", S("W")}});
        int open0 = openFiles();
        object w = py::call("LazWriter", {}, {{"config", cfg}, {"file_path", S("f.laz")}});
        Bytes a = mkRaw(rec, 1), b = mkRaw(rec, 2);
        object h = py::get(py::get(w, "laz_config"), "las_header");
        py::mcall(w, "WritePoints", {py::scall("Points", "Unpack", {py::to_py(a), h})});
        py::mcall(w, "WritePointsCompressed", {}, {{"point_count", I(2)}, {"compressed_data", py::call("CompressBytes", {py::to_py(b), h})}});
        ASSERT(asI(py::get(w, "point_count")) == 3 && asI(py::get(w, "chunk_count")) == 2 && asS(py::get(w, "path")) == "f.laz", "counts and path");
        py::mcall(w, "Close");
        ASSERT(openFiles() == open0, "closing a writer closes its file");
        object r = py::call("LazReader", {}, {{"file_path", S("f.laz")}});
        a.insert(a.end(), b.begin(), b.end());
        ASSERT(sameBytes(pts(py::mcall(r, "GetPoints")).Pack(Vector3(1, 1, 1), Vector3(0, 0, 0)), a), "the points are read");
        ASSERT(asS(py::get(py::get(r, "laz_config"), "wkt")) == "W" && asS(py::get(r, "path")) == "f.laz" && py::as<las::LasHeader>(py::get(py::get(r, "laz_config"), "las_header")).PointCount() == 3, "configuration");
    });
    REACH("done");
}
extern "C" void C33_charvec(void)
{
    run([] {
        int n = sym_choose("n", 5);
        Bytes b(n);
        if (n) sym_bytes(b.data(), n, "b");
        object o = py::to_py(b);
        object c = py::repickle(o);
        ASSERT(sameBytes(py::as<Bytes>(c), b) && asB(py::mcall(o, "__eq__", {c})), "pickling gives equal bytes");
    });
    REACH("done");
}
