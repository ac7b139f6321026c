// C07: point collections
#include "pt.h"
#include <copc-lib/las/points.hpp>
using namespace copc;
using las::Points;
static std::shared_ptr<Point> sp(int f, int eb)
{
    auto p = std::make_shared<Point>(f, eb);
    fillPt(*p);
    return p;
}
// n points of one format; ids are the pointers in order
static Points mk(int f, int eb, int n, std::vector<std::shared_ptr<Point>> &v)
{
    Points ps(f, eb);
    for (int i = 0; i < n; i++)
    {
        auto p = sp(f, eb);
        v.push_back(p);
        ps.AddPoint(p);
    }
    return ps;
}
static bool holds(Points &ps, const std::vector<std::shared_ptr<Point>> &v, int f, int eb)
{
    if (ps.Size() != v.size() || ps.PointFormatId() != f || ps.PointRecordLength() != (uint32_t)(baseSize(f) + eb) || ps.EbByteSize() != (uint32_t)eb) return false;
    auto g = ps.Get();
    if (g.size() != v.size()) return false;
    for (size_t i = 0; i < v.size(); i++)
        if (g[i].get() != v[i].get() || ps[i].get() != v[i].get() || ps.Get(i).get() != v[i].get()) return false;
    return true;
}
extern "C" void C07_add(void)
{
    int f = 6 + sym_choose("f", 3), eb = sym_choose("eb", 2), n = sym_choose("n", 3);
    std::vector<std::shared_ptr<Point>> v;
    Points ps = mk(f, eb, n, v);
    ASSERT(holds(ps, v, f, eb), "collection holds what was added");
    int how = sym_choose("how", 3), steps = sym_choose("k", 3);
    if (how == 0)
        for (int i = 0; i <= steps; i++)
        {
            int f2 = 6 + sym_choose("f2", 3), eb2 = sym_choose("eb2", 3);
            if (i && i < steps) { f2 = f; eb2 = eb; }
            auto p = sp(f2, eb2);
            bool t = throws([&] { ps.AddPoint(p); });
            ASSERT(t == (f2 != f || eb2 != eb), "a mismatching point is rejected, a matching one accepted");
            if (!t) v.push_back(p);
            ASSERT(holds(ps, v, f, eb), "collection after adding");
        }
    else if (how == 1)
    {
        int f2 = 6 + sym_choose("f2", 3), eb2 = sym_choose("eb2", 3);
        std::vector<std::shared_ptr<Point>> w;
        Points other = mk(f2, eb2, steps, w);
        bool t = throws([&] { ps.AddPoints(other); });
        ASSERT(t == (f2 != f || eb2 != eb), "a mismatching collection is rejected");
        if (!t) v.insert(v.end(), w.begin(), w.end());
        ASSERT(holds(ps, v, f, eb) && holds(other, w, f2, eb2), "collection after adding a collection");
    }
    else
    {
        std::vector<std::shared_ptr<Point>> w;
        bool bad = false;
        for (int i = 0; i <= steps; i++)
        {
            int odd = sym_choose("odd", 3);
            int f2 = odd == 1 ? (f == 6 ? 7 : 6) : f, eb2 = odd == 2 ? eb + 1 : eb;
            bad |= odd != 0;
            w.push_back(sp(f2, eb2));
        }
        bool t = throws([&] { ps.AddPoints(w); });
        ASSERT(t == bad, "a group with a mismatch is rejected");
        if (!t) v.insert(v.end(), w.begin(), w.end());
        ASSERT(holds(ps, v, f, eb), "collection after adding a group");
    }
    OBS("n", ps.Size());
    REACH("done");
}
// same record length, different format: 6 with 6 extra bytes and 7 with none
extern "C" void C07_samelen(void)
{
    Points a(6, 6), b(7, 0);
    auto p = sp(6, 6), q = sp(7, 0);
    ASSERT(throws([&] { a.AddPoint(q); }) && throws([&] { b.AddPoint(p); }) && throws([&] { a.AddPoints(b); }) && throws([&] { a.AddPoints(std::vector<std::shared_ptr<Point>>{p, q}); }), "format mismatch with equal record length rejected");
    ASSERT(a.Size() == 0 && b.Size() == 0, "unchanged");
    REACH("done");
}
extern "C" void C07_ctor(void)
{
    std::vector<std::shared_ptr<Point>> v;
    ASSERT(throws([&] { Points p(v); }), "never built from nothing");
    int n = 1 + sym_choose("n", 3);
    int f = 6 + sym_choose("f", 3), eb = sym_choose("eb", 2), bad = sym_choose("bad", 4);
    for (int i = 0; i < n; i++) v.push_back(i == bad && i ? sp(f == 8 ? 7 : 8, eb) : sp(f, eb));
    bool wantT = bad > 0 && bad < n;
    bool t = false;
    try
    {
        Points p(v);
        ASSERT(!wantT && holds(p, v, f, eb), "built from a homogeneous list");
        auto c = p.CreatePoint();
        ASSERT(c->PointFormatId() == f && c->PointRecordLength() == p.PointRecordLength() && c->EbByteSize() == eb, "created points match");
        p.AddPoint(c);
        ASSERT(p.Size() == (size_t)n + 1, "created point can be added");
    }
    catch (std::runtime_error &)
    {
        t = true;
    }
    ASSERT(t == wantT, "a mixed list is rejected");
    las::LasHeader h(f, baseSize(f) + eb, Vector3(1, 1, 1), Vector3(0, 0, 0), true);
    Points ph(h);
    ASSERT(ph.PointFormatId() == f && ph.EbByteSize() == (uint32_t)eb && ph.Size() == 0, "built from a header");
    REACH(t ? "rejected" : "done");
}
extern "C" void C07_fmt(void)
{
    int8_t f = (int8_t)symU8("f");
    bool t = throws([&] { Points p(f, 3); });
    ASSERT(t == (f < 6 || f > 8), "only formats 6-8");
    REACH(t ? "rejected" : "done");
}
template <class T, class Get, class Set, class PGet> static void bulk(Points &ps, std::vector<std::shared_ptr<Point>> &v, Get get, Set set, PGet pget, T (*mkv)())
{
    auto got = get(ps);
    ASSERT(got.size() == v.size(), "bulk getter length");
    for (size_t i = 0; i < v.size(); i++) ASSERT((uint64_t)got[i] == (uint64_t)pget(*v[i]), "bulk getter returns each value in order at full width");
    int m = sym_choose("m", 6);
    if (m >= 4) m = (int)v.size() + (m == 4 ? 256 : 65536); // agrees with the right length in the low 8 or 16 bits only
    std::vector<T> in;
    if (m > 4) in.resize(m);
    else for (int i = 0; i < m; i++) in.push_back(mkv());
    std::vector<At> before;
    for (auto &p : v) before.push_back(snap(*p));
    std::vector<T> in0 = in;
    bool t = throws([&] { set(ps, in); });
    ASSERT(t == (m != (int)v.size()), "bulk setter rejects any other length");
    for (size_t i = 0; i < v.size(); i++)
    {
        if (t) ASSERT(sameAt(snap(*v[i]), before[i]), "rejected bulk set changes nothing");
        else
        {
            ASSERT((uint64_t)pget(*v[i]) == (uint64_t)in0[i], "bulk setter assigns element i to point i");
        }
    }
    REACH(t ? "rejected" : "done");
}
static double mkD() { double d = symF64("in"); ASSUME(d == d); return d; }
static uint64_t mkDb() { return 0; }
static uint8_t mk8() { return symU8("in"); }
static uint16_t mk16() { return symU16("in"); }
extern "C" void C07_bulk(void)
{
    int f = 7 + sym_choose("f", 2), n = sym_choose("n", 3);
    std::vector<std::shared_ptr<Point>> v;
    Points ps = mk(f, 1, n, v);
    std::vector<At> b0;
    for (auto &p : v) b0.push_back(snap(*p));
    int k = sym_choose("attr", 8);
    switch (k)
    {
    case 0: case 1: case 2:
    {
        auto get = [&](Points &p) { return k == 0 ? p.X() : k == 1 ? p.Y() : p.Z(); };
        auto pg = [&](Point &p) { return bitsOf(k == 0 ? p.X() : k == 1 ? p.Y() : p.Z()); };
        auto got = get(ps);
        ASSERT(got.size() == v.size(), "bulk getter length");
        for (size_t i = 0; i < v.size(); i++) ASSERT(bitsOf(got[i]) == pg(*v[i]), "bulk coordinate getter in order");
        int m = sym_choose("m", 4);
        std::vector<double> in;
        for (int i = 0; i < m; i++) in.push_back(symF64("in"));
        bool t = throws([&] { if (k == 0) ps.X(in); else if (k == 1) ps.Y(in); else ps.Z(in); });
        ASSERT(t == (m != n), "bulk setter rejects any other length");
        for (int i = 0; i < n; i++) ASSERT(pg(*v[i]) == (t ? bitsOf(got[i]) : bitsOf(in[i])), "bulk coordinate setter assigns element i to point i");
        REACH(t ? "rejected" : "done");
        break;
    }
    case 3: bulk<uint8_t>(ps, v, [](Points &p) { return p.Classification(); }, [](Points &p, std::vector<uint8_t> &x) { p.Classification(x); }, [](Point &p) { return p.Classification(); }, mk8); break;
    case 4: bulk<uint16_t>(ps, v, [](Points &p) { return p.PointSourceId(); }, [](Points &p, std::vector<uint16_t> &x) { p.PointSourceId(x); }, [](Point &p) { return p.PointSourceId(); }, mk16); break;
    case 5: bulk<uint16_t>(ps, v, [](Points &p) { return p.Red(); }, [](Points &p, std::vector<uint16_t> &x) { p.Red(x); }, [](Point &p) { return p.Red(); }, mk16); break;
    case 6: bulk<uint16_t>(ps, v, [](Points &p) { return p.Green(); }, [](Points &p, std::vector<uint16_t> &x) { p.Green(x); }, [](Point &p) { return p.Green(); }, mk16); break;
    default: bulk<uint16_t>(ps, v, [](Points &p) { return p.Blue(); }, [](Points &p, std::vector<uint16_t> &x) { p.Blue(x); }, [](Point &p) { return p.Blue(); }, mk16); break;
    }
    // all other attributes untouched
    for (int i = 0; i < n; i++)
    {
        At a = snap(*v[i]), b = b0[i];
        if (k == 0) a.x = b.x; if (k == 1) a.y = b.y; if (k == 2) a.z = b.z; if (k == 3) a.cls = b.cls; if (k == 4) a.psi = b.psi;
        if (k == 5) a.r = b.r; if (k == 6) a.g = b.g; if (k == 7) a.b = b.b;
        ASSERT(sameAt(a, b), "bulk setter touches only its attribute");
    }
}
extern "C" void C07_conv(void)
{
    int f = 6 + sym_choose("f", 3), eb = sym_choose("eb", 3), n = sym_choose("n", 3);
    std::vector<std::shared_ptr<Point>> v;
    Points ps = mk(f, eb, n, v);
    std::vector<At> b;
    for (auto &p : v) b.push_back(snap(*p));
    int8_t to = (int8_t)symU8("to");
    bool t = throws([&] { ps.ToPointFormat(to); });
    ASSERT(t == (to < 6 || to > 8), "only formats 6-8 are targets");
    if (t)
    {
        ASSERT(holds(ps, v, f, eb), "rejected conversion leaves the collection");
        for (int i = 0; i < n; i++) ASSERT(sameAt(snap(*v[i]), b[i]), "rejected conversion leaves the points");
        REACH("rejected");
        return;
    }
    int g = (int)sym_concretize((uint8_t)to);
    ASSERT(holds(ps, v, g, eb), "collection converted");
    for (int i = 0; i < n; i++)
    {
        At a = snap(*v[i]);
        ASSERT(a.fmt == g && a.len == ps.PointRecordLength() && sameBase(a, b[i]), "every point converted, attributes kept");
    }
    auto c = ps.CreatePoint();
    ASSERT(!throws([&] { ps.AddPoint(c); }), "points created after the conversion fit");
    REACH("done");
}
extern "C" void C07_pack(void)
{
    int f = 6 + sym_choose("f", 3), eb = sym_choose("eb", 2), n = sym_choose("n", sym_param("N", 4));
    int len = baseSize(f) + eb;
    std::vector<char> data(n * len);
    sym_bytes(data.data(), data.size(), "rec");
    Vector3 S(1, 1, 1), O(0, 0, 0);
    las::LasHeader h(f, len, S, O, true);
    bool viaHeader = sym_choose("hdr", 2);
    Points ps = viaHeader ? Points::Unpack(data, h) : Points::Unpack(data, f, eb, S, O);
    ASSERT(ps.Size() == (size_t)n && ps.PointFormatId() == f && ps.EbByteSize() == (uint32_t)eb, "number of points unpacked");
    for (int i = 0; i < n; i++)
    {
        std::string r(data.begin() + i * len, data.begin() + (i + 1) * len);
        std::stringstream in(r);
        auto q = Point::Unpack(in, f, S, O, eb);
        ASSERT(sameAt(snap(*ps[i]), snap(*q)), "point i is record i");
    }
    std::vector<char> out = viaHeader ? ps.Pack(h) : ps.Pack(S, O);
    ASSERT(out.size() == data.size(), "packed size");
    bool same = true;
    for (size_t i = 0; i < out.size(); i++) same &= out[i] == data[i];
    ASSERT(same, "packing inverts unpacking");
    std::stringstream ss;
    if (viaHeader) ps.Pack(ss, h); else ps.Pack(ss, S, O);
    std::string s2 = ss.str();
    ASSERT(s2.size() == data.size(), "packed stream size");
    for (size_t i = 0; i < s2.size(); i++) same &= s2[i] == data[i];
    ASSERT(same, "packing to a stream is the same");
    REACH("done");
}
extern "C" void C07_partial(void)
{
    int f = 6 + sym_choose("f", 3), eb = sym_choose("eb", 2);
    int len = baseSize(f) + eb;
    int n = sym_choose("n", sym_param("BYTES", 90));
    std::vector<char> data(n);
    sym_bytes(data.data(), data.size(), "rec");
    bool t = throws([&] { Points::Unpack(data, f, eb, Vector3(1, 1, 1), Vector3(0, 0, 0)); });
    ASSERT(t == (n % len != 0), "data that is not a whole number of records is rejected");
    REACH(t ? "rejected" : "done");
}
extern "C" void C07_within(void)
{
    int n = sym_choose("n", 4);
    std::vector<std::shared_ptr<Point>> v;
    Points ps = mk(6, 0, n, v);
    Box b;
    b.x_min = symF64("x0"); b.y_min = symF64("y0"); b.z_min = symF64("z0"); b.x_max = symF64("x1"); b.y_max = symF64("y1"); b.z_max = symF64("z1");
    std::vector<std::shared_ptr<Point>> want;
    for (auto &p : v)
        if (b.x_min <= p->X() && p->X() <= b.x_max && b.y_min <= p->Y() && p->Y() <= b.y_max && b.z_min <= p->Z() && p->Z() <= b.z_max) want.push_back(p);
    auto got = ps.GetWithin(b);
    ASSERT(got.size() == want.size(), "number of points inside");
    for (size_t i = 0; i < got.size() && i < want.size(); i++) ASSERT(got[i].get() == want[i].get(), "points inside, in order");
    ASSERT(ps.Within(b) == (want.size() == v.size()), "all inside");
    ASSERT(ps.Size() == v.size(), "collection unchanged");
    REACH("done");
}
// more points than 16 bits count
extern "C" void C07_many(void)
{
    int n = (int)sym_param("N", 65537);
    las::LasHeader h(6, 30, Vector3(1, 1, 1), Vector3(0, 0, 0), false);
    std::vector<char> raw((size_t)30 * n);
    for (int k = 0; k < 2; k++) sym_bytes(&raw[(size_t)30 * (k ? n - 1 : n / 2)], 30, "rec");
    for (int i = 0; i < n; i++)
        if (i != n / 2 && i != n - 1) memcpy(&raw[(size_t)30 * i], &i, 4);
    las::Points p = las::Points::Unpack(raw, h);
    ASSERT((int)p.Size() == n, "as many points as records");
    std::vector<char> back = p.Pack(h);
    ASSERT(back.size() == raw.size() && sym_memeq(back.data(), raw.data(), raw.size()), "packed again");
    ASSERT((int)p.X().size() == n && (int)p.Classification().size() == n, "as many values as points");
    std::vector<unsigned int> c(n, 1);
    c[n - 1] = 7;
    p.Classification(std::vector<uint8_t>(c.begin(), c.end()));
    ASSERT(p.Get(n - 1)->Classification() == 7 && p.Get(n - 2)->Classification() == 1 && p.Get(0)->Classification() == 1, "bulk values reach every point");
    las::Points q(h);
    q.AddPoints(p);
    q.AddPoint(p.Get(0));
    ASSERT((int)q.Size() == n + 1, "appended");
    REACH("done");
}
