// C12: COPC extents
#include "io.h"
#include <copc-lib/copc/extents.hpp>
typedef std::shared_ptr<copc::CopcExtent> EP;
static int dims(int fmt) { return fmt == 6 ? 14 : fmt == 7 ? 17 : 18; }
// the accessor of every dimension in file order
static std::vector<EP> byAccessor(CopcExtents &e)
{
    std::vector<EP> v{e.X(), e.Y(), e.Z(), e.Intensity(), e.ReturnNumber(), e.NumberOfReturns(), e.ScannerChannel(), e.ScanDirectionFlag(), e.EdgeOfFlightLine(), e.Classification(), e.UserData(), e.ScanAngle(),
                      e.PointSourceId(), e.GpsTime()};
    if (e.PointFormatId() > 6) { v.push_back(e.Red()); v.push_back(e.Green()); v.push_back(e.Blue()); }
    if (e.PointFormatId() == 8) v.push_back(e.Nir());
    for (auto &x : e.ExtraBytes()) v.push_back(x);
    return v;
}
static bool sameX(const copc::CopcExtent &a, const copc::CopcExtent &b) { return all(bitsOf(a.minimum) == bitsOf(b.minimum), bitsOf(a.maximum) == bitsOf(b.maximum), bitsOf(a.mean) == bitsOf(b.mean), bitsOf(a.var) == bitsOf(b.var)); }
static void fillX(copc::CopcExtent &x)
{
    x.minimum = symF64("min"); x.maximum = symF64("max"); x.mean = symF64("mean"); x.var = symF64("var");
    ASSUME(all(!(x.minimum > x.maximum), !(x.var < 0)));
}
extern "C" void C12_count(void)
{
    int8_t f = (int8_t)symU8("fmt");
    int eb = sym_choose("eb", (int)sym_param("EB", 4));
    bool ext = symBool("ext"), bad = f < 6 || f > 8;
    std::unique_ptr<CopcExtents> e;
    bool t = throws([&] { e.reset(new CopcExtents(f, eb, ext)); });
    ASSERT(t == bad, "only formats 6-8 have extents");
    if (t) { REACH("rejected"); return; }
    int n = dims(f) + eb;
    ASSERT(all(e->NumberOfExtents() == (size_t)n, e->PointFormatId() == f, e->HasExtendedStats() == ext), "one extent per dimension");
    ASSERT(CopcExtents::NumberOfExtents(f, eb) == n && CopcExtents::ByteSize(f, eb) == (size_t)n * 16, "count and size");
    ASSERT(PointBaseNumberExtents(f) == dims(f), "base count");
    std::vector<EP> a = byAccessor(*e), l = e->Extents();
    ASSERT(a.size() == (size_t)n && l.size() == (size_t)n, "accessors cover all dimensions");
    int ok = 1;
    for (int i = 0; i < n; i++) ok &= a[i] == l[i];
    ASSERT(ok, "each accessor returns the extent of its own dimension");
    int dist = 1;
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) dist &= l[i] != l[j];
    ASSERT(dist, "extents are distinct objects");
    ASSERT(throws([&] { e->Red(); }) == (f < 7) && throws([&] { e->Green(); }) == (f < 7) && throws([&] { e->Blue(); }) == (f < 7) && throws([&] { e->Nir(); }) == (f != 8), "colour only where the format has it");
    REACH("done");
}
extern "C" void C12_set(void)
{
    int8_t f = 6 + sym_choose("fmt", 3);
    int eb = sym_choose("eb", 3);
    CopcExtents e(f, eb);
    int n = dims(f) + eb;
    std::vector<EP> before = e.Extents();
    EP p = std::make_shared<copc::CopcExtent>(1, 2);
    int i = sym_choose("dim", 18);
    bool t = throws([&] {
        switch (i)
        {
        case 0: e.X(p); break; case 1: e.Y(p); break; case 2: e.Z(p); break; case 3: e.Intensity(p); break; case 4: e.ReturnNumber(p); break; case 5: e.NumberOfReturns(p); break;
        case 6: e.ScannerChannel(p); break; case 7: e.ScanDirectionFlag(p); break; case 8: e.EdgeOfFlightLine(p); break; case 9: e.Classification(p); break; case 10: e.UserData(p); break;
        case 11: e.ScanAngle(p); break; case 12: e.PointSourceId(p); break; case 13: e.GpsTime(p); break; case 14: e.Red(p); break; case 15: e.Green(p); break; case 16: e.Blue(p); break; default: e.Nir(p);
        }
    });
    ASSERT(t == (i >= dims(f)), "setting a dimension the format lacks is rejected");
    std::vector<EP> after = e.Extents();
    int ok = after.size() == (size_t)n;
    for (int k = 0; ok && k < n; k++) ok &= after[k] == (k == i && !t ? p : before[k]);
    ASSERT(ok, "only that dimension changes");
    int m = sym_choose("m", 4);
    std::vector<EP> v;
    for (int k = 0; k < m; k++) v.push_back(std::make_shared<copc::CopcExtent>(k, k + 1));
    bool t2 = throws([&] { e.ExtraBytes(v); });
    ASSERT(t2 == (m != eb), "extra-byte extents need the right number");
    std::vector<EP> a2 = e.Extents();
    ok = a2.size() == (size_t)n;
    for (int k = 0; ok && k < n; k++) ok &= a2[k] == (k >= dims(f) && !t2 ? v[k - dims(f)] : after[k]);
    ASSERT(ok, "extra-byte extents go after the standard ones");
    REACH(t || t2 ? "rejected" : "done");
}
extern "C" void C12_extent(void)
{
    double a = symF64("a"), b = symF64("b"), c = symF64("c"), d = symF64("d");
    bool bad = a > b || d < 0;
    copc::CopcExtent x;
    ASSERT(all(bitsOf(x.minimum) == 0, bitsOf(x.maximum) == 0, bitsOf(x.mean) == 0, x.var == 1), "default extent");
    ASSERT(throws([&] { copc::CopcExtent t(a, b, c, d); x.minimum = t.minimum; x.maximum = t.maximum; x.mean = t.mean; x.var = t.var; }) == bad, "minimum above maximum or negative variance is rejected");
    if (!bad) ASSERT(all(bitsOf(x.minimum) == bitsOf(a), bitsOf(x.maximum) == bitsOf(b), bitsOf(x.mean) == bitsOf(c), bitsOf(x.var) == bitsOf(d)), "values");
    int n = sym_choose("n", 6);
    std::vector<double> v;
    double src[5] = {a, b, c, d, 1};
    for (int i = 0; i < n; i++) v.push_back(src[i]);
    copc::CopcExtent y;
    bool t = throws([&] { copc::CopcExtent s(v); y.minimum = s.minimum; y.maximum = s.maximum; y.mean = s.mean; y.var = s.var; });
    ASSERT(t == (!(n == 2 || n == 4) || a > b || (n == 4 && d < 0)), "lists of 2 or 4 numbers, same rules");
    if (!t)
        ASSERT(all(bitsOf(y.minimum) == bitsOf(a), bitsOf(y.maximum) == bitsOf(b), bitsOf(y.mean) == (n == 4 ? bitsOf(c) : 0), bitsOf(y.var) == (n == 4 ? bitsOf(d) : bitsOf(1.0))), "list values");
    REACH(t ? "rejected" : "done");
}
extern "C" void C12_equal(void)
{
    copc::CopcExtent x, y;
    x.minimum = symF64("a"); x.maximum = symF64("b"); x.mean = symF64("c"); x.var = symF64("d");
    y.minimum = symF64("e"); y.maximum = symF64("f"); y.mean = symF64("g"); y.var = symF64("h");
    bool e = x == y;
    ASSERT(e == all(x.minimum == y.minimum, x.maximum == y.maximum, x.mean == y.mean, x.var == y.var), "equal exactly when all four values are");
    ASSERT((x != y) == !e, "inequality negates equality");
    REACH(e ? "eq" : "done");
}
// store and load
extern "C" void C12_store(void)
{
    int8_t f = 6 + sym_choose("fmt", 3);
    int eb = sym_choose("eb", (int)sym_param("EB", 2));
    bool ext = sym_choose("ext", 2);
    CopcExtents e(f, eb, ext);
    int n = dims(f) + eb;
    for (auto &x : e.Extents()) fillX(*x);
    las::CopcExtentsVlr v = e.ToLazPerf(*e.X(), *e.Y(), *e.Z()), ve = e.ToLazPerfExtended();
    ASSERT(all(v.size() == (uint64_t)n * 16, ve.size() == (uint64_t)n * 16, v.header().record_id == 10000, v.header().data_length == n * 16, v.header().user_id == "copc"), "VLR size and id");
    std::stringstream ss;
    v.write(ss);
    ve.write(ss);
    std::string s = ss.str();
    ASSERT(s.size() == (size_t)n * 32, "bytes written");
    std::vector<EP> l = e.Extents();
    int ok = 1;
    for (int i = 0; i < n; i++)
        ok &= all(rdLE(s.data(), 16 * i, 8) == bitsOf(l[i]->minimum), rdLE(s.data(), 16 * i + 8, 8) == bitsOf(l[i]->maximum), rdLE(s.data(), 16 * (n + i), 8) == bitsOf(l[i]->mean),
                  rdLE(s.data(), 16 * (n + i) + 8, 8) == bitsOf(l[i]->var));
    ASSERT(ok, "values in dimension order");
    CopcExtents r(las::CopcExtentsVlr::create(ss, n * 16), f, eb, ext);
    bool t = throws([&] { r.SetExtendedStats(las::CopcExtentsVlr::create(ss, n * 16)); });
    ASSERT(t == !ext, "statistics are only loaded when they are on");
    ASSERT(r.NumberOfExtents() == (size_t)n && r.HasExtendedStats() == ext && r.PointFormatId() == f, "same set");
    std::vector<EP> m = r.Extents();
    ok = 1;
    for (int i = 0; i < n; i++)
        ok &= all(bitsOf(m[i]->minimum) == bitsOf(l[i]->minimum), bitsOf(m[i]->maximum) == bitsOf(l[i]->maximum), bitsOf(m[i]->mean) == (ext ? bitsOf(l[i]->mean) : 0), bitsOf(m[i]->var) == (ext ? bitsOf(l[i]->var) : bitsOf(1.0)));
    ASSERT(ok, "every value is loaded back");
    CopcExtents c(e);
    ASSERT(c.NumberOfExtents() == (size_t)n && c.HasExtendedStats() == ext && c.PointFormatId() == f, "copy has the same shape");
    std::vector<EP> k = c.Extents();
    ok = 1;
    for (int i = 0; i < n; i++) ok &= all(sameX(*k[i], *l[i]), k[i] != l[i]);
    ASSERT(ok, "a copy owns equal extents");
    REACH("done");
}
extern "C" void C12_mismatch(void)
{
    int8_t f = (int8_t)symU8("fmt");
    int eb = sym_choose("eb", 3), n = sym_choose("n", 22);
    las::CopcExtentsVlr v(n);
    double a = symF64("a"), b = symF64("b");
    if (n > 3) v.setItem(3, las::CopcExtentsVlr::CopcExtent(a, b));
    bool bad = f < 6 || f > 8 || n != dims(f) + eb || a > b;
    ASSERT(throws([&] { CopcExtents e(v, f, eb, true); }) == bad, "format, number and order are checked");
    if (f >= 6 && f <= 8)
    {
        CopcExtents e(f, eb, true);
        ASSERT(throws([&] { e.SetExtendedStats(v); }) == (n != dims(f) + eb), "statistics need the same number");
    }
    REACH(bad ? "rejected" : "done");
}
extern "C" void C12_convert(void)
{
    int8_t f = 6 + sym_choose("from", 3), g = (int8_t)(5 + sym_choose("to", 5));
    int eb = sym_choose("eb", 3), eb2 = sym_choose("eb2", 3);
    bool ext = symBool("ext"), bad = g < 6 || g > 8;
    CopcExtents e(f, eb, !ext);
    for (auto &x : e.Extents()) fillX(*x);
    std::unique_ptr<CopcExtents> c;
    ASSERT(throws([&] { c.reset(new CopcExtents(e, g, eb2, ext)); }) == bad, "only to formats 6-8");
    if (bad) { REACH("rejected"); return; }
    ASSERT(all(c->NumberOfExtents() == (size_t)(dims(g) + eb2), c->PointFormatId() == g, c->HasExtendedStats() == ext), "shape of the new format");
    std::vector<EP> l = e.Extents(), k = c->Extents();
    int common = dims(f) < dims(g) ? dims(f) : dims(g), ok = 1, own = 1, rest = 1;
    for (int i = 0; i < common; i++) { ok &= sameX(*k[i], *l[i]); own &= k[i] != l[i]; }
    for (int i = common; i < dims(g); i++) rest &= sameX(*k[i], copc::CopcExtent());
    for (int i = 0; i < eb2; i++)
        if (eb == eb2) { ok &= sameX(*k[dims(g) + i], *l[dims(f) + i]); own &= k[dims(g) + i] != l[dims(f) + i]; }
        else rest &= sameX(*k[dims(g) + i], copc::CopcExtent());
    ASSERT(ok, "dimensions of both formats keep their values");
    ASSERT(rest, "new dimensions start empty");
    ASSERT(own, "the converted set owns its extents");
    REACH("done");
}
// through a file
extern "C" void C12_file(void)
{
    int8_t f = 6 + sym_choose("fmt", 3);
    int eb = sym_choose("eb", 3);
    bool ext = sym_choose("ext", 2);
    CopcConfigWriter cfg(f, Vector3(1, 1, 1), Vector3(0, 0, 0), "", mkEb(eb), ext);
    for (auto &x : cfg.CopcExtents()->Extents()) fillX(*x);
    std::vector<EP> l = cfg.CopcExtents()->Extents();
    std::stringstream ss;
    {
        Writer w(ss, cfg);
        w.Close();
    }
    Reader r(&ss);
    CopcExtents e = r.CopcConfig().CopcExtents();
    std::vector<EP> m = e.Extents();
    ASSERT(all(m.size() == l.size(), e.HasExtendedStats() == ext, e.PointFormatId() == f, m.size() == (size_t)(dims(f) + eb)), "shape survives the file");
    int ok = 1;
    for (size_t i = 0; i < m.size(); i++)
        ok &= all(bitsOf(m[i]->minimum) == bitsOf(l[i]->minimum), bitsOf(m[i]->maximum) == bitsOf(l[i]->maximum), bitsOf(m[i]->mean) == (ext ? bitsOf(l[i]->mean) : 0), bitsOf(m[i]->var) == (ext ? bitsOf(l[i]->var) : bitsOf(1.0)));
    ASSERT(ok, "values survive the file");
    REACH("done");
}
// more dimensions than 8 bits count
extern "C" void C12_many(void)
{
    int eb = (int)sym_param("EB", 300);
    bool ext = sym_param("ext", 0);
    CopcConfigWriter cfg(6, Vector3(1, 1, 1), Vector3(0, 0, 0), "", mkEb(eb), ext);
    auto e = cfg.CopcExtents();
    int n = 14 + eb;
    auto l = e->Extents();
    ASSERT((int)l.size() == n && (int)e->ExtraBytes().size() == eb && e->NumberOfExtents() == (size_t)n, "one extent per dimension");
    ASSERT(CopcExtents::NumberOfExtents(6, (uint16_t)eb) == n && CopcExtents::ByteSize(6, (uint16_t)eb) == (size_t)n * 16, "count and size");
    for (int i : {14, 14 + eb / 2, n - 1}) fillX(*l[i]);
    std::stringstream ss;
    {
        Writer wr(ss, cfg);
        wr.Close();
    }
    Reader r(&ss);
    auto c = r.CopcConfig();
    auto g = c.CopcExtents().Extents();
    ASSERT((int)g.size() == n && (int)c.CopcExtents().ExtraBytes().size() == eb && (int)c.ExtraBytesVlr().items.size() == eb && c.LasHeader().EbByteSize() == eb, "as many after reading");
    int ok = 1;
    for (int i = 3; i < n; i++) ok &= (int)all(bitsOf(g[i]->minimum) == bitsOf(l[i]->minimum), bitsOf(g[i]->maximum) == bitsOf(l[i]->maximum), !ext || (bitsOf(g[i]->mean) == bitsOf(l[i]->mean) && bitsOf(g[i]->var) == bitsOf(l[i]->var)));
    ASSERT(ok, "each with its values");
    REACH("done");
}
