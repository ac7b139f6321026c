// C25: configurations, writers and readers own consistent copies
#include "hdr.h"
static bool sameX(const copc::CopcExtent &a, const copc::CopcExtent &b) { return all(bitsOf(a.minimum) == bitsOf(b.minimum), bitsOf(a.maximum) == bitsOf(b.maximum), bitsOf(a.mean) == bitsOf(b.mean), bitsOf(a.var) == bitsOf(b.var)); }
static bool sameBits(const Vector3 &a, const Vector3 &b) { return all(bitsOf(a.x) == bitsOf(b.x), bitsOf(a.y) == bitsOf(b.y), bitsOf(a.z) == bitsOf(b.z)); }
static bool sameInfo(const copc::CopcInfo &a, const copc::CopcInfo &b)
{
    return all(bitsOf(a.center_x) == bitsOf(b.center_x), bitsOf(a.center_y) == bitsOf(b.center_y), bitsOf(a.center_z) == bitsOf(b.center_z), bitsOf(a.halfsize) == bitsOf(b.halfsize), bitsOf(a.spacing) == bitsOf(b.spacing),
               a.root_hier_offset == b.root_hier_offset, a.root_hier_size == b.root_hier_size);
}
static bool sameHead(const las::LasHeader &a, const las::LasHeader &b)
{
    return all(sameUser(a, b), a.global_encoding == b.global_encoding, a.IsCopc() == b.IsCopc(), sameBytes(a.GUID(), b.GUID()), sameBytes(a.SystemIdentifier(), b.SystemIdentifier()), sameBytes(a.GeneratingSoftware(), b.GeneratingSoftware()));
}
static bool sameEbs(const las::EbVlr &a, const las::EbVlr &b)
{
    if (a.items.size() != b.items.size()) return false;
    int r = 1;
    for (size_t i = 0; i < a.items.size(); i++) r &= a.items[i].data_type == b.items[i].data_type && a.items[i].name == b.items[i].name;
    return r;
}
// the values of a set of extents (a copy of the set itself could share them)
struct Exts
{
    int fmt;
    bool ext;
    std::vector<copc::CopcExtent> x;
    Exts(const copc::CopcExtents &e) : fmt(e.PointFormatId()), ext(e.HasExtendedStats()), x(e.Extents()) {}
};
static bool sameExts(const Exts &a, const Exts &b)
{
    if (a.x.size() != b.x.size()) return false;
    int r = all(a.fmt == b.fmt, a.ext == b.ext);
    for (size_t i = 0; i < a.x.size(); i++) r &= sameX(a.x[i], b.x[i]);
    return r;
}
struct Snap
{
    las::LasHeader h;
    copc::CopcInfo i;
    Exts e;
    std::string w;
    las::EbVlr eb;
    Snap(const CopcConfig &c) : h(c.LasHeader()), i(c.CopcInfo()), e(c.CopcExtents()), w(c.Wkt()), eb(c.ExtraBytesVlr()) {}
    bool same(const CopcConfig &c) const { return all(sameHead(h, c.LasHeader()), sameInfo(i, c.CopcInfo()), sameExts(e, c.CopcExtents()), sameBytes(w, c.Wkt()), sameEbs(eb, c.ExtraBytesVlr())); }
};
static void fillHead(las::LasHeader &h)
{
    fill(h);
    ASSUME(all(!(h.min.x > h.max.x), !(h.min.y > h.max.y), !(h.min.z > h.max.z)));
    h.GUID(text(2, "guid"));
    h.SystemIdentifier(text(1, "sysid"));
    h.GeneratingSoftware(text(2, "soft"));
}
static void fillInfo(copc::CopcInfo &i)
{
    i.center_x = symF64("cx"); i.center_y = symF64("cy"); i.center_z = symF64("cz"); i.halfsize = symF64("hs"); i.spacing = symF64("sp");
    i.root_hier_offset = symU64("ro"); i.root_hier_size = symU64("rs");
}
static void fillExts(copc::CopcExtents &e)
{
    for (auto &x : e.Extents())
    {
        x->minimum = symF64("min"); x->maximum = symF64("max"); x->mean = symF64("mean"); x->var = symF64("var");
        ASSUME(all(!(x->minimum > x->maximum), !(x->var < 0)));
    }
}
static las::EbVlr named(int n, char c)
{
    las::EbVlr v = mkEb(n);
    for (auto &i : v.items) i.name += c;
    return v;
}
static int dims(int fmt) { return fmt == 6 ? 14 : fmt == 7 ? 17 : 18; }
// every subset of overrides
extern "C" void C25_override(void)
{
    int f0 = 6 + (int)sym_param("F0", 0), e0 = (int)sym_param("E0", 1);
    bool x0 = sym_choose("ext0", 2);
    std::string w0 = "ab";
    Vector3 s0(symF64("sx0"), symF64("sy0"), symF64("sz0")), o0(symF64("ox0"), symF64("oy0"), symF64("oz0"));
    CopcConfigWriter cfg(f0, s0, o0, w0, named(e0, 'a'), x0);
    fillHead(*cfg.LasHeader());
    fillInfo(*cfg.CopcInfo());
    fillExts(*cfg.CopcExtents());
    Snap was(cfg);
    int f1 = 6 + sym_choose("fmt", 4), e1 = sym_choose("eb", 4), x1 = sym_choose("ext", 3), m = sym_choose("which", (int)sym_param("M", 8));
    std::optional<int8_t> fmt;
    std::optional<Vector3> sc, of;
    std::optional<std::string> wkt;
    std::optional<las::EbVlr> eb;
    std::optional<bool> ext;
    if (f1 < 9) fmt = (int8_t)f1;
    if (e1 < 3) eb = named(e1, 'b');
    if (x1 < 2) ext = x1 == 1;
    if (m & 1) sc = Vector3(symF64("sx1"), symF64("sy1"), symF64("sz1"));
    if (m & 2) of = Vector3(symF64("ox1"), symF64("oy1"), symF64("oz1"));
    if (m & 4) wkt = std::string(m & 1 ? "" : "xyz"); // also none
    int ef = fmt ? f1 : f0, ee = eb ? e1 : e0;
    std::stringstream ss;
    bool disk = sym_param("D", 0);
    std::unique_ptr<Writer> wp;
    if (disk) wp.reset(new FileWriter("c25.copc", cfg, fmt, sc, of, wkt, eb, ext));
    else wp.reset(new Writer(ss, cfg, fmt, sc, of, wkt, eb, ext));
    Writer &w = *wp;
    std::shared_ptr<CopcConfigWriter> g = w.CopcConfig();
    las::LasHeader want(was.h, ef, baseSize(ef) + ee, sc ? *sc : s0, of ? *of : o0);
    ASSERT(sameHead(*g->LasHeader(), want), "header: only the given items are replaced, the record length follows");
    Vector3 es = sc ? *sc : s0, eo = of ? *of : o0;
    const las::LasHeader &gh = *g->LasHeader();
    ASSERT(all(gh.PointFormatId() == ef, gh.PointRecordLength() == baseSize(ef) + ee, bitsOf(gh.Scale().x) == bitsOf(es.x), bitsOf(gh.Scale().y) == bitsOf(es.y), bitsOf(gh.Scale().z) == bitsOf(es.z),
               bitsOf(gh.Offset().x) == bitsOf(eo.x), bitsOf(gh.Offset().y) == bitsOf(eo.y), bitsOf(gh.Offset().z) == bitsOf(eo.z)), "format, record length, scale and offset");
    ASSERT(g->LasHeader()->IsCopc(), "marked COPC");
    ASSERT(sameInfo(*g->CopcInfo(), was.i), "info is kept");
    ASSERT(sameBytes(g->Wkt(), wkt ? *wkt : w0), "WKT");
    ASSERT(sameEbs(g->ExtraBytesVlr(), eb ? *eb : was.eb), "extra-byte dimensions");
    copc::CopcExtents &ge = *g->CopcExtents();
    ASSERT(ge.PointFormatId() == ef && ge.NumberOfExtents() == (size_t)(dims(ef) + ee) && ge.HasExtendedStats() == (ext ? *ext : x0), "extents follow the format, dimensions and statistics flag");
    std::vector<copc::CopcExtent> a = ((const copc::CopcExtents &)ge).Extents(), b = was.e.x;
    int ok = 1, nd = dims(ef) < dims(f0) ? dims(ef) : dims(f0);
    for (int i = 0; i < nd; i++) ok &= sameX(a[i], b[i]);
    ASSERT(ok, "extents of the dimensions both formats have are kept");
    if (ee == e0)
        for (int i = 0; i < ee; i++) ok &= sameX(a[dims(ef) + i], b[dims(f0) + i]);
    ASSERT(ok, "extents of the extra bytes are kept");
    ASSERT(was.same(cfg), "the given configuration is unchanged");
    w.Close();
    std::unique_ptr<Reader> rp;
    if (disk) rp.reset(new FileReader("c25.copc"));
    else rp.reset(new Reader(&ss));
    Reader &r = *rp;
    ASSERT(r.CopcConfig().LasHeader().PointFormatId() == ef && r.CopcConfig().LasHeader().PointRecordLength() == baseSize(ef) + ee && r.CopcConfig().CopcExtents().NumberOfExtents() == (size_t)(dims(ef) + ee), "the file follows the effective configuration");
    ASSERT(was.same(cfg), "closing leaves the given configuration unchanged");
    REACH("done");
}
static void change(CopcConfigWriter &c, int what)
{
    copc::CopcExtents &e = *c.CopcExtents();
    switch (what)
    {
    case 0: c.LasHeader()->min.x = symF64("v"); c.LasHeader()->file_source_id = symU16("v2"); c.LasHeader()->points_by_return[3] = symU64("v3"); ASSUME(!(c.LasHeader()->min.x > c.LasHeader()->max.x)); break;
    case 1: c.LasHeader()->GUID(text(3, "v")); c.LasHeader()->GeneratingSoftware(text(3, "v")); c.LasHeader()->creation_day = symU16("v2"); break;
    case 2: c.CopcInfo()->spacing = symF64("v"); c.CopcInfo()->root_hier_offset = symU64("v2"); c.CopcInfo()->center_z = symF64("v3"); break;
    case 3: e.Z()->minimum = symF64("v"); e.Z()->var = 3; ASSUME(!(e.Z()->minimum > e.Z()->maximum)); break;
    case 4: e.Extents().back()->maximum = symF64("v"); ASSUME(!(e.Extents().back()->minimum > e.Extents().back()->maximum)); break;
    case 5: e.Intensity(std::make_shared<copc::CopcExtent>(1, 2)); break;
    default: *c.LasHeader() = las::LasHeader(c.LasHeader()->PointFormatId(), c.LasHeader()->PointRecordLength(), Vector3(2, 2, 2), Vector3(1, 1, 1), true); *c.CopcInfo() = copc::CopcInfo(); break;
    }
}
// several holders of one configuration: changing one leaves the others alone
extern "C" void C25_alias(void)
{
    int f = 6 + sym_choose("fmt", (int)sym_param("F", 2)), eb = sym_choose("eb", 2);
    CopcConfigWriter a(f, Vector3(1, 1, 1), Vector3(0, 0, 0), "w", mkEb(eb), true);
    fillHead(*a.LasHeader());
    fillInfo(*a.CopcInfo());
    fillExts(*a.CopcExtents());
    std::unique_ptr<CopcConfigWriter> b;
    CopcConfig base(a);
    switch (sym_choose("copy", 5))
    {
    case 0: b.reset(new CopcConfigWriter(a)); break;
    case 1: b.reset(new CopcConfigWriter(base)); break;
    case 2: b.reset(new CopcConfigWriter(6)); *b = a; break;
    case 3: b.reset(new CopcConfigWriter(*a.LasHeader(), *a.CopcInfo(), *a.CopcExtents(), a.Wkt(), a.ExtraBytesVlr())); break;
    default: { CopcConfig base2(las::LazConfig(*a.LasHeader(), a.Wkt(), a.ExtraBytesVlr()), *a.CopcInfo(), *a.CopcExtents()); b.reset(new CopcConfigWriter(base2)); } break;
    }
    std::stringstream ss;
    Writer w(ss, a);
    Snap s(a);
    ASSERT(s.same(*b) && s.same(base) && s.same(*w.CopcConfig()), "every holder starts with the same values");
    int who = sym_choose("who", 3), what = sym_choose("what", 7);
    change(who == 0 ? a : who == 1 ? *b : *w.CopcConfig(), what);
    ASSERT(who == 0 || s.same(a), "the original is not changed through a copy or a writer");
    ASSERT(who == 1 || s.same(*b), "a copy is not changed through the original or a writer");
    ASSERT(who == 2 || s.same(*w.CopcConfig()), "a writer is not changed through a configuration");
    ASSERT(s.same(base), "a plain copy is not changed");
    REACH("done");
}
// readers: what they return is the caller's own
extern "C" void C25_reader(void)
{
    std::stringstream ss;
    CopcConfigWriter a(7, Vector3(1, 1, 1), Vector3(0, 0, 0), "w", mkEb(1), true);
    {
        Writer w(ss, a);
        w.Close();
    }
    Reader r(&ss);
    Snap s(r.CopcConfig());
    CopcConfigWriter c(r.CopcConfig());
    ASSERT(s.same(c) && c.LasHeader()->IsCopc(), "the writer configuration copies the reader's");
    change(c, sym_choose("what", 7));
    ASSERT(s.same(r.CopcConfig()), "the reader is not changed");
    CopcConfig d = r.CopcConfig(), d2;
    d2 = d;
    *c.CopcExtents()->X() = copc::CopcExtent(3, 4);
    ASSERT(s.same(d) && s.same(d2), "copies are not changed");
    las::LazConfig lz(d);
    ASSERT(!lz.LasHeader().IsCopc() && sameBytes(lz.Wkt(), s.w) && sameEbs(lz.ExtraBytesVlr(), s.eb) && sameUser(lz.LasHeader(), s.h), "a LAZ configuration made from a COPC one keeps all but the mark");
    REACH("done");
}
extern "C" void C25_laz(void)
{
    int f = 6 + sym_choose("fmt", 3), eb = sym_choose("eb", 3);
    double v[6];
    for (int i = 0; i < 6; i++) v[i] = symF64("so");
    las::LazConfigWriter a(f, Vector3(v[0], v[1], v[2]), Vector3(v[3], v[4], v[5]), "w", mkEb(eb));
    const las::LasHeader &ah = *a.LasHeader();
    ASSERT(all(ah.PointFormatId() == f, ah.PointRecordLength() == baseSize(f) + eb, !ah.IsCopc(), bitsOf(ah.Scale().x) == bitsOf(v[0]), bitsOf(ah.Scale().y) == bitsOf(v[1]), bitsOf(ah.Scale().z) == bitsOf(v[2]),
               bitsOf(ah.Offset().x) == bitsOf(v[3]), bitsOf(ah.Offset().y) == bitsOf(v[4]), bitsOf(ah.Offset().z) == bitsOf(v[5])), "the arguments");
    ASSERT(sameBytes(a.Wkt(), "w") && sameEbs(a.ExtraBytesVlr(), mkEb(eb)), "the records");
    fillHead(*a.LasHeader());
    las::LasHeader was(*a.LasHeader());
    std::unique_ptr<las::LazConfigWriter> b;
    las::LazConfig base((const las::LazConfig &)a);
    switch (sym_choose("copy", 4))
    {
    case 0: b.reset(new las::LazConfigWriter(a)); break;
    case 1: b.reset(new las::LazConfigWriter(base)); break;
    case 2: b.reset(new las::LazConfigWriter(6)); *b = a; break;
    default: b.reset(new las::LazConfigWriter(las::LazConfig(*a.LasHeader(), a.Wkt(), a.ExtraBytesVlr()))); break;
    }
    std::stringstream ss;
    LazWriter w(ss, a);
    ASSERT(all(sameHead(was, *b->LasHeader()), sameHead(was, base.LasHeader()), sameHead(was, *w.LazConfig()->LasHeader())), "every holder starts with the same header");
    ASSERT(sameBytes(b->Wkt(), "w") && sameBytes(w.LazConfig()->Wkt(), "w") && sameEbs(b->ExtraBytesVlr(), mkEb(eb)) && sameEbs(w.LazConfig()->ExtraBytesVlr(), mkEb(eb)), "and the same WKT and dimensions");
    ASSERT(w.LazConfig()->LasHeader()->PointRecordLength() == baseSize(f) + eb && !w.LazConfig()->LasHeader()->IsCopc(), "record length; not COPC");
    int who = sym_choose("who", 3);
    las::LasHeader &h = who == 0 ? *a.LasHeader() : who == 1 ? *b->LasHeader() : *w.LazConfig()->LasHeader();
    h.min.y = symF64("v"); h.creation_day = symU16("v2"); h.GUID(text(3, "v3")); h.points_by_return[14] = symU64("v4");
    ASSERT(who == 0 || sameHead(was, *a.LasHeader()), "the original is not changed through a copy or a writer");
    ASSERT(who == 1 || sameHead(was, *b->LasHeader()), "a copy is not changed through the original or a writer");
    ASSERT(who == 2 || sameHead(was, *w.LazConfig()->LasHeader()), "a writer is not changed through a configuration");
    ASSERT(sameHead(was, base.LasHeader()), "a plain copy is not changed");
    REACH("done");
}
// every way to make a header has what it was given
extern "C" void C25_header(void)
{
    int8_t f = 6 + sym_choose("fmt", 3);
    uint16_t len = symU16("len");
    double v[6];
    for (int i = 0; i < 6; i++) v[i] = symF64("so");
    Vector3 sc(v[0], v[1], v[2]), of(v[3], v[4], v[5]);
    bool copc = sym_choose("copc", 2);
    las::LasHeader a(f, len, sc, of, copc), o(8, 40, Vector3(7, 8, 9), Vector3(4, 5, 6), copc);
    fillHead(o);
    las::LasHeader b(o, f, len, sc, of), c(o, !copc);
    ASSERT(all(a.PointFormatId() == f, a.PointRecordLength() == len, a.IsCopc() == copc, sameBits(a.Scale(), sc), sameBits(a.Offset(), of)), "of its own");
    ASSERT(all(b.PointFormatId() == f, b.PointRecordLength() == len, b.IsCopc() == copc, sameBits(b.Scale(), sc), sameBits(b.Offset(), of)), "with another format");
    int ok = all(b.file_source_id == o.file_source_id, b.global_encoding == o.global_encoding, b.creation_day == o.creation_day, b.creation_year == o.creation_year, sameBits(b.min, o.min), sameBits(b.max, o.max),
                 sameBytes(b.GUID(), o.GUID()), sameBytes(b.SystemIdentifier(), o.SystemIdentifier()), sameBytes(b.GeneratingSoftware(), o.GeneratingSoftware()));
    for (int i = 0; i < 15; i++) ok &= b.points_by_return[i] == o.points_by_return[i];
    ASSERT(ok, "and the rest of the other header");
    ASSERT(all(c.IsCopc() == !copc, c.PointFormatId() == 8, c.PointRecordLength() == 40, sameBits(c.Scale(), Vector3(7, 8, 9)), sameBits(c.Offset(), Vector3(4, 5, 6))), "with another mark");
    REACH("done");
}
extern "C" void C25_format(void)
{
    int8_t f = (int8_t)symU8("fmt");
    bool bad = f < 6 || f > 8;
    int kind = sym_choose("kind", 3), len = -1, copc = -1;
    std::stringstream ss;
    bool t = throws([&] {
        if (kind == 0) { CopcConfigWriter c(f); len = c.LasHeader()->PointRecordLength(); copc = c.LasHeader()->IsCopc(); }
        else if (kind == 1) { las::LazConfigWriter c(f); len = c.LasHeader()->PointRecordLength(); copc = c.LasHeader()->IsCopc(); }
        else
        {
            CopcConfigWriter c(7);
            Writer w(ss, c, f);
            len = w.CopcConfig()->LasHeader()->PointRecordLength();
            copc = w.CopcConfig()->LasHeader()->IsCopc();
        }
    });
    ASSERT(t == bad, "only formats 6-8 are accepted");
    if (!t) ASSERT(len == baseSize(f) && copc == (kind != 1), "record length and COPC mark");
    REACH(t ? "rejected" : "done");
}
