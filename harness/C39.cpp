// C39: what is written and read depends on the calls made and their arguments, on nothing else
#include "hdr.h"
#include "plan.h"
#include "copc-lib/laz/compressor.hpp"
#include "copc-lib/laz/decompressor.hpp"
// everything that was seen, byte for byte
struct Book
{
    std::vector<std::string> t;
    template <class T> void raw(const T &v) { t.push_back(std::string((const char *)&v, sizeof v)); }
    void str(const std::string &s) { t.push_back(s); }
    void bytes(const Bytes &b) { t.push_back(std::string(b.begin(), b.end())); }
    void vec(const Vector3 &v) { raw(v.x), raw(v.y), raw(v.z); }
    void box(const Box &b) { raw(b.x_min), raw(b.y_min), raw(b.z_min), raw(b.x_max), raw(b.y_max), raw(b.z_max); }
    void key(const VoxelKey &k) { raw(k.d), raw(k.x), raw(k.y), raw(k.z); }
    void entry(const Entry &e) { key(e.key), raw(e.offset), raw(e.byte_size), raw(e.point_count); }
    void node(const Node &n) { entry(n), key(n.page_key); }
    void head(const las::LasHeader &h)
    {
        raw(h.file_source_id), raw(h.global_encoding), raw(h.creation_day), raw(h.creation_year), vec(h.min), vec(h.max);
        for (auto &p : h.points_by_return) raw(p);
        raw(h.PointFormatId()), raw(h.PointRecordLength()), raw(h.PointCount()), raw(h.VlrCount()), raw(h.PointOffset()), raw(h.EvlrOffset()), raw(h.EvlrCount()), raw(h.IsCopc()), vec(h.Scale()), vec(h.Offset());
        raw(h.EbByteSize()), raw(h.Span());
        str(h.GUID()), str(h.SystemIdentifier()), str(h.GeneratingSoftware());
    }
    void info(const CopcInfo &i) { raw(i.center_x), raw(i.center_y), raw(i.center_z), raw(i.halfsize), raw(i.spacing), raw(i.root_hier_offset), raw(i.root_hier_size); }
    void ext(CopcExtents e)
    {
        raw(e.PointFormatId()), raw(e.HasExtendedStats());
        for (double d : extOf(e)) raw(d);
    }
    void ebs(const las::EbVlr &v)
    {
        raw(v.items.size());
        for (auto &f : v.items)
        {
            raw(f.reserved), raw(f.data_type), raw(f.options), str(f.name), raw(f.unused), raw(f.no_data), raw(f.minval), raw(f.maxval), raw(f.scale), raw(f.offset), str(f.description);
        }
    }
    void point(las::Point p)
    {
        raw(p.X()), raw(p.Y()), raw(p.Z()), raw(p.Intensity()), raw(p.ReturnsBitField()), raw(p.FlagsBitField()), raw(p.Classification()), raw(p.ScanAngle()), raw(p.UserData()), raw(p.PointSourceId()), raw(p.GPSTime());
        if (p.HasRgb()) raw(p.Red()), raw(p.Green()), raw(p.Blue());
        if (p.HasNir()) raw(p.Nir());
        for (auto e : p.ExtraBytes()) raw(e);
        raw(p.PointFormatId()), raw(p.PointRecordLength()), raw(p.EbByteSize());
        std::stringstream s;
        p.Pack(s, Vector3(1, 1, 1), Vector3(0, 0, 0));
        str(s.str());
    }
    void vlr(const las::VlrHeader &h) { raw(h.reserved), str(h.user_id), raw(h.record_id), raw(h.data_length), str(h.description), raw(h.evlr_flag); }
    bool same(const Book &o) const
    {
        if (t.size() != o.t.size()) return false;
        for (size_t i = 0; i < t.size(); i++)
            if (!sameBytes(t[i], o.t[i])) return false;
        return true;
    }
};
static std::string write(const Plan &q, Book *b = nullptr)
{
    std::stringstream ss;
    Writer w(ss, mkConfig(q));
    for (int i = 0; i < q.n; i++)
    {
        Node n = w.AddNode(q.k[i], q.d[i], q.p[i]);
        if (b) b->node(n);
    }
    w.Close();
    return ss.str();
}
static void readAll(Book &b, Reader &r, const Plan &q, bool bounds = false)
{
    auto c = r.CopcConfig();
    b.head(c.LasHeader()), b.info(c.CopcInfo()), b.ext(c.CopcExtents()), b.str(c.Wkt()), b.ebs(c.ExtraBytesVlr());
    for (int i = 0; i < q.n; i++)
    {
        b.node(r.FindNode(q.k[i])), b.bytes(r.GetPointData(q.k[i])), b.bytes(r.GetPointDataCompressed(q.k[i]));
        auto p = r.GetPoints(q.k[i]);
        for (size_t j = 0; j < p.Size(); j++) b.point(*p.Get(j));
    }
    b.node(r.FindNode(VoxelKey(3, 0, 0, 0)));
    b.raw(r.GetAllNodes().size()), b.raw(r.GetPageList().size()), b.raw(r.GetMaxDepth()), b.raw(r.GetDepthAtResolution(0.5)), b.raw(r.GetAllPoints().Size());
    if (bounds) b.raw(r.ValidateSpatialBounds());
}
// the content of fresh memory is never seen
static void objects(Book &b, const Plan &q)
{
    b.head(las::LasHeader()), b.info(CopcInfo()), b.vec(Vector3()), b.box(Box()), b.key(VoxelKey()), b.entry(Entry()), b.node(Node());
    b.vlr(las::VlrHeader());
    las::LasHeader h(las::LasHeader(), (int8_t)q.fmt, (uint16_t)(baseSize(q.fmt) + q.eb), Vector3(1, 1, 1), Vector3(0, 0, 0));
    b.head(h);
    b.point(las::Point((int8_t)q.fmt, (uint16_t)q.eb)), b.point(las::Point(h));
    las::Points ps(h);
    ps.AddPoint(ps.CreatePoint());
    b.point(*ps.Get(0));
    las::Point c((int8_t)6, (uint16_t)q.eb);
    c.ToPointFormat((int8_t)q.fmt);
    b.point(c);
    CopcExtents e((int8_t)q.fmt, (uint16_t)q.eb, true);
    b.ext(e);
    b.raw(Box(VoxelKey(1, 1, 0, 1), h).x_max);
    CopcConfigWriter cfg = mkConfig(q);
    b.head(*cfg.LasHeader()), b.info(*cfg.CopcInfo()), b.ext(*cfg.CopcExtents()), b.ebs(cfg.ExtraBytesVlr());
    b.ebs(mkEb(2));
    std::stringstream s;
    h.ToLazPerf(375, 5, 6, 7, q.eb > 0, false).write(s);
    cfg.CopcExtents()->ToLazPerf({1, 2}, {3, 4}, {5, 6}).write(s);
    cfg.CopcExtents()->ToLazPerfExtended().write(s);
    cfg.CopcExtents()->ToLazPerf({1, 2}, {3, 4}, {5, 6}).header().write(s);
    cfg.CopcInfo()->ToLazPerf({1, 2}).write(s);
    Entry(VoxelKey(1, 1, 1, 1), 5, 6, 7).Pack(s);
    las::VlrHeader vh;
    vh.user_id = "u";
    vh.ToLazperfVlrHeader().write(s), vh.ToLazperfEvlrHeader().write(s);
    b.str(s.str());
    b.vlr(las::VlrHeader(vh)), b.vlr(las::VlrHeader(vh.ToLazperfVlrHeader())), b.vlr(las::VlrHeader(vh.ToLazperfEvlrHeader()));
    b.str(h.ToString()), b.str(VoxelKey(1, 1, 0, 1).ToString());
}
static void copcStory(Book &b, const Plan &q)
{
    std::string s = write(q, &b);
    b.str(s);
    std::stringstream ss(s);
    Reader r(&ss);
    readAll(b, r, q, true);
}
static void lazStory(Book &b, const Plan &q)
{
    std::stringstream ss;
    LazWriter w(ss, lazConfig(q));
    for (int i = 0; i < q.n; i++) addLaz(w, q, i);
    b.raw(w.PointCount()), b.raw(w.ChunkCount());
    w.Close();
    b.str(ss.str());
    LazReader r(&ss);
    b.head(r.LazConfig().LasHeader()), b.ebs(r.LazConfig().ExtraBytesVlr()), b.str(r.LazConfig().Wkt()), b.bytes(r.GetPointData());
    auto p = r.GetPoints();
    for (size_t j = 0; j < p.Size(); j++) b.point(*p.Get(j));
}
static void story(int what, Book &b, const Plan &q)
{
    if (what == 0) objects(b, q);
    if (what == 1) copcStory(b, q);
    if (what == 2) lazStory(b, q);
}
extern "C" void C39_memory(void)
{
    Plan q = plan();
    int what = sym_choose("what", 3), again = sym_choose("fill", 2);
    Book a, b;
    sym_fill(0);
    story(what, a, q);
    sym_fill(again ? 0xff : 0x5a);
    story(what, b, q);
    sym_fill(-1);
    ASSERT(a.t.size() > 10, "something was seen");
    ASSERT(a.same(b), "the same calls have the same results");
    REACH("done");
}
// others at work in between change nothing: each actor has its own book and does its steps in order
struct Actor
{
    Plan q;
    int kind;
    int at = 0;
    Book b;
    std::stringstream ss;
    std::unique_ptr<Writer> w;
    std::unique_ptr<LazWriter> lw;
    std::unique_ptr<Reader> r;
    std::unique_ptr<LazReader> lr;
    std::unique_ptr<las::Points> ps;
    Actor(const Plan &p, int k) : q(p), kind(k) {}
    // 0: writes COPC; 1: writes LAZ; 2: reads COPC; 3: reads LAZ; 4: works on points
    bool step()
    {
        int i = at++;
        switch (kind)
        {
        case 0:
            if (i == 0) w.reset(new Writer(ss, mkConfig(q)));
            else if (i <= q.n)
            {
                b.node(w->AddNode(q.k[i - 1], q.d[i - 1], q.p[i - 1]));
                b.node(w->FindNode(q.k[0]));
            }
            else
            {
                w->Close();
                w.reset();
                b.str(ss.str());
                return false;
            }
            return true;
        case 1:
            if (i == 0) lw.reset(new LazWriter(ss, lazConfig(q)));
            else if (i <= q.n) addLaz(*lw, q, i - 1);
            else
            {
                lw->Close();
                lw.reset();
                b.str(ss.str());
                return false;
            }
            return true;
        case 2:
            if (i == 0)
            {
                ss.str(write(q));
                r.reset(new Reader(&ss));
            }
            else if (i == 1)
            {
                auto c = r->CopcConfig();
                b.head(c.LasHeader()), b.info(c.CopcInfo()), b.ext(c.CopcExtents()), b.str(c.Wkt()), b.ebs(c.ExtraBytesVlr());
                b.node(r->FindNode(q.k[0]));
            }
            else
            {
                readAll(b, *r, q);
                return false;
            }
            return true;
        case 3:
            if (i == 0)
            {
                LazWriter v(ss, lazConfig(q));
                for (int j = 0; j < q.n; j++) addLaz(v, q, j);
                v.Close();
                lr.reset(new LazReader(&ss));
            }
            else if (i == 1) b.bytes(lr->GetPointData());
            else
            {
                b.head(lr->LazConfig().LasHeader()), b.str(lr->LazConfig().Wkt()), b.bytes(lr->GetPointData());
                return false;
            }
            return true;
        default:
            if (i == 0)
            {
                ps.reset(new las::Points((int8_t)q.fmt, (uint16_t)q.eb));
                for (int j = 0; j < q.n; j++) ps->AddPoints(las::Points::Unpack(q.d[j], (int8_t)q.fmt, (uint16_t)q.eb, Vector3(1, 1, 1), Vector3(0, 0, 0)));
            }
            else if (i == 1)
            {
                if (q.n) ps->Get(0)->X(5), ps->Get(0)->Classification(3);
                ps->ToPointFormat(7);
            }
            else
            {
                for (size_t j = 0; j < ps->Size(); j++) b.point(*ps->Get(j));
                b.bytes(ps->Pack(Vector3(1, 1, 1), Vector3(0, 0, 0)));
                b.bytes(copc::laz::Compressor::CompressBytes(ps->Pack(Vector3(1, 1, 1), Vector3(0, 0, 0)), 7, (uint16_t)q.eb));
                return false;
            }
            return true;
        }
    }
};
extern "C" void C39_others(void)
{
    int ka = (int)sym_param("A", 0), kb = ka + sym_choose("other", 5 - ka); // the others the other way round
    Plan q[2];
    for (int i = 0; i < 2; i++)
    {
        q[i] = plan();
        if (i) q[i].fmt = 6 + (q[0].fmt - 5) % 3, q[i].w = "other", q[i].ext = !q[0].ext, q[i].eb = 2 - q[0].eb;
        for (int j = 0; j < q[i].n && i; j++) q[i].d[j] = mkRaw(baseSize(q[i].fmt) + q[i].eb, 2);
    }
    Actor a0(q[0], ka), b0(q[1], kb);
    while (a0.step()) {}
    while (b0.step()) {}
    Actor a(q[0], ka), b(q[1], kb);
    bool ga = true, gb = true;
    while (ga || gb)
    {
        bool first = ga && (!gb || sym_choose("turn", 2));
        if (first) ga = a.step();
        else gb = b.step();
    }
    ASSERT(a.b.same(a0.b) && b.b.same(b0.b), "others at work in between change nothing");
    REACH("done");
}
