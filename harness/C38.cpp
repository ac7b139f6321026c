// C38: a file copied through a reader and a writer is the same file
#include "hdr.h"
#include "plan.h"
static las::EbVlr anyEb(int n)
{
    las::EbVlr v(0);
    for (int i = 0; i < n; i++)
    {
        las::EbVlr::ebfield f;
        f.data_type = (unsigned char)(1 + sym_choose("type", 2)); // unsigned char, char
        f.options = symU8("opt");
        f.name = std::string("n") + (char)('0' + i);
        f.description = text(1, "desc");
        v.addItem(f);
    }
    return v;
}
static void anyHeader(las::LasHeader &h)
{
    fill(h);
    ASSUME(all(!(h.min.x > h.max.x), !(h.min.y > h.max.y), !(h.min.z > h.max.z)));
    h.GUID(text((int)sym_param("G", 16), "guid"));
    h.SystemIdentifier(text(2, "sysid"));
    h.GeneratingSoftware(text(1, "soft"));
}
static void anyCopc(CopcConfigWriter &c)
{
    anyHeader(*c.LasHeader());
    auto i = c.CopcInfo();
    i->center_x = symF64("cx");
    i->center_y = symF64("cy");
    i->center_z = symF64("cz");
    i->halfsize = symF64("hs");
    i->spacing = symF64("sp");
    for (auto &x : c.CopcExtents()->Extents())
    {
        x->minimum = symF64("min");
        x->maximum = symF64("max");
        x->mean = symF64("mean");
        x->var = symF64("var");
        ASSUME(all(!(x->minimum > x->maximum), !(x->var < 0)));
    }
}
static bool sameText(const std::vector<std::string> &a, const std::vector<std::string> &b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (!sameBytes(a[i], b[i])) return false;
    return true;
}
static bool sameHead(const las::LasHeader &a, const las::LasHeader &b)
{
    return all(sameUser(a, b), a.global_encoding == b.global_encoding, a.PointCount() == b.PointCount(), sameBytes(a.GUID(), b.GUID()), sameBytes(a.SystemIdentifier(), b.SystemIdentifier()),
               sameBytes(a.GeneratingSoftware(), b.GeneratingSoftware()));
}
extern "C" void C38_copc(void)
{
    int fmt = 6 + (int)sym_param("F", 0), eb = (int)sym_param("EB", 1), rec = baseSize(fmt) + eb, n = (int)sym_param("N", 2);
    CopcConfigWriter cfg(fmt, Vector3(1, 1, 1), Vector3(0, 0, 0), text((int)sym_param("W", 2), "wkt"), anyEb(eb), sym_param("X", 1));
    anyCopc(cfg);
    static const int K[3][4] = {{2, 3, 1, 2}, {0, 0, 0, 0}, {1, 1, 0, 1}};
    std::stringstream a, b;
    {
        Writer w(a, cfg);
        for (int i = 0; i < n; i++)
        {
            VoxelKey k(K[i][0], K[i][1], K[i][2], K[i][3]);
            w.AddNode(k, mkRaw(rec, 1 + sym_choose("points", 2)), sym_choose("page", 2) && i == 0 ? VoxelKey(1, 1, 0, 1) : VoxelKey(0, 0, 0, 0));
        }
        w.Close();
    }
    std::string was = a.str();
    int how = sym_choose("how", 4);
    Reader r(&a);
    auto nodes = r.GetAllNodes();
    for (size_t i = 0; i < nodes.size(); i++) // in the order in which they lie in the file
        for (size_t j = i + 1; j < nodes.size(); j++)
            if (nodes[j].offset < nodes[i].offset) std::swap(nodes[i], nodes[j]);
    {
        CopcConfigWriter c(r.CopcConfig());
        Writer w(b, how & 1 ? c : CopcConfigWriter(c.LasHeader() ? *c.LasHeader() : las::LasHeader(), *c.CopcInfo(), *c.CopcExtents(), c.Wkt(), c.ExtraBytesVlr()));
        for (auto &e : nodes)
        {
            if (how == 0) w.AddNodeCompressed(e.key, r.GetPointDataCompressed(e), e.point_count, e.page_key);
            if (how == 1) w.AddNode(e.key, r.GetPointData(e), e.page_key);
            if (how == 2) w.AddNode(e.key, r.GetPoints(e), e.page_key);
            if (how == 3) w.AddNodeCompressed(e.key, r.GetPointDataCompressed(e.key), e.point_count, e.page_key);
        }
        w.Close();
    }
    ASSERT(sameBytes(a.str(), was), "reading doesn't change the file");
    ASSERT(sameBytes(b.str(), was), "the copy is the same file");
    Reader q(&b);
    Ans x = config(r), y = config(q);
    ASSERT(all(sameHead(x.h, y.h), sameInfo(x.info, y.info), sameDs(x.ext, y.ext), sameBytes(x.wkt, y.wkt), sameText(x.eb, y.eb)), "the same configuration");
    ASSERT(sameSet(q.GetAllNodes(), nodes), "the same nodes");
    REACH("done");
}
extern "C" void C38_laz(void)
{
    int fmt = 6 + (int)sym_param("F", 0), eb = (int)sym_param("EB", 1), rec = baseSize(fmt) + eb, n = sym_choose("n", (int)sym_param("N", 3));
    std::stringstream a, b;
    Bytes all_;
    int from = sym_choose("copc", 2), how = sym_choose("how", 2);
    std::string wkt = text((int)sym_param("W", 2), "wkt");
    las::EbVlr ebs = anyEb(eb);
    if (from)
    {
        CopcConfigWriter cfg(fmt, Vector3(1, 1, 1), Vector3(0, 0, 0), wkt, ebs);
        anyCopc(cfg);
        Writer w(a, cfg);
        for (int i = 0; i < n; i++)
        {
            Bytes d = mkRaw(rec, 1);
            w.AddNode(VoxelKey(i, 0, 0, 0), d);
            all_.insert(all_.end(), d.begin(), d.end());
        }
        w.Close();
    }
    else
    {
        las::LazConfigWriter cfg(fmt, Vector3(1, 1, 1), Vector3(0, 0, 0), wkt, ebs);
        anyHeader(*cfg.LasHeader());
        LazWriter w(a, cfg);
        for (int i = 0; i < n; i++)
        {
            Bytes d = mkRaw(rec, 1);
            w.WritePoints(las::Points::Unpack(d, *w.LazConfig()->LasHeader()));
            all_.insert(all_.end(), d.begin(), d.end());
        }
        w.Close();
    }
    std::string was = a.str();
    LazReader r(&a);
    las::LazConfig rc = r.LazConfig();
    if (from)
    { // the same through a COPC reader
        std::stringstream c(was);
        Reader cr(&c);
        las::LazConfig lz((const CopcConfig &)cr.CopcConfig());
        ASSERT(all(sameHead(lz.LasHeader(), rc.LasHeader()), sameBytes(lz.Wkt(), rc.Wkt()), sameText(ebOf(lz.ExtraBytesVlr()), ebOf(rc.ExtraBytesVlr()))), "a COPC file is read alike as LAZ");
        if (how) rc = lz;
    }
    {
        LazWriter w(b, las::LazConfigWriter(rc));
        if (how || !n) w.WritePoints(r.GetPoints());
        else
            for (int i = 0; i < n; i++)
            {
                Bytes d = r.GetPointData();
                w.WritePoints(las::Points::Unpack(Bytes(d.begin() + i * rec, d.begin() + (i + 1) * rec), rc.LasHeader()));
            }
        w.Close();
    }
    ASSERT(sameBytes(a.str(), was), "reading doesn't change the file");
    if (!from && (!how || n == 1)) ASSERT(sameBytes(b.str(), was), "the copy is the same file");
    LazReader q(&b);
    las::LazConfig qc = q.LazConfig();
    ASSERT(all(sameHead(rc.LasHeader(), qc.LasHeader()), sameBytes(qc.Wkt(), wkt), sameText(ebOf(qc.ExtraBytesVlr()), ebOf(ebs)), !qc.LasHeader().IsCopc()), "the same configuration");
    ASSERT(sameBytes(q.GetPointData(), all_), "the same points");
    REACH("done");
}
