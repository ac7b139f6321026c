// C32: opening a file accepts COPC files and rejects others
#include "mut.h"
#include "hdr.h"
static bool opens(const std::string &s)
{
    std::stringstream ss(s);
    return !throws([&] { Reader r(&ss); });
}
static bool opensLaz(const std::string &s)
{
    std::stringstream ss(s);
    return !throws([&] { LazReader r(&ss); });
}
// what the writer closed is opened and its configuration is exposed
extern "C" void C32_open(void)
{
    int fmt = 6 + sym_choose("fmt", 3), eb = sym_choose("eb", (int)sym_param("EB", 2)), n = sym_choose("n", (int)sym_param("N", 3));
    bool ext = sym_choose("ext", 2);
    static const int WL[3] = {0, 5, 70};
    std::string w(WL[sym_choose("wkt", 3)], 'w');
    if (!w.empty()) sym_bytes(&w[0], w.size(), "wkt");
    CopcConfigWriter cfg(fmt, Vector3(symF64("sx"), symF64("sy"), symF64("sz")), Vector3(symF64("ox"), symF64("oy"), symF64("oz")), w, mkEb(eb), ext);
    std::stringstream ss;
    std::vector<VoxelKey> pages;
    uint64_t pts = 0;
    std::string g = text(9, "guid");
    {
        Writer wr(ss, cfg);
        auto c = wr.CopcConfig();
        fill(*c->LasHeader());
        ASSUME(all(c->LasHeader()->min.x <= c->LasHeader()->max.x, c->LasHeader()->min.y <= c->LasHeader()->max.y, c->LasHeader()->min.z <= c->LasHeader()->max.z));
        c->LasHeader()->GUID(g);
        auto i = c->CopcInfo();
        i->center_x = symF64("cx"); i->center_y = symF64("cy"); i->center_z = symF64("cz"); i->halfsize = symF64("hs"); i->spacing = symF64("sp");
        auto e = c->CopcExtents();
        int rec = baseSize(fmt) + eb;
        for (int k = 0; k < n; k++)
        {
            wr.AddNode(VoxelKey(k, k, 0, 0), Bytes(rec * (k + 1), 7), VoxelKey(sym_choose("page", k + 1), 0, 0, 0).d == k ? VoxelKey(k, k, 0, 0) : VoxelKey(0, 0, 0, 0));
            pts += k + 1;
        }
        wr.Close();
        std::string s = ss.str();
        std::stringstream rs(s);
        bool t = throws([&] {
            Reader r(&rs);
            auto q = r.CopcConfig();
            ASSERT(sameUser(q.LasHeader(), *c->LasHeader()), "the header");
            ASSERT(all(q.LasHeader().GUID() == g, q.LasHeader().global_encoding == (c->LasHeader()->global_encoding | 0x10), q.LasHeader().PointCount() == pts), "the header's identification and point count");
            auto j = q.CopcInfo();
            ASSERT(all(bitsOf(j.center_x) == bitsOf(i->center_x), bitsOf(j.center_y) == bitsOf(i->center_y), bitsOf(j.center_z) == bitsOf(i->center_z), bitsOf(j.halfsize) == bitsOf(i->halfsize), bitsOf(j.spacing) == bitsOf(i->spacing)), "the info record");
            ASSERT(sameBytes(q.Wkt(), w), "the WKT");
            ASSERT((int)q.ExtraBytesVlr().items.size() == eb, "the descriptors");
            ASSERT(q.CopcExtents().HasExtendedStats() == ext && (int)q.CopcExtents().NumberOfExtents() == (fmt == 6 ? 14 : fmt == 7 ? 17 : 18) + eb, "the extents");
            ASSERT(r.GetAllNodes().size() == (size_t)n, "the hierarchy");
            OBS("pts", q.LasHeader().PointCount());
        });
        ASSERT(!t, "the file is opened");
        // a plain LAZ reader can open it, too
        std::stringstream ls(s);
        ASSERT(!throws([&] { LazReader r(&ls); ASSERT(r.LazConfig().LasHeader().PointCount() == pts, "as a LAZ file"); }), "opened as a LAZ file");
    }
    REACH("done");
}
// identifying fields replaced by arbitrary values
extern "C" void C32_ident(void)
{
    bool copc = sym_choose("copc", 2);
    int fmt = 6 + sym_choose("fmt", 3), eb = sym_choose("eb", 2), base = baseSize(fmt);
    std::string s = copc ? copcFile(fmt, eb, 2, true) : lazFile(fmt, eb, 2);
    ASSERT(copc ? opens(s) : opensLaz(s), "the file as written is opened");
    ASSERT(opens(s) == copc, "a COPC reader opens COPC files only");
    int what = sym_choose("what", 6);
    bool ok = true;
    if (what == 0) // version
    {
        uint8_t a = symU8("maj"), b = symU8("min");
        put(s, 24, 1, a);
        put(s, 25, 1, b);
        ok = all(a == 1, b == 4);
    }
    else if (what == 1) // header size
    {
        uint16_t h = symU16("hs");
        int c = sym_choose("hsv", 4);
        ASSUME(c == 0 ? h < 375 : c == 1 ? h == 376 : c == 2 ? h == 375 : h > 20000); // (reading on at an arbitrary position inside the file is C23's)
        static const uint16_t V[5] = {0, 227, 235, 335, 374};
        if (c == 0) h = V[sym_choose("small", 5)];
        if (c == 3) h = 65535;
        put(s, 94, 2, h);
        ok = h == 375;
    }
    else if (what == 2) // format
    {
        uint8_t f = (uint8_t)(0x80 | sym_choose("f", 64));
        put(s, 104, 1, f);
        int g = f & 0x3f;
        ok = g >= 6 && g <= 8 && base + eb >= baseSize(g);
        if (copc && ok && g != fmt) return; // (the extents record is for another format: out of scope)
    }
    else if (what == 3) // global encoding
    {
        uint16_t e = symU16("enc");
        put(s, 6, 2, e);
        ok = (e & 0x10) != 0;
    }
    else if (what == 4) // record length
    {
        uint16_t l = symU16("len");
        static const uint16_t V[5] = {0, 1, 250, 300, 9000};
        int c = sym_choose("lenv", 6);
        if (c == 0) ASSUME(l < base);
        else { ASSUME(l == base + V[c - 1]); l = base + V[c - 1]; }
        put(s, 105, 2, l);
        ok = l >= base;
    }
    else // fields that identify nothing
    {
        put(s, 4, 2, symU16("fsid"));
        int at = sym_choose("text", 3), n[3] = {8, 26, 58}, l[3] = {16, 32, 32};
        sym_bytes(&s[n[at]], l[at], "text");
        sym_bytes(&s[90], 4, "day");
        sym_bytes(&s[107], 24, "legacy");
        put(s, 255, 8, symU64("ret"));
    }
    bool got = copc ? opens(s) : opensLaz(s);
    ASSERT(got == ok, "opened exactly when the header is a supported one");
    OBS("ok", ok);
    REACH(ok ? "done" : "rejected");
}
// COPC records replaced
extern "C" void C32_records(void)
{
    int fmt = 6;
    std::string s = copcFile(fmt, 1, 2, true, sym_choose("sub", 2));
    Layout L;
    L.parse(s);
    int what = sym_choose("what", 7);
    bool ok = true;
    if (what == 0 || what == 1) // info record: user id or record id
    {
        if (what == 0)
        {
            int i = sym_choose("at", 6);
            uint8_t c = symU8("chr");
            ASSUME(c != 0);
            ok = (char)c == s[L.vlrs[0].at + 2 + i];
            s[L.vlrs[0].at + 2 + i] = c;
        }
        else
        {
            uint16_t id = symU16("id");
            put(s, L.vlrs[0].at + 18, 2, id);
            ok = id == 1;
            ASSUME(id != 1000 && id != 10000);
        }
    }
    else if (what == 2 || what == 3) // hierarchy records
    {
        uint16_t id = symU16("id");
        uint8_t c = symU8("chr");
        ASSUME(c != 0 && id != 1 && id != 10000);
        int left = 0;
        int first = sym_choose("keep", 2); // the first one keeps its place
        for (auto &e : L.evlrs)
        {
            if (e.user != "copc") continue;
            if (first) { first = 0; left++; continue; }
            if (what == 2) { put(s, e.at + 18, 2, id); left += id == 1000; }
            else { left += (char)c == s[e.at + 2]; s[e.at + 2] = c; }
        }
        ok = left > 0;
    }
    else if (what == 4) // the info record is elsewhere
    {
        // swap it with the VLR that follows
        uint64_t a = L.vlrs[0].at, m = L.vlrs[1].at, e = L.vlrs[1].body + L.vlrs[1].len;
        s = s.substr(0, a) + s.substr(m, e - m) + s.substr(a, m - a) + s.substr(e);
        ok = false;
    }
    else if (what == 5) // no such place for the root page
    {
        uint64_t z = symU64("rootsize");
        ASSUME(z > 0x7fffffffull);
        put(s, L.vlrs[0].body + 48, 8, z);
        ok = false;
    }
    else // no EVLRs at all
    {
        put(s, 243, 4, 0);
        ok = false;
    }
    ASSERT(opens(s) == ok, "opened exactly when the info record is at its place and there is a hierarchy record");
    ASSERT(opensLaz(s), "it is still a LAZ file");
    OBS("ok", ok);
    REACH(ok ? "done" : "rejected");
}
// streams that have failed or hold nothing
extern "C" void C32_stream(void)
{
    std::string s = sym_choose("copc", 2) ? copcFile(7, 0, 0, false) : lazFile(7, 0, 0);
    int what = sym_choose("what", 4);
    std::stringstream ss(what == 3 ? std::string() : s);
    if (what == 0) ss.setstate(std::ios::failbit);
    else if (what == 1) ss.setstate(std::ios::badbit);
    else if (what == 2) ss.setstate(std::ios::eofbit);
    ASSERT(throws([&] { Reader r(&ss); }), "a COPC reader rejects it");
    ASSERT(throws([&] { LazReader r(&ss); }), "a LAZ reader rejects it");
    REACH("done");
}
// an invalid entry anywhere in the hierarchy
extern "C" void C32_listing(void)
{
    std::string s = copcFile(6, 0, 0, false);
    Layout L;
    L.parse(s);
    uint64_t io = L.vlrs[0].body, po = L.u(io + 40, 8), ps = L.u(io + 48, 8);
    ASSERT(ps == 96, "two nodes and a page on the root page");
    int32_t d = symI32("d"), x = symI32("x"), y = symI32("y"), z = symI32("z"), size = symI32("size");
    bool valid = d >= 0 && x >= 0 && y >= 0 && z >= 0;
    int place = sym_choose("place", 4); // three entries of the root page, the one of the sub page
    uint64_t at = po + 32 * place;
    if (place == 3)
    {
        for (int i = 0; i < 3; i++)
            if (L.u(po + 32 * i + 28, 4) == 0xffffffffu) at = L.u(po + 32 * i + 16, 8);
    }
    bool isPage = L.u(at + 28, 4) == 0xffffffffu;
    int what = sym_choose("what", 2);
    if (what == 0)
    {
        ASSUME(!valid);
        put(s, at, 4, d); put(s, at + 4, 4, x); put(s, at + 8, 4, y); put(s, at + 12, 4, z);
    }
    else
    {
        ASSUME(size < 0);
        put(s, at + 24, 4, size);
    }
    std::stringstream ss(s);
    Reader r(&ss);
    int order = sym_choose("order", 5);
    if (order == 1) throws([&] { r.FindNode(VoxelKey(1, 1, 0, 1)); });
    else if (order == 2) throws([&] { r.GetAllNodes(); });
    else if (order == 3) throws([&] { r.GetPageList(); });
    else if (order == 4) throws([&] { r.GetAllChildrenOfPage(VoxelKey(2, 3, 1, 2)); });
    ASSERT(throws([&] { r.GetAllNodes(); }), "the list of nodes is refused");
    ASSERT(throws([&] { r.GetPageList(); }), "the list of pages is refused");
    ASSERT(throws([&] { r.GetAllPoints(); }) && throws([&] { r.GetMaxDepth(); }) && throws([&] { r.GetNodesWithinBox(Box::MaxBox()); }), "and so are the queries that build on it");
    ASSERT(throws([&] { r.GetAllChildrenOfPage(VoxelKey(2, 3, 1, 2)); }), "a subtree listing that needs the page is refused");
    if (place < 3) ASSERT(throws([&] { r.FindNode(VoxelKey(3, 1, 1, 1)); }), "a lookup that needs the page is refused");
    OBS("page", isPage);
    REACH(isPage ? "page" : "done");
}
// the stream fails after the file has been opened
extern "C" void C32_later(void)
{
    std::string s = copcFile(6, 0, 0, false);
    std::stringstream ss(s);
    Reader r(&ss);
    int before = sym_choose("before", 3);
    if (before == 1) ASSERT(r.FindNode(VoxelKey(1, 1, 0, 1)).IsValid(), "found");
    else if (before == 2) ASSERT(r.GetAllNodes().size() == 3, "listed");
    ss.setstate(sym_choose("bad", 2) ? std::ios::badbit : std::ios::failbit);
    size_t n = 0;
    bool t = throws([&] { n = r.GetAllNodes().size(); });
    ASSERT(t || n == 3, "an error or everything");
    if (before == 2) ASSERT(!t, "what has been read stays available");
    n = 0;
    t = throws([&] { n = r.GetPoints(VoxelKey(2, 3, 1, 2)).Size(); });
    ASSERT(t || n == 2, "an error or the points");
    REACH("done");
}
