// C42: COPC files of other software read right
#include "foreign.h"
#include "big.h"
static std::string doubles(int n, const char *nm)
{
    std::string s(8 * n, 0);
    for (int i = 0; i < n; i++)
    {
        double d = symF64(nm);
        memcpy(&s[8 * i], &d, 8);
    }
    return s;
}
static double dbl(const std::string &s, int i)
{
    double d;
    memcpy(&d, &s[8 * i], 8);
    return d;
}
static std::string ebBody(int n)
{
    std::string s(192 * n, 0);
    for (int i = 0; i < n; i++)
    {
        s[192 * i + 2] = 1;
        s[192 * i + 4] = (char)('a' + i);
    }
    return s;
}
static void simple(Foreign &f)
{
    f.nodes.push_back({VoxelKey(0, 0, 0, 0), 0, 1, mkRaw(f.rec(), 1), 0, 0});
    f.pages.push_back({VoxelKey(0, 0, 0, 0), -1, 0, 0});
    f.chunkOrder = {0};
    f.pageOrder = {0};
}
// the records around the points: any order, as VLR or EVLR, with records of other software among them
extern "C" void C42_records(void)
{
    static const struct { const char *user; int id; } U[] = {{"LASF_Projection", 2111}, {"copc", 2}, {"copc2", 1}, {"abcdefghijklmnop", 10000}, {"rock_robotic", 10000}, {"LASF_Spec", 0}, {"", 4}, {"copc", 10001}, {"LASF_Spec", 2112}, {"LASF_Projection2", 2112}, {"LASF_Spec2", 4}, {"copcx", 10000}, {"lasf_spec", 4}};
    Foreign f;
    f.fmt = 6 + (int)sym_param("F", 0);
    f.eb = (int)sym_param("EB", 1);
    f.fsid = symU16("fsid");
    f.enc = symU16("enc") | 0x10;
    f.day = symU16("day");
    f.year = symU16("year");
    for (int i = 0; i < 12; i++) f.num[i] = symF64("num");
    for (double &d : f.info) d = symF64("info");
    simple(f);
    std::string wkt(sym_param("W", 3), 'w'), x, st;
    if (!wkt.empty()) sym_bytes(&wkt[0], wkt.size(), "wkt");
    int X = (int)sym_param("X", 0); // 1: with extents, 2: with extended statistics too
    std::vector<Rec> &r = f.recs;
    int nx = (f.fmt == 6 ? 14 : f.fmt == 7 ? 17 : 18) + f.eb;
    r.push_back({"laszip encoded", 22204, Foreign::lazBody(f.fmt, f.eb, f.chunkSize), false});
    bool hasW = sym_choose("haswkt", 2), hasE = f.eb && (X || sym_choose("haseb", 2));
    if (hasE) r.push_back({"LASF_Spec", 4, ebBody(f.eb), (bool)sym_choose("ebext", 2)});
    if (hasW) r.push_back({"LASF_Projection", 2112, wkt, (bool)sym_choose("wktext", 2)});
    if (X)
    {
        x = doubles(2 * nx, "x");
        for (int k = 0; k < nx; k++) ASSUME(!(dbl(x, 2 * k) > dbl(x, 2 * k + 1)));
        r.push_back({"copc", 10000, x, (bool)sym_choose("xext", 2)});
    }
    if (X == 2)
    {
        st = doubles(2 * nx, "st");
        for (int k = 0; k < nx; k++) ASSUME(!(dbl(st, 2 * k + 1) < 0));
        r.push_back({"rock_robotic", 10001, st, (bool)sym_choose("stext", 2)});
    }
    int u = (int)sym_param("U", -1);
    if (u < 0) u = sym_choose("other", 14);
    if (u < 13)
    {
        static const int L[] = {0, 7, 160, 300};
        std::string b(L[sym_param("L", 1)], 0);
        if (!b.empty()) sym_bytes(&b[0], b.size(), "body");
        r.push_back({U[u].user, U[u].id, b, (bool)sym_choose("oext", 2)});
    }
    // any rotation, forwards or backwards
    int rot = sym_choose("rot", (int)r.size());
    std::rotate(r.begin(), r.begin() + rot, r.end());
    if (sym_choose("back", 2)) std::reverse(r.begin(), r.end());
    int ne = 0;
    for (auto &i : r) ne += i.ext;
    f.hierAt = sym_choose("hier", ne + 1);
    f.build();
    std::stringstream ss(f.s);
    bool bad = throws([&] {
        Reader rd(&ss);
        auto c = rd.CopcConfig();
        auto h = c.LasHeader();
        ASSERT(all(h.file_source_id == f.fsid, h.global_encoding == f.enc, h.creation_day == f.day, h.creation_year == f.year, h.PointFormatId() == f.fmt, h.PointRecordLength() == f.rec(), h.EbByteSize() == f.eb,
                   h.PointCount() == 1), "the header's numbers");
        ASSERT(sameV(h.Scale(), Vector3(f.num[0], f.num[1], f.num[2])) && sameV(h.Offset(), Vector3(f.num[3], f.num[4], f.num[5])) && sameV(h.max, Vector3(f.num[6], f.num[8], f.num[10])) &&
                   sameV(h.min, Vector3(f.num[7], f.num[9], f.num[11])), "the header's scale, offset and bounds");
        auto i = c.CopcInfo();
        ASSERT(all(sameD(i.center_x, f.info[0]), sameD(i.center_y, f.info[1]), sameD(i.center_z, f.info[2]), sameD(i.halfsize, f.info[3]), sameD(i.spacing, f.info[4])), "the info record");
        ASSERT(sameBytes(c.Wkt(), hasW ? wkt : std::string()), "the WKT, as VLR or EVLR, or none");
        auto e = c.ExtraBytesVlr();
        ASSERT((int)e.items.size() == (hasE ? f.eb : 0), "the extra-byte descriptors, as VLR or EVLR, or none");
        for (size_t k = 0; k < e.items.size(); k++) ASSERT(e.items[k].data_type == 1 && e.items[k].name == std::string(1, (char)('a' + k)), "the descriptors");
        auto xs = c.CopcExtents().Extents();
        ASSERT((int)xs.size() == nx - (hasE ? 0 : f.eb) && c.CopcExtents().HasExtendedStats() == (X == 2), "as many extents as dimensions");
        int ok = 1;
        if (X)
            for (int k = 0; k < nx; k++) ok &= all(eqF(xs[k]->minimum, dbl(x, 2 * k)), eqF(xs[k]->maximum, dbl(x, 2 * k + 1)));
        ASSERT(ok, "the extents, as VLR or EVLR");
        if (X == 2)
            for (int k = 0; k < nx; k++) ok &= all(eqF(xs[k]->mean, dbl(st, 2 * k)), eqF(xs[k]->var, dbl(st, 2 * k + 1)));
        ASSERT(ok, "the extended statistics, as VLR or EVLR");
        ASSERT(sameNode(rd.FindNode(f.nodes[0].key), f.node(0)), "the node");
        ASSERT(sameBytes(rd.GetPointData(f.nodes[0].key), f.nodes[0].raw), "its points");
    });
    ASSERT(!bad, "the file is read");
    std::stringstream ls(f.s);
    ASSERT(!throws([&] { LazReader l(&ls); ASSERT(sameBytes(l.GetPointData(), f.nodes[0].raw), "read as LAZ"); }), "and as a LAZ file");
    OBS("size", f.s.size());
    REACH("done");
}
// more records than 8 bits count, some longer than 16 bits count
extern "C" void C42_manyrecs(void)
{
    Foreign f;
    f.eb = 1;
    simple(f);
    std::string x = doubles(2 * 15, "x");
    for (int k = 0; k < 15; k++) ASSUME(!(dbl(x, 2 * k) > dbl(x, 2 * k + 1)));
    int kind = sym_choose("kind", 2);
    for (int i = 0; i < 600; i++) f.recs.push_back({i % 2 ? "other" : "copc", 2 + i, std::string(i == 7 ? 65535 : i == 300 ? 70000 : i % 5, 'o'), i >= 300});
    f.recs.insert(f.recs.begin() + (kind ? 300 : 600), {{"laszip encoded", 22204, Foreign::lazBody(f.fmt, f.eb, f.chunkSize), false}, {"LASF_Spec", 4, ebBody(1), !kind}, {"copc", 10000, x, !kind}, {"LASF_Projection", 2112, "wkt", !kind}});
    f.hierAt = 301;
    f.build();
    std::stringstream ss(f.s);
    bool bad = throws([&] {
        Reader rd(&ss);
        auto c = rd.CopcConfig();
        ASSERT(c.Wkt() == "wkt" && c.ExtraBytesVlr().items.size() == 1 && c.ExtraBytesVlr().items[0].name == "a", "the records after many others");
        auto xs = c.CopcExtents().Extents();
        int ok = xs.size() == 15;
        for (int k = 0; ok && k < 15; k++) ok &= all(eqF(xs[k]->minimum, dbl(x, 2 * k)), eqF(xs[k]->maximum, dbl(x, 2 * k + 1)));
        ASSERT(ok, "the extents");
        ASSERT(sameNode(rd.FindNode(f.nodes[0].key), f.node(0)) && sameBytes(rd.GetPointData(f.nodes[0].key), f.nodes[0].raw), "the node and its points");
    });
    ASSERT(!bad, "the file is read");
    REACH("done");
}
// the hierarchy: any page structure, order of pages and entries, gaps, empty nodes
static void queries(Foreign &f, Reader &r, int first)
{
    std::vector<Node> all;
    for (size_t i = 0; i < f.nodes.size(); i++) all.push_back(f.node((int)i));
    for (int n = 0; n < 3; n++)
    {
        int what = (first + n) % 3;
        if (what == 0)
            for (size_t j = 0; j < f.nodes.size(); j++)
            {
                size_t i = first & 1 ? f.nodes.size() - 1 - j : j;
                ASSERT(sameNode(r.FindNode(f.nodes[i].key), all[i]), "every node is found, with its entry and page");
                ASSERT(sameBytes(r.GetPointData(f.nodes[i].key), f.nodes[i].raw), "its points");
                ASSERT((int)r.GetPoints(all[i]).Size() == f.nodes[i].count, "as objects");
                Bytes c = r.GetPointDataCompressed(all[i]);
                ASSERT(c.size() == f.nodes[i].size && sym_memeq(c.data(), &f.s[f.nodes[i].off], c.size()), "compressed, as stored");
            }
        if (what == 1)
        {
            ASSERT(sameSet(r.GetAllNodes(), all), "all nodes are listed");
            ASSERT(r.GetAllPoints().Size() == f.total, "all points");
            std::vector<VoxelKey> pk;
            for (auto &p : f.pages) pk.push_back(p.key);
            ASSERT(sameKeys(r.GetPageList(), pk), "all pages are listed");
            ASSERT(r.GetMaxDepth() == 3, "the depth");
        }
        if (what == 2)
            for (auto &p : f.pages)
            {
                std::vector<Node> want;
                for (size_t i = 0; i < all.size(); i++)
                {
                    int q = f.nodes[i].page;
                    while (q >= 0 && !keyEq(f.pages[q].key, p.key)) q = f.pages[q].up;
                    if (q >= 0) want.push_back(all[i]);
                }
                ASSERT(sameSet(r.GetAllChildrenOfPage(p.key), want), "the nodes of a page and the pages it refers to");
            }
    }
    VoxelKey no = f.nodes[3].key;
    no.z ^= 1;
    ASSERT(!r.FindNode(no).IsValid() && r.GetPointData(no).empty() && r.GetPoints(no).Size() == 0, "a key that isn't there");
}
extern "C" void C42_pages(void)
{
    Foreign f;
    f.fmt = 6 + (int)sym_param("F", 0);
    f.eb = (int)sym_param("EB", 0);
    f.recs.push_back({"laszip encoded", 22204, Foreign::lazBody(f.fmt, f.eb, f.chunkSize), false});
    tree(f, (int)sym_param("shape", 0), sym_choose("empty", 6));
    int o = sym_choose("order", 3);
    if (o == 1) std::reverse(f.pageOrder.begin(), f.pageOrder.end());
    if (o == 2) std::rotate(f.pageOrder.begin(), f.pageOrder.begin() + 1, f.pageOrder.end());
    f.refsFirst = sym_choose("refs", 2);
    f.rev = sym_choose("rev", 2);
    f.gapPage = sym_choose("gap", 2) * 5;
    f.build();
    std::stringstream ss(f.s);
    int first = sym_choose("first", 3);
    bool bad = throws([&] {
        Reader r(&ss);
        queries(f, r, first);
    });
    ASSERT(!bad, "the file is read");
    OBS("size", f.s.size());
    REACH("done");
}
// the points: chunks in any order, padding
extern "C" void C42_chunks(void)
{
    Foreign f;
    f.fmt = 6 + (int)sym_param("F", 0);
    f.eb = (int)sym_param("EB", 1);
    f.recs.push_back({"laszip encoded", 22204, Foreign::lazBody(f.fmt, f.eb, f.chunkSize), false});
    tree(f, 2, 3);
    std::rotate(f.chunkOrder.begin(), f.chunkOrder.begin() + sym_choose("rot", 4), f.chunkOrder.end());
    if (sym_choose("back", 2)) std::reverse(f.chunkOrder.begin(), f.chunkOrder.end());
    int g = sym_choose("gap", 5);
    if (g == 1) f.gapVlr = 11;
    if (g == 2) f.gapChunk = 3;
    if (g == 3) f.gapTable = 9;
    if (g == 4) f.gapEvlr = 13;
    f.build();
    std::stringstream ss(f.s);
    int first = sym_choose("first", 2);
    bool bad = throws([&] {
        Reader r(&ss);
        queries(f, r, first);
    });
    ASSERT(!bad, "the file is read");
    Bytes want;
    for (int i : f.chunkOrder) want.insert(want.end(), f.nodes[i].raw.begin(), f.nodes[i].raw.end());
    std::stringstream ls(f.s);
    bad = throws([&] {
        LazReader l(&ls);
        ASSERT(sameBytes(l.GetPointData(), want), "read as LAZ: the points in file order");
        ASSERT(l.GetPoints().Size() == f.total, "as objects");
    });
    ASSERT(!bad, "read as a LAZ file");
    REACH("done");
}
// unused stretches of any size: between the chunks, before the EVLRs, in a record of other software, among the pages
extern "C" void C42_big(void)
{
    Foreign f;
    f.eb = 1;
    bool back = sym_choose("back", 2);
    f.recs.push_back({"laszip encoded", 22204, Foreign::lazBody(f.fmt, f.eb, f.chunkSize), false});
    f.recs.push_back({"other", 5, std::string(50, 'o'), true});
    f.recs.push_back({"LASF_Spec", 4, ebBody(1), true});
    f.recs.push_back({"LASF_Projection", 2112, "wkt", true});
    f.hierAt = sym_choose("hier", 4);
    tree(f, 2, 3, VoxelKey(3, 1, 2, 3));
    if (back) std::reverse(f.pageOrder.begin(), f.pageOrder.end());
    f.gapChunk = f.gapPage = 4;
    f.gapTable = f.gapEvlr = 4;
    f.build();
    std::sort(f.gapAt.begin(), f.gapAt.end());
    // the file's places after two of the gaps have grown
    size_t at[2];
    uint64_t by[2];
    uint64_t table = rdLE(f.s.data(), (int)rdLE(f.s.data(), 96, 4), 8);
    int a = sym_choose("gap", (int)f.gapAt.size() - 1), b = a + 1 + (int)sym_param("D", 0);
    if (b >= (int)f.gapAt.size()) b = (int)f.gapAt.size() - 1;
    at[0] = f.gapAt[a];
    at[1] = f.gapAt[b];
    for (int i = 0; i < 2; i++)
    {
        by[i] = symU64("by");
        ASSUME(by[i] < 1ull << (at[i] < table ? 31 : 61)); // 32 bits in the chunk table
    }
    auto moved = [&](uint64_t o) {
        for (int i = 2; i-- > 0;)
            if (o >= at[i]) return o + by[i] + (i ? by[0] : 0);
        return o;
    };
    for (size_t o : f.offs)
    {
        uint64_t v = moved(rdLE(f.s.data(), (int)o, 8));
        memcpy(&f.s[o], &v, 8);
    }
    for (auto &l : f.lens)
    {
        uint64_t v = rdLE(f.s.data(), (int)l.at, l.n);
        v = moved(l.from + v) - moved(l.from);
        memcpy(&f.s[l.at], &v, l.n);
    }
    Big m;
    m.segs = {{0, f.s.substr(0, at[0])}, {at[0] + by[0], f.s.substr(at[0], at[1] - at[0])}, {at[1] + by[0] + by[1], f.s.substr(at[1])}};
    Foreign g = f;
    for (auto &n : g.nodes) n.off = moved(n.off);
    std::istream is(&m);
    bool bad = throws([&] {
        Reader r(&is);
        ASSERT(r.CopcConfig().Wkt() == "wkt" && r.CopcConfig().ExtraBytesVlr().items.size() == 1, "the records");
        std::vector<Node> all;
        for (size_t i = 0; i < g.nodes.size(); i++) all.push_back(g.node((int)i));
        for (size_t i = 0; i < all.size(); i++)
        {
            Node n = r.FindNode(g.nodes[i].key);
            ASSERT(sameNode(n, all[i]), "every node, wherever it is");
            ASSERT(sameBytes(r.GetPointData(n), g.nodes[i].raw), "its points");
        }
        ASSERT(sameSet(r.GetAllNodes(), all), "all nodes are listed");
    });
    ASSERT(!bad, "the file is read");
    m.seekoff(0, std::ios::beg, std::ios::in);
    is.clear();
    Bytes want;
    for (int i : f.chunkOrder) want.insert(want.end(), f.nodes[i].raw.begin(), f.nodes[i].raw.end());
    bad = throws([&] {
        LazReader l(&is);
        ASSERT(sameBytes(l.GetPointData(), want), "read as LAZ: the points in file order");
    });
    ASSERT(!bad, "read as a LAZ file");
    if (by[0] > 1ull << 30) REACH("beyond");
    REACH("done");
}
