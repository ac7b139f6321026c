// C43: a question depends only on the parts of the file it is about
#include "foreign.h"
static void wild(Foreign &f, uint64_t at, uint64_t n, const char *nm)
{
    if (n) sym_bytes(&f.s[at], n, nm);
}
static bool above(const VoxelKey &a, const VoxelKey &k) { return a.d <= k.d && keyEq(anc(k, a.d), a); }
// the pages that lead to a key
static bool onPath(Foreign &f, int p, const VoxelKey &k)
{
    for (; p >= 0; p = f.pages[p].up)
        if (!above(f.pages[p].key, k)) return false;
    return true;
}
static bool below(Foreign &f, int p, const VoxelKey &k)
{
    for (; p >= 0; p = f.pages[p].up)
        if (keyEq(f.pages[p].key, k)) return true;
    return false;
}
static void make(Foreign &f)
{
    f.fmt = 6 + (int)sym_param("F", 0);
    f.eb = (int)sym_param("EB", 0);
    for (int i = 0; i < 3; i++) { f.num[6 + 2 * i] = 8; f.num[7 + 2 * i] = 0; } // the cube is 8 wide
    f.info[4] = 8;
    f.recs.push_back({"laszip encoded", 22204, Foreign::lazBody(f.fmt, f.eb, f.chunkSize), false});
    tree(f, (int)sym_param("shape", 2), -1);
    if (sym_choose("order", 2)) std::reverse(f.pageOrder.begin(), f.pageOrder.end());
    f.build();
}
static VoxelKey pick(Foreign &f, int t)
{
    if (t < (int)f.nodes.size()) return f.nodes[t].key;
    VoxelKey k = f.nodes[3].key; // not in the file
    k.z ^= 1;
    return k;
}
extern "C" void C43_node(void)
{
    Foreign f;
    make(f);
    std::string intact = f.s;
    int t = sym_choose("target", (int)f.nodes.size() + 1);
    VoxelKey k = pick(f, t);
    bool there = t < (int)f.nodes.size();
    for (size_t p = 0; p < f.pages.size(); p++)
        if (!onPath(f, (int)p, k)) wild(f, f.pages[p].off, f.pages[p].size, "page");
    for (size_t i = 0; i < f.nodes.size(); i++)
        if ((int)i != t) wild(f, f.nodes[i].off, f.nodes[i].size, "chunk");
    std::stringstream ss(f.s);
    bool bad = throws([&] {
        Reader r(&ss);
        Node n = r.FindNode(k);
        ASSERT(n.IsValid() == there, "found exactly when it is there");
        if (there) ASSERT(sameNode(n, f.node(t)), "the entry");
        int before = sym_choose("before", 3); // what was tried elsewhere first
        int o = t == 0 ? 1 : 0;
        if (before == 1) throws([&] { r.GetPointData(f.node(o)); });
        if (before == 2) throws([&] { r.GetPointDataCompressed(f.node(o)); });
        ASSERT(sameBytes(r.GetPointData(k), there ? f.nodes[t].raw : Bytes()), "the points");
        Bytes c = r.GetPointDataCompressed(k);
        ASSERT(c.size() == (there ? f.nodes[t].size : 0) && (!there || sym_memeq(c.data(), &intact[f.nodes[t].off], c.size())), "the compressed points");
        ASSERT((int)r.GetPoints(k).Size() == (there ? f.nodes[t].count : 0), "the points as objects");
        ASSERT(r.FindNode(k).IsValid() == there, "still found exactly when it is there");
    });
    ASSERT(!bad, "answered");
    OBS("t", t);
    REACH("done");
}
// an attempt that fails leaves no trace: an entry that points past the end of the file, then a question about another part
extern "C" void C43_after(void)
{
    Foreign f;
    make(f);
    int np = (int)f.pages.size(), nn = (int)f.nodes.size();
    int broken = sym_choose("broken", nn + np - 1); // a node, or a page below the root
    bool isPage = broken >= nn;
    int bp = broken - nn + 1;
    int t = sym_choose("target", nn);
    VoxelKey k = f.nodes[t].key;
    if (isPage ? onPath(f, bp, k) : t == broken) return;
    uint64_t was = isPage ? f.pages[bp].off : f.nodes[broken].off, n = f.s.size();
    uint64_t far = sym_choose("far", 2) ? (uint64_t)1 << 62 : n;
    for (auto &p : f.pages)
        for (uint64_t e = p.off; e < p.off + p.size; e += 32)
            if (sym_memeq(&f.s[e + 16], (const char *)&was, 8)) memcpy(&f.s[e + 16], &far, 8);
    std::stringstream ss(f.s);
    bool told = true, bad = throws([&] {
        Reader r(&ss);
        if (sym_choose("warm", 2)) r.FindNode(k);
        Node o = f.node(isPage ? t : broken);
        o.offset = far;
        switch (isPage ? 5 + sym_choose("call", 4) : sym_choose("call", 5))
        {
        case 0: told = throws([&] { r.GetPointData(o); }); break;
        case 1: told = throws([&] { r.GetPointDataCompressed(o); }); break;
        case 2: told = throws([&] { r.GetPoints(o.key); }); break;
        case 3: told = throws([&] { r.GetPointDataCompressed(o.key); }); break;
        case 4: told = throws([&] { r.GetAllPoints(); }); break;
        case 5: told = throws([&] { r.GetAllNodes(); }); break;
        case 6: told = throws([&] { r.GetPageList(); }); break;
        case 7: told = throws([&] { r.GetAllChildrenOfPage(f.pages[bp].key); }); break;
        default: told = throws([&] { r.GetMaxDepth(); });
        }
        for (int i = 0; i < 2; i++)
        {
            Node m = r.FindNode(k);
            ASSERT(m.IsValid() && sameNode(m, f.node(t)), "found after a failed call");
            ASSERT(sameBytes(r.GetPointData(k), f.nodes[t].raw), "its points after a failed call");
            ASSERT((int)r.GetPointDataCompressed(m).size() == (int)f.nodes[t].size, "its compressed points after a failed call");
        }
    });
    ASSERT(told, "a part past the end of the file is reported");
    ASSERT(!bad, "answered after a failed call");
    OBS("t", t);
    REACH("done");
}
extern "C" void C43_open(void)
{
    Foreign f;
    make(f);
    std::stringstream a(f.s);
    Ans want;
    {
        Reader r(&a);
        want = config(r);
    }
    for (auto &p : f.pages) wild(f, p.off, p.size, "page");
    for (auto &n : f.nodes) wild(f, n.off, n.size, "chunk");
    std::stringstream ss(f.s), ls(f.s);
    bool bad = throws([&] {
        Reader r(&ss);
        ASSERT(sameConfig(config(r), want), "the configuration");
        LazReader l(&ls);
        ASSERT(sameHeader(l.LazConfig().LasHeader(), want.h) || l.LazConfig().LasHeader().PointCount() == want.h.PointCount(), "the configuration as a LAZ file");
    });
    ASSERT(!bad, "opened");
    REACH("done");
}
extern "C" void C43_page(void)
{
    Foreign f;
    make(f);
    int t = sym_choose("target", (int)f.pages.size());
    VoxelKey k = f.pages[t].key;
    std::vector<Node> want;
    for (size_t p = 0; p < f.pages.size(); p++)
        if (!onPath(f, (int)p, k) && !below(f, (int)p, k)) wild(f, f.pages[p].off, f.pages[p].size, "page");
    for (size_t i = 0; i < f.nodes.size(); i++)
    {
        wild(f, f.nodes[i].off, f.nodes[i].size, "chunk");
        if (below(f, f.nodes[i].page, k)) want.push_back(f.node((int)i));
    }
    std::stringstream ss(f.s);
    bool bad = throws([&] {
        Reader r(&ss);
        ASSERT(sameSet(r.GetAllChildrenOfPage(k), want), "the nodes of the page and the pages below");
    });
    ASSERT(!bad, "answered");
    REACH("done");
}
// listings and queries need the hierarchy, and the chunks of the nodes they select
extern "C" void C43_query(void)
{
    static const int L[3][3] = {{0, 0, 0}, {5, 2, 7}, {7, 4, 3}};
    int l = sym_choose("leaf", 3);
    Foreign f;
    f.recs.push_back({"laszip encoded", 22204, Foreign::lazBody(6, 0, f.chunkSize), false});
    for (int i = 0; i < 3; i++) { f.num[i] = 0.25; f.num[6 + 2 * i] = 8; f.num[7 + 2 * i] = 0; }
    f.info[4] = 8;
    tree(f, (int)sym_param("shape", 2), -1, VoxelKey(3, L[l][0], L[l][1], L[l][2]));
    int what = sym_choose("what", 6);
    double res[] = {0, 8, 4, 2};
    int lv = sym_choose("level", 4), depth = lv == 0 ? 3 : lv - 1;
    // the part of the cube that one node has to itself: a corner of its cube
    int t = 1 + sym_choose("box", 3);
    VoxelKey bk = f.nodes[t].key;
    double w = 8.0 / (1 << bk.d);
    double x = bk.x * w, y = bk.y * w, z = bk.z * w;
    Box box = sym_choose("whole", 2) ? Box(x, y, z, x + w, y + w, z + w) : Box(x + w * 0.25, y + w * 0.25, z + w * 0.25, x + w * 0.3, y + w * 0.3, z + w * 0.3);
    for (auto &n : f.nodes) // one point in the box, the other one outside
        for (int i = 0; i < n.count; i++)
        {
            int32_t c[3] = {(int32_t)((x + w * 0.25) * 4), (int32_t)((y + w * 0.25) * 4), i ? 4000 : (int32_t)((z + w * 0.25) * 4)};
            memcpy(&n.raw[30 * i], c, 12);
        }
    f.build();
    std::string intact = f.s;
    int used = 0;
    uint64_t pts = 0;
    for (size_t i = 0; i < f.nodes.size(); i++)
    {
        VoxelKey q = f.nodes[i].key;
        double v = 8.0 / (1 << q.d), a = q.x * v, b = q.y * v, c = q.z * v;
        bool meets = a <= box.x_max && a + v >= box.x_min && b <= box.y_max && b + v >= box.y_min && c <= box.z_max && c + v >= box.z_min;
        bool need = q.d <= depth && (what == 4 || (what == 5 && meets));
        if (need) { used++; pts += f.nodes[i].count; }
        else wild(f, f.nodes[i].off, f.nodes[i].size, "chunk");
    }
    std::stringstream ss(f.s), s0(intact);
    bool bad = throws([&] {
        Reader r(&ss), ref(&s0);
        if (what == 0) ASSERT(sameSet(r.GetAllNodes(), ref.GetAllNodes()) && sameKeys(r.GetPageList(), ref.GetPageList()), "the listings");
        if (what == 1) ASSERT(r.GetMaxDepth() == 3 && r.GetDepthAtResolution(res[lv]) == ref.GetDepthAtResolution(res[lv]), "the depths");
        if (what == 2) ASSERT(sameSet(r.GetNodesWithinBox(Box(-1, -1, -1, 9, 9, 9), res[lv]), ref.GetNodesWithinBox(Box(-1, -1, -1, 9, 9, 9), res[lv])), "the nodes in a box");
        if (what == 3) ASSERT(sameSet(r.GetNodesIntersectBox(box, res[lv]), ref.GetNodesIntersectBox(box, res[lv])), "the nodes that meet a box");
        if (what == 4) ASSERT(r.GetAllPoints(res[lv]).Size() == pts, "the points of the selected levels");
        if (what == 5)
        {
            auto got = r.GetPointsWithinBox(box, res[lv]), want = ref.GetPointsWithinBox(box, res[lv]);
            ASSERT(got.Size() == want.Size() && sameBytes(got.Pack(r.CopcConfig().LasHeader()), want.Pack(r.CopcConfig().LasHeader())), "the points in a box");
        }
    });
    ASSERT(!bad, "answered");
    if (used) REACH("some");
    REACH("done");
}
