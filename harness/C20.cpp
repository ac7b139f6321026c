// C20: resolution queries
#include "io.h"
extern "C" void C20_resolution(void)
{
    int N = sym_choose("n", (int)sym_param("N", 2) + 1), D = (int)sym_param("D", 3), gap = (int)sym_param("gap", 0);
    CopcConfigWriter cfg(6, Vector3(1, 1, 1), Vector3(0, 0, 0));
    cfg.LasHeader()->min = Vector3(0, 0, 0);
    cfg.LasHeader()->max = Vector3(64, 64, 64);
    double sp, res;
    if (sym_param("table", 0))
    { // on and next to the levels' spacings, each combination on its own: decided whatever function an implementation computes
        static const double SP[] = {0, 1, 10, 0.3, 1e100, 1e-100};
        sp = SP[sym_choose("spacing", 6)];
        res = sp;
        int by = sym_choose("halved", 5);
        if (sym_param("table", 0) == 2) by = by < 3 ? 30 + by : D - 4 + by;
        for (; by > 0; by--) res /= 2;
        int c = sym_choose("next", 7);
        if (c == 1) res = fromBits(bitsOf(res) + 1);
        if (c == 2 && res > 0) res = fromBits(bitsOf(res) - 1);
        if (c == 3) res *= 1.5;
        if (c == 4) res = fromBits(0x7ff0000000000000ull);
        if (c == 5) res = -res;
        if (c == 6) res *= 4;
    }
    else
    {
        sp = symF64("spacing");
        res = symF64("resolution");
    }
    ASSUME(all(sp >= 0, sp <= 1e100, res == res));
    ASSUME((sp == 0) | (sp >= 1e-100));
    cfg.CopcInfo()->spacing = sp;
    std::stringstream ss;
    Want w;
    int deepest = -1;
    {
        Writer wr(ss, cfg);
        for (int i = 0; i < N; i++)
        {
            int d = gap ? (i ? D : 0) : sym_choose("d", D + 1);
            VoxelKey k(d, d ? i >> 1 : 0, d ? i & 1 : 0, 0);
            if (w.find(k) >= 0) continue;
            Bytes raw = mkRaw(30, 1 + (i == 0));
            w.put(wr.AddNode(k, raw, anc(k, d > 1 ? d / 2 : 0)), raw);
            if (d > deepest) deepest = d;
        }
        wr.Close();
    }
    int want = deepest;
    double s = sp;
    if (res > 0)
        for (int i = 0; i <= deepest; i++)
        {
            if (s <= res) { want = i; break; }
            s /= 2;
        }
    Reader r(&ss);
    if (sym_choose("warm", 2)) r.FindNode(VoxelKey(2, 0, 1, 0));
    ASSERT(r.GetDepthAtResolution(res) == want, "the shallowest level that is fine enough, or the deepest");
    ASSERT(r.GetMaxDepth() == deepest, "deepest level");
    std::vector<Node> at, within;
    size_t pts = 0;
    for (auto &n : w.nodes)
    {
        if (n.key.d == want) at.push_back(n);
        if (n.key.d <= want) { within.push_back(n); pts += n.point_count; }
    }
    ASSERT(sameSet(r.GetNodesAtResolution(res), at), "nodes of exactly that level");
    ASSERT(sameSet(r.GetNodesWithinResolution(res), within), "nodes of that level and above");
    ASSERT(r.GetAllPoints(res).Size() == pts, "points of those levels");
    ASSERT(sameSet(r.GetNodesWithinBox(Box::MaxBox(), res), within), "box query: nodes within");
    ASSERT(sameSet(r.GetNodesIntersectBox(Box::MaxBox(), res), within), "box query: nodes intersecting");
    ASSERT(r.GetPointsWithinBox(Box::MaxBox(), res).Size() == pts, "box query: points");
    size_t every = 0;
    for (auto &n : w.nodes) every += n.point_count;
    ASSERT(r.GetAllPoints().Size() == every && r.GetPointsWithinBox(Box::MaxBox()).Size() == every, "without a limit: all points");
    ASSERT(sameSet(r.GetNodesWithinBox(Box::MaxBox()), w.nodes) && sameSet(r.GetNodesIntersectBox(Box::MaxBox()), w.nodes), "without a limit: all nodes");
    OBS("want", want);
    REACH("done");
    if (want < deepest) REACH("cut");
    if (deepest < 0) REACH("empty");
}
