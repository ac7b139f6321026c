// C21: box queries over files and collections
#include "io.h"
static Box symBox()
{
    Box q;
    q.x_min = symF64("qx0"); q.y_min = symF64("qy0"); q.z_min = symF64("qz0");
    q.x_max = symF64("qx1"); q.y_max = symF64("qy1"); q.z_max = symF64("qz1");
    ASSUME(all(q.x_min >= -1e9, q.y_min >= -1e9, q.z_min >= -1e9, q.x_max <= 1e9, q.y_max <= 1e9, q.z_max <= 1e9));
    ASSUME(all(q.x_min <= q.x_max, q.y_min <= q.y_max, q.z_min <= q.z_max));
    return q;
}
struct B6 { double x0, y0, z0, x1, y1, z1; };
static bool isWithin(const B6 &n, const Box &q) { return all(n.x0 >= q.x_min, n.y0 >= q.y_min, n.z0 >= q.z_min, n.x1 <= q.x_max, n.y1 <= q.y_max, n.z1 <= q.z_max); }
static bool meets(const B6 &n, const Box &q) { return all(n.x0 <= q.x_max, n.y0 <= q.y_max, n.z0 <= q.z_max, n.x1 >= q.x_min, n.y1 >= q.y_min, n.z1 >= q.z_min); }
static bool inBox(double x, double y, double z, const Box &q) { return all(x >= q.x_min, x <= q.x_max, y >= q.y_min, y <= q.y_max, z >= q.z_min, z <= q.z_max); }
// header cube of side 32 at O, scale 1, offset 0: node d,x,y,z covers O+x*S..O+(x+1)*S with S = 32 / 2^d
extern "C" void C21_file(void)
{
    int N = (int)sym_param("N", 2), first = (int)sym_param("first", 0), P = (int)sym_param("P", 1);
    static const int K[5][4] = {{0, 0, 0, 0}, {1, 1, 0, 1}, {2, 0, 3, 1}, {1, 0, 0, 0}, {3, 7, 6, 5}};
    CopcConfigWriter cfg(6, Vector3(1, 1, 1), Vector3(0, 0, 0));
    static const int BASE[2][3] = {{0, 0, 0}, {-8, 100, 1}};
    const int *O = BASE[first & 1];
    cfg.LasHeader()->min = Vector3(O[0], O[1], O[2]);
    cfg.LasHeader()->max = Vector3(O[0] + 32, O[1] + 32, O[2] + 16);
    cfg.CopcInfo()->spacing = 8;
    Box q = symBox();
    int lim = sym_choose("limit", (int)sym_param("L", 2)); // 0: none, else levels 0..lim-1
    double res = lim ? 8.0 / (1 << (lim - 1)) : 0;
    std::stringstream ss;
    Want w;
    std::vector<B6> box;
    std::vector<std::vector<int>> xyz;
    int deepest = 0;
    {
        Writer wr(ss, cfg);
        for (int i = 0; i < N; i++)
        {
            const int *k = K[(first + i) % 5];
            int S = 32 >> k[0];
            double l[3] = {(double)O[0] + k[1] * S, (double)O[1] + k[2] * S, (double)O[2] + k[3] * S};
            B6 b{l[0], l[1], l[2], l[0] + S, l[1] + S, l[2] + S};
            box.push_back(b);
            Bytes raw = mkRaw(30, P);
            std::vector<int> c;
            for (int p = 0; p < P; p++)
                for (int a = 0; a < 3; a++)
                {
                    int v = symI32("c");
                    wrLE(raw.data(), 30 * p + 4 * a, 4, (uint32_t)v);
                    ASSUME(all(v >= O[a] + k[1 + a] * S, v <= O[a] + (k[1 + a] + 1) * S));
                    c.push_back(v);
                }
            xyz.push_back(c);
            w.put(wr.AddNode(VoxelKey(k[0], k[1], k[2], k[3]), raw), raw);
            if (k[0] > deepest) deepest = k[0];
        }
        wr.Close();
    }
    int maxd = lim == 0 || lim - 1 > deepest ? deepest : lim - 1;
    Reader r(&ss);
    auto in = r.GetNodesWithinBox(q, res), meet = r.GetNodesIntersectBox(q, res);
    auto pts = r.GetPointsWithinBox(q, res);
    size_t nin = 0, nmeet = 0, npts = 0;
    Bytes got = pts.Pack(cfg.LasHeader() ? *cfg.LasHeader() : las::LasHeader()), want;
    for (auto &nd : r.GetAllNodes())
    {
        int i = w.find(nd.key);
        if (i < 0 || nd.key.d > maxd) continue;
        auto has = [&](const std::vector<Node> &l) { int n = 0; for (auto &x : l) n += sameNode(x, nd); return n; };
        bool wi = isWithin(box[i], q), me = meets(box[i], q);
        ASSERT(has(in) == (int)wi, "node listed as within exactly when its cube is");
        ASSERT(has(meet) == (int)me, "node listed as intersecting exactly when its cube is");
        nin += wi;
        nmeet += me;
        for (int p = 0; p < P; p++)
            if (inBox(xyz[i][3 * p], xyz[i][3 * p + 1], xyz[i][3 * p + 2], q))
            {
                npts++;
                want.insert(want.end(), w.data[i].begin() + 30 * p, w.data[i].begin() + 30 * (p + 1));
            }
    }
    ASSERT(in.size() == nin && meet.size() == nmeet, "no other nodes");
    ASSERT(pts.Size() == npts, "as many points as lie in the box");
    ASSERT(sameBytes(got, want), "the points in the box, complete, each once");
    OBS("n", npts);
    REACH("done");
    if (npts) REACH("some");
}
extern "C" void C21_points(void)
{
    int N = sym_choose("n", (int)sym_param("N", 4)), fmt = 6 + sym_choose("fmt", 3);
    Box q = symBox();
    las::Points c(fmt, (uint16_t)0);
    std::vector<std::shared_ptr<Point>> all_;
    for (int i = 0; i < N; i++)
    {
        auto p = c.CreatePoint();
        p->X(symF64("X")); p->Y(symF64("Y")); p->Z(symF64("Z"));
        c.AddPoint(p);
        all_.push_back(c.Get(i));
    }
    auto got = c.GetWithin(q);
    size_t j = 0;
    for (int i = 0; i < N; i++)
    {
        bool in = inBox(all_[i]->X(), all_[i]->Y(), all_[i]->Z(), q);
        ASSERT(all_[i]->Within(q) == in, "a point is within a box on every axis, bounds included");
        if (in)
        {
            ASSERT(j < got.size() && got[j] == all_[i], "exactly the points inside, in order");
            j++;
        }
    }
    ASSERT(got.size() == j, "no other point");
    ASSERT(c.Within(q) == (j == (size_t)N), "the collection is within exactly when all its points are");
    ASSERT(c.Size() == (size_t)N, "the collection is not changed");
    REACH("done");
}
