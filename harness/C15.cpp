// C15: every node written is found again
#include "many.h"
#include <algorithm>
extern "C" void C15_nodes(void)
{
    int fmt = 6, D = (int)sym_param("D", 2), N = (int)sym_param("N", 2);
    std::stringstream ss;
    CopcConfigWriter cfg(fmt, Vector3(1, 1, 1), Vector3(0, 0, 0));
    Want w;
    {
        Writer wr(ss, cfg);
        for (int i = 0; i < N; i++)
        {
            int d = sym_choose("d", D + 1), pd = sym_choose("pd", d + 1), n = 1;
            VoxelKey k = symKey(d), pk = anc(k, pd);
            Bytes raw = mkRaw(30, n);
            Node nd = wr.AddNode(k, raw, pk);
            ASSERT(all(keyEq(nd.key, k), keyEq(nd.page_key, pk), nd.point_count == n, nd.byte_size > 0), "returned metadata");
            w.put(nd, raw);
        }
        wr.Close();
    }
    Reader r(&ss);
    std::vector<Node> got = r.GetAllNodes();
    ASSERT(sameSet(got, w.nodes), "exactly the nodes added, with their metadata");
    for (auto &n : w.nodes) ASSERT(sameNode(r.FindNode(n.key), n), "each node is found by key");
    VoxelKey o = symKey(sym_choose("od", D + 1), "ox", "oy", "oz");
    if (w.find(o) < 0) { ASSERT(!r.FindNode(o).IsValid(), "keys never added are absent"); REACH("absent"); }
    ASSERT(sameKeys(r.GetPageList(), w.pages()), "the pages are the root page and those holding nodes");
    OBS("n", got.size());
    REACH("done");
}
extern "C" void C15_many(void)
{
    int shape = (int)sym_param("shape", 0), n = (int)sym_param("N", 300);
    CopcConfigWriter cfg(6, Vector3(1, 1, 1), Vector3(0, 0, 0));
    std::stringstream ss;
    Wide w;
    {
        Writer wr(ss, cfg);
        w.write(wr, shape, n);
        wr.Close();
    }
    {
        Reader r(&ss);
        for (int i = 0; i < n; i++) ASSERT(sameNode(r.FindNode(w.nodes[n - 1 - i].key), w.nodes[n - 1 - i]), "each of many nodes is found by key");
    }
    Reader r(&ss);
    auto got = r.GetAllNodes();
    ASSERT(got.size() == (size_t)n && r.GetPageList().size() == w.pages.size(), "as many nodes and pages as written");
    std::sort(got.begin(), got.end(), [](const Node &a, const Node &b) { return a.offset < b.offset; });
    int ok = 1; // chunks are written in order
    for (int i = 0; i < n; i++) ok &= (int)sameNode(got[i], w.nodes[i]);
    ASSERT(ok, "exactly the nodes added, with their metadata");
    REACH("done");
}
