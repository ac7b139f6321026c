// C18: moving nodes between pages
#include "many.h"
#include <algorithm>
// three nodes below each other and one aside; every sequence of M moves
struct Keys
{
    VoxelKey leaf = symKey(3);
    VoxelKey operator[](int i)
    {
        VoxelKey k = i == 0 ? anc(leaf, 2) : i == 1 ? anc(leaf, 1) : i == 2 ? leaf : anc(leaf, 2);
        if (i == 3) k.z ^= 1;
        return k;
    }
};
extern "C" void C18_moves(void)
{
    int N = (int)sym_param("N", 2), M = (int)sym_param("M", 3), B = (int)sym_param("B", 0);
    CopcConfigWriter cfg(6, Vector3(1, 1, 1), Vector3(0, 0, 0));
    std::stringstream ss;
    Want w;
    Keys K;
    {
        Writer wr(ss, cfg);
        for (int i = 0; i < N; i++)
        {
            VoxelKey k = K[(B + i) % 4], pk = anc(k, sym_choose("pd", k.d + 1));
            Bytes raw = mkRaw(30, 1);
            w.put(wr.AddNode(k, raw, pk), raw);
        }
        for (int m = 0; m < M; m++)
        {
            int i = sym_choose("node", N);
            VoxelKey k = w.nodes[i].key, pk = anc(k, sym_choose("to", k.d + 1));
            wr.ChangeNodePage(k, pk);
            w.nodes[i].page_key = pk;
            for (auto &n : w.nodes) ASSERT(sameNode(wr.FindNode(n.key), n), "the writer knows every node with its page");
        }
        wr.Close();
    }
    Reader r(&ss);
    ASSERT(sameKeys(r.GetPageList(), w.pages()), "the pages are the root and those holding nodes");
    ASSERT(sameSet(r.GetAllNodes(), w.nodes), "every node once, in the page it was last moved to");
    for (size_t i = 0; i < w.nodes.size(); i++)
    {
        Reader f(&ss);
        ASSERT(sameNode(f.FindNode(w.nodes[i].key), w.nodes[i]), "found by key");
        ASSERT(sameBytes(f.GetPointData(w.nodes[i]), w.data[i]), "its data is where it was");
    }
    OBS("n", w.nodes.size());
    REACH("done");
}
// a rejected move among arbitrary keys changes nothing
extern "C" void C18_reject(void)
{
    CopcConfigWriter cfg(6, Vector3(1, 1, 1), Vector3(0, 0, 0));
    std::stringstream ss;
    VoxelKey k0 = symKey(2, "ax", "ay", "az"), k1 = symKey(1, "bx", "by", "bz");
    int p0 = sym_choose("p0", 3), p1 = sym_choose("p1", 2), kind = sym_choose("kind", 3);
    Want w;
    {
        Writer wr(ss, cfg);
        Bytes a = mkRaw(30, 1), b = mkRaw(30, 1);
        w.put(wr.AddNode(k0, a, anc(k0, p0)), a);
        w.put(wr.AddNode(k1, b, anc(k1, p1)), b);
        VoxelKey k, pk;
        if (kind == 0)
        { // any key that is not a node, any page
            k = VoxelKey(symI32("d"), symI32("x"), symI32("y"), symI32("z"));
            ASSUME(k.d <= 3);
            ASSUME(!all(keyEq(k, k0)) & !all(keyEq(k, k1)));
            if (sym_choose("self", 2)) pk = k;
        }
        else
        { // a node, a page key that is not one of its ancestors
            k = kind == 1 ? k0 : k1;
            pk = VoxelKey(symI32("d"), symI32("x"), symI32("y"), symI32("z"));
            int ok = keyEq(pk, k) | keyEq(pk, anc(k, 0)) | keyEq(pk, anc(k, 1));
            ASSUME(!ok);
        }
        ASSERT(throws([&] { wr.ChangeNodePage(k, pk); }), "moving an unknown node or to a page that is not above it is rejected");
        for (auto &n : w.nodes) ASSERT(sameNode(wr.FindNode(n.key), n), "the nodes stay where they were");
        wr.Close();
    }
    Reader r(&ss);
    ASSERT(sameKeys(r.GetPageList(), w.pages()), "pages unchanged");
    ASSERT(sameSet(r.GetAllNodes(), w.nodes), "nodes unchanged");
    REACH("done");
}
// many nodes, all moved to one page, or each to its own, or back to the root
extern "C" void C18_many(void)
{
    int from = (int)sym_param("from", 0), to = (int)sym_param("to", 2), n = (int)sym_param("N", 300);
    CopcConfigWriter cfg(6, Vector3(1, 1, 1), Vector3(0, 0, 0));
    std::stringstream ss;
    std::vector<Node> nodes;
    auto page = [&](int how, int i) { VoxelKey k = wideKey(i); k.x &= 0x7fff; k.y &= 0x7fff; k.z &= 0x7fff; return how == 0 ? VoxelKey(0, 0, 0, 0) : how == 1 ? k : VoxelKey(1, 0, 0, 0); };
    {
        Writer wr(ss, cfg);
        for (int i = 0; i < n; i++) nodes.push_back(wr.AddNodeCompressed(page(1, i), mkRaw(1, 1), 1 + i, page(from, i)));
        for (int i = n - 1; i >= 0; i--)
        {
            wr.ChangeNodePage(nodes[i].key, page(to, i));
            nodes[i].page_key = page(to, i);
        }
        wr.Close();
    }
    Reader r(&ss);
    auto got = r.GetAllNodes();
    ASSERT(got.size() == (size_t)n && r.GetPageList().size() == (to == 0 ? 1 : to == 1 ? n + 1 : 2), "every node once; the root page and those holding nodes");
    std::sort(got.begin(), got.end(), [](const Node &a, const Node &b) { return a.offset < b.offset; });
    int ok = 1;
    for (int i = 0; i < n; i++) ok &= (int)sameNode(got[i], nodes[i]);
    ASSERT(ok, "in the page it was moved to");
    REACH("done");
}
