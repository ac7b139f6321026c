// C19: lookups do not depend on what was read before
#include "io.h"
struct Ans
{
    std::vector<Node> nodes;
    std::vector<VoxelKey> keys;
    Bytes data;
};
static bool same(const Ans &a, const Ans &b) { return sameSet(a.nodes, b.nodes) && sameKeys(a.keys, b.keys) && sameBytes(a.data, b.data); }
static Ans ask(Reader &r, int op, const VoxelKey &k)
{
    Ans a;
    if (op == 0) { Node n = r.FindNode(k); if (n.IsValid()) a.nodes.push_back(n); }
    else if (op == 1) a.nodes = r.GetAllChildrenOfPage(k);
    else if (op == 2) a.data = r.GetPointData(k);
    else if (op == 3) a.data = r.GetPointDataCompressed(k);
    else if (op == 4) a.keys = r.GetPageList();
    else if (op == 5) a.nodes = r.GetAllNodes();
    else if (op == 6) a.data = r.GetAllPoints().Pack(r.CopcConfig().LasHeader());
    return a;
}
static bool isDesc(const VoxelKey &k, const VoxelKey &a) { return k.d >= a.d && keyEq(anc(k, a.d), a); }
extern "C" void C19_order(void)
{
    int Q = (int)sym_param("Q", 2), A = (int)sym_param("A", -1), N = (int)sym_param("N", 3);
    CopcConfigWriter cfg(6, Vector3(1, 1, 1), Vector3(0, 0, 0));
    std::stringstream ss;
    Want w;
    VoxelKey leaf = symKey(3);
    {
        Writer wr(ss, cfg);
        for (int i = 0; i < N; i++)
        {
            VoxelKey k = anc(leaf, 3 - i), pk = anc(k, sym_choose("pd", k.d + 1));
            Bytes raw = mkRaw(30, 1);
            w.put(wr.AddNode(k, raw, pk), raw);
        }
        wr.Close();
    }
    Reader r(&ss);
    for (int q = 0; q < Q; q++)
    {
        int op = q == 0 && A >= 0 ? A : sym_choose("op", q == Q - 1 ? 6 : 7);
        VoxelKey k(0, 0, 0, 0);
        if (op < 4)
        {
            int d = sym_choose("d", 5);
            if (d < 4) k = anc(leaf, d);
            else
            { // next to the leaf, or far away
                k = anc(leaf, 1 + sym_choose("od", 3));
                k.y ^= 1;
            }
        }
        Ans a = ask(r, op, k);
        { // a fresh reader says the same
            Reader f(&ss);
            Ans b = ask(f, op, k);
            if (op != 6) ASSERT(same(a, b), "the same answer as on a fresh reader");
            else ASSERT(a.data.size() == b.data.size(), "as many points as on a fresh reader");
        }
        int i = w.find(k);
        if (op == 0)
        {
            ASSERT(a.nodes.size() == (i >= 0), "found exactly when it is in the file");
            if (i >= 0) ASSERT(sameNode(a.nodes[0], w.nodes[i]), "the node");
        }
        else if (op == 1 || op == 5)
        {
            auto pg = w.pages();
            bool page = false;
            for (auto &p : pg) page = page || keyEq(p, k);
            std::vector<Node> want;
            for (size_t j = 0; j < w.nodes.size(); j++)
                if (page ? isDesc(w.nodes[j].page_key, k) : (int)j == i) want.push_back(w.nodes[j]);
            ASSERT(sameSet(a.nodes, want), "the nodes of the page and the pages below, or the node itself");
        }
        else if (op == 2)
            ASSERT(sameBytes(a.data, i >= 0 ? w.data[i] : Bytes()), "the node's records");
        else if (op == 4)
            ASSERT(sameKeys(a.keys, w.pages()), "all pages");
    }
    OBS("n", w.nodes.size());
    REACH("done");
}
