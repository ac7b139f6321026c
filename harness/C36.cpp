// C36: input that is cut short or fails never gives a wrong answer
#include "plan.h"
#include "layout.h"
struct Truth
{
    std::string file;
    Ans a;
    Bytes all;
    std::vector<Bytes> packed;
};
static Truth copcTruth(const Plan &q)
{
    Truth t;
    std::stringstream ss;
    {
        Writer w(ss, mkConfig(q));
        for (int i = 0; i < q.n; i++) w.AddNode(q.k[i], q.d[i], q.p[i]);
        w.Close();
    }
    t.file = ss.str();
    if (sym_param("plain", 0)) // as other software writes it: no records of ours
    {
        Layout L;
        L.parse(t.file);
        for (auto *v : {&L.vlrs, &L.evlrs})
            for (auto &x : *v)
                if (x.id == 10000 || x.id == 10001) t.file[x.at + 2] = 'X';
    }
    ss.str(t.file);
    Reader r(&ss);
    t.a = config(r);
    t.a.nodes = r.GetAllNodes();
    t.a.pages = r.GetPageList();
    for (int i = 0; i < q.n; i++) t.packed.push_back(r.GetPointDataCompressed(q.k[i]));
    for (int i = 0; i < q.n; i++) t.all.insert(t.all.end(), q.d[i].begin(), q.d[i].end());
    return t;
}
static int rejected;
template <class F> static void ask(F f)
{
    if (throws(f)) rejected++;
}
static void listings(Reader &r, const Truth &t, const Plan &q)
{
    ask([&] { auto n = r.GetAllNodes(); ASSERT(sameSet(n, t.a.nodes), "every node is listed"); });
    ask([&] { auto n = r.GetPageList(); ASSERT(sameKeys(n, t.a.pages), "every page is listed"); });
    for (int i = 0; i < q.n; i++)
        ask([&] { auto n = r.GetAllChildrenOfPage(q.k[i]); ASSERT(n.size() >= 1, "children of a page"); });
    int depth = -1;
    for (int i = 0; i < q.n; i++) depth = q.k[i].d > depth ? q.k[i].d : depth;
    ask([&] { int d = r.GetMaxDepth(); ASSERT(d == depth, "the depth"); });
}
static void points(Reader &r, const Truth &t, const Plan &q)
{
    for (int i = 0; i < q.n; i++)
    {
        ask([&] { Node n = r.FindNode(q.k[i]); ASSERT(n.IsValid() && keyEq(n.key, q.k[i]) && keyEq(n.page_key, q.p[i]), "the node is found"); });
        ask([&] { Bytes b = r.GetPointData(q.k[i]); ASSERT(sameBytes(b, q.d[i]), "its points"); });
        ask([&] { Bytes b = r.GetPointDataCompressed(q.k[i]); ASSERT(sameBytes(b, t.packed[i]), "its compressed points"); });
        ask([&] { auto p = r.GetPoints(q.k[i]); ASSERT(p.Size() == 1, "its points as objects"); });
    }
    ask([&] { auto p = r.GetAllPoints(); ASSERT((int)p.Size() == q.n, "all points"); });
}
static void use(std::istream &in, const Truth &t, const Plan &q, int order)
{
    rejected = 0;
    std::unique_ptr<Reader> r;
    if (throws([&] { r.reset(new Reader(&in)); }))
    {
        REACH("rejected");
        return;
    }
    REACH("opened");
    Ans a = config(*r);
    ASSERT(sameConfig(a, t.a), "the configuration");
    for (int i = 0; i < 2; i++)
    {
        if ((order + i) & 1) points(*r, t, q);
        else listings(*r, t, q);
    }
    if (order & 2) points(*r, t, q);
    if (rejected) REACH("partly");
}
extern "C" void C36_truncate(void)
{
    Plan q = plan();
    Truth t = copcTruth(q);
    OBS("size", t.file.size());
    int at = sym_choose("at", (int)t.file.size());
    std::stringstream ss(t.file.substr(0, at));
    use(ss, t, q, sym_choose("order", 2));
    REACH("done");
}
extern "C" void C36_fail(void)
{
    Plan q = plan();
    Truth t = copcTruth(q);
    int order = sym_choose("order", 4);
    Med m(t.file);
    {
        std::istream in(&m);
        use(in, t, q, order);
        ASSERT(!rejected, "nothing is rejected on a healthy medium");
    }
    Med f(t.file);
    f.failRead = sym_choose("fail", m.reads);
    f.once = sym_choose("once", 2);
    f.part = sym_choose("part", 2);
    std::istream in(&f);
    use(in, t, q, order);
    REACH("done");
}
static void useLaz(std::istream &in, las::LazConfig &c, const Truth &t, const Plan &q)
{
    rejected = 0;
    std::unique_ptr<LazReader> r;
    if (throws([&] { r.reset(new LazReader(&in)); }))
    {
        REACH("rejected");
        return;
    }
    las::LazConfig g = r->LazConfig();
    ASSERT(sameHeader(g.LasHeader(), c.LasHeader()) && sameBytes(g.Wkt(), c.Wkt()) && ebOf(g.ExtraBytesVlr()) == ebOf(c.ExtraBytesVlr()), "the configuration");
    for (int i = 0; i < 2; i++)
    {
        ask([&] { Bytes b = r->GetPointData(); ASSERT(sameBytes(b, t.all), "the points"); });
        ask([&] { auto p = r->GetPoints(); ASSERT((int)p.Size() == q.n, "the points as objects"); });
    }
    if (rejected) REACH("partly");
}
extern "C" void C36_laz(void)
{
    Plan q = plan();
    Truth t;
    std::stringstream ss;
    {
        LazWriter w(ss, lazConfig(q));
        for (int i = 0; i < q.n; i++) addLaz(w, q, i);
        w.Close();
    }
    t.file = ss.str();
    for (int i = 0; i < q.n; i++) t.all.insert(t.all.end(), q.d[i].begin(), q.d[i].end());
    Med m(t.file);
    std::istream in(&m);
    LazReader r(&in);
    las::LazConfig c = r.LazConfig();
    if (sym_choose("how", 2))
    {
        std::stringstream cut(t.file.substr(0, sym_choose("at", (int)t.file.size())));
        useLaz(cut, c, t, q);
    }
    else
    {
        m.reads = 0;
        useLaz(in, c, t, q);
        ASSERT(!rejected, "nothing is rejected on a healthy medium");
        Med f(t.file);
        f.failRead = sym_choose("fail", m.reads);
        f.once = sym_choose("once", 2);
        f.part = sym_choose("part", 2);
        std::istream fin(&f);
        useLaz(fin, c, t, q);
    }
    REACH("done");
}
