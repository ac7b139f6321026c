// C35: interrupted or failing output is never taken for a complete file
#include "plan.h"
static Ans answers(const std::string &s, const Plan &q)
{
    std::stringstream ss(s);
    Reader r(&ss);
    Ans a = config(r);
    a.nodes = r.GetAllNodes();
    a.pages = r.GetPageList();
    return a;
}
static void sane(const std::string &s, const std::string &full, const Plan &q)
{
    Ans a;
    if (throws([&] { a = answers(s, q); }))
    {
        REACH("rejected");
        return;
    }
    REACH("accepted");
    Ans b = answers(full, q);
    ASSERT(sameConfig(a, b), "a file that is opened has the configuration of the complete one");
    ASSERT(sameSet(a.nodes, b.nodes) && sameKeys(a.pages, b.pages), "and its nodes and pages");
    std::stringstream ss(s);
    Reader r(&ss);
    for (int i = 0; i < q.n; i++) ASSERT(sameBytes(r.GetPointData(q.k[i]), q.d[i]), "and its points");
}
static std::string upTo(const std::vector<Op> &log, int k)
{
    Med m;
    for (int i = 0; i < k; i++)
    {
        m.pos = log[i].pos;
        m.put(log[i].data.data(), log[i].data.size());
    }
    return m.data;
}
extern "C" void C35_crash(void)
{
    Plan q = plan();
    Med m;
    std::ostream os(&m);
    {
        Writer w(os, mkConfig(q));
        for (int i = 0; i < q.n; i++) w.AddNode(q.k[i], q.d[i], q.p[i]);
        w.Close();
    }
    int n = (int)m.log.size();
    int k = sym_choose("crash", n + 1);
    OBS("ops", n);
    std::string cut = upTo(m.log, k);
    if (k == n) ASSERT(sameBytes(cut, m.data), "the log is the file");
    sane(cut, m.data, q);
    if (k == n) REACH("done");
}
extern "C" void C35_fail(void)
{
    Plan q = plan();
    Med m, good;
    {
        std::ostream os(&good);
        Writer w(os, mkConfig(q));
        for (int i = 0; i < q.n; i++) w.AddNode(q.k[i], q.d[i], q.p[i]);
        w.Close();
    }
    m.failWrite = sym_choose("fail", (int)good.log.size());
    m.part = (int)sym_param("part", 0);
    std::ostream os(&m);
    int how = sym_choose("how", 3); // closed, closed twice, only destroyed
    if (sym_param("exc", 0)) os.exceptions(std::ios::badbit | std::ios::failbit); // a stream that throws by itself
    bool told = false;
    {
        std::unique_ptr<Writer> w;
        told = throws([&] { w.reset(new Writer(os, mkConfig(q))); });
        for (int i = 0; i < q.n && w; i++)
        {
            bool failedBefore = m.failed;
            bool t = throws([&] { w->AddNode(q.k[i], q.d[i], q.p[i]); });
            if (failedBefore) ASSERT(t, "adding to a failed medium is rejected");
            if (m.failed) ASSERT(t, "an addition that isn't written is reported");
            told |= t;
        }
        if (w && how < 2)
        {
            told |= throws([&] { w->Close(); });
            if (how) throws([&] { w->Close(); });
        }
        // destroying the writer never raises
    }
    ASSERT(m.failed, "the failure happened");
    ASSERT(!os.good(), "the stream shows the failure");
    if (how < 2) ASSERT(told, "a call reported the failure");
    // what is on the medium
    if (!m.part) sane(m.data, good.data, q);
    REACH("done");
}
// the same for plain LAZ files
static void saneLaz(const std::string &s, const std::string &full, const Plan &q)
{
    std::stringstream ss(s), fs(full);
    std::unique_ptr<LazReader> r;
    Bytes got;
    if (throws([&] { r.reset(new LazReader(&ss)); got = r->GetPointData(); }))
    {
        REACH("rejected");
        return;
    }
    REACH("accepted");
    LazReader f(&fs);
    ASSERT(sameHeader(r->LazConfig().LasHeader(), f.LazConfig().LasHeader()) && sameBytes(r->LazConfig().Wkt(), q.w) && ebOf(r->LazConfig().ExtraBytesVlr()) == ebOf(f.LazConfig().ExtraBytesVlr()), "a file that is opened has the configuration of the complete one");
    Bytes all;
    for (int i = 0; i < q.n; i++) all.insert(all.end(), q.d[i].begin(), q.d[i].end());
    ASSERT(sameBytes(got, all), "and its points");
}
extern "C" void C35_laz(void)
{
    Plan q = plan();
    Med good;
    {
        std::ostream os(&good);
        LazWriter w(os, lazConfig(q));
        for (int i = 0; i < q.n; i++) addLaz(w, q, i);
        w.Close();
    }
    int n = (int)good.log.size();
    if (sym_choose("crash", 2))
    {
        int k = sym_choose("at", n + 1);
        saneLaz(upTo(good.log, k), good.data, q);
        return;
    }
    Med m;
    m.failWrite = sym_choose("fail", n);
    m.part = sym_choose("part", 3);
    std::ostream os(&m);
    int how = sym_choose("how", 3);
    if (sym_param("exc", 0)) os.exceptions(std::ios::badbit | std::ios::failbit);
    bool told = false;
    {
        std::unique_ptr<LazWriter> w;
        told = throws([&] { w.reset(new LazWriter(os, lazConfig(q))); });
        for (int i = 0; i < q.n && w; i++)
        {
            bool failedBefore = m.failed;
            bool t = throws([&] { addLaz(*w, q, i); });
            if (failedBefore) ASSERT(t, "adding to a failed medium is rejected");
            if (m.failed) ASSERT(t, "an addition that isn't written is reported");
            told |= t;
        }
        if (w && how < 2)
        {
            told |= throws([&] { w->Close(); });
            if (how) throws([&] { w->Close(); });
        }
    }
    ASSERT(m.failed && !os.good(), "the stream shows the failure");
    if (how < 2) ASSERT(told, "a call reported the failure");
    if (!m.part) saneLaz(m.data, good.data, q);
    REACH("done");
}
// a close that fails for another reason: nothing later makes the file look complete
extern "C" void C35_throw(void)
{
    Plan q = plan();
    std::stringstream ss;
    double lo = symF64("lo"), hi = symF64("hi");
    bool bad = lo > hi;
    int how = sym_choose("how", 3), axis = sym_choose("axis", 3);
    bool told = false;
    {
        Writer w(ss, mkConfig(q));
        for (int i = 0; i < q.n; i++) w.AddNode(q.k[i], q.d[i], q.p[i]);
        auto h = w.CopcConfig()->LasHeader();
        (axis == 0 ? h->min.x : axis == 1 ? h->min.y : h->min.z) = lo;
        (axis == 0 ? h->max.x : axis == 1 ? h->max.y : h->max.z) = hi;
        if (how < 2) told = throws([&] { w.Close(); });
        if (how == 1) throws([&] { w.Close(); });
    }
    std::string s = ss.str();
    bool opened = !throws([&] {
        std::stringstream rs(s);
        Reader r(&rs);
        ASSERT((int)r.GetAllNodes().size() == q.n, "every node");
        for (int i = 0; i < q.n; i++) ASSERT(sameBytes(r.GetPointData(q.k[i]), q.d[i]), "and its points");
    });
    if (how < 2) ASSERT(told == bad, "bounds with a minimum above their maximum are reported");
    ASSERT(opened == !bad, "and never give a file that looks complete");
    REACH(bad ? "rejected" : "done");
}
