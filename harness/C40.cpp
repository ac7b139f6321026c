// C40: files on disk: closed objects, failed openings, replaced files, full disks
#include "files.h"
using copc::laz::LazFileReader;
using copc::laz::LazFileWriter;
static std::string copcBytes(const Plan &q)
{
    std::stringstream ss;
    {
        Writer w(ss, mkConfig(q));
        for (int i = 0; i < q.n; i++) w.AddNode(q.k[i], q.d[i], q.p[i]);
        w.Close();
    }
    return ss.str();
}
static std::string lazBytes(const Plan &q)
{
    std::stringstream ss;
    {
        LazWriter w(ss, lazConfig(q));
        for (int i = 0; i < q.n; i++) addLaz(w, q, i);
        w.Close();
    }
    return ss.str();
}
// a call on a closed reader gives what is known already or raises
extern "C" void C40_closed(void)
{
    Plan q = plan();
    int before = openFiles();
    spew("c40.copc", copcBytes(q));
    std::stringstream ss(copcBytes(q));
    Reader ref(&ss);
    {
        FileReader r("c40.copc");
        ASSERT(openFiles() == before + 1, "one file is open");
        Node n0 = q.n ? ref.FindNode(q.k[0]) : Node();
        int warm = sym_choose("warm", 3);
        if (warm == 1 && q.n) r.GetPointData(q.k[0]);
        if (warm == 2) r.GetAllNodes();
        int times = 1 + sym_choose("times", 2);
        for (int i = 0; i < times; i++) r.Close();
        ASSERT(openFiles() == before, "closing a reader closes its file");
        ASSERT(r.FilePath() == "c40.copc" && r.CopcConfig().Wkt() == q.w, "the configuration is still there");
        bool raised = throws([&] { auto n = r.GetAllNodes(); ASSERT(sameSet(n, ref.GetAllNodes()), "nodes of a closed reader"); });
        ASSERT(!(warm == 2 && raised), "what is known can be asked");
        for (int i = 0; i < q.n; i++)
        {
            throws([&] { Node n = r.FindNode(q.k[i]); ASSERT(sameNode(n, ref.FindNode(q.k[i])), "a node of a closed reader"); });
            ASSERT(throws([&] { r.GetPointData(ref.FindNode(q.k[i])); }), "reading points of a closed file raises");
            ASSERT(throws([&] { r.GetPoints(q.k[i]); }), "also by key");
            ASSERT(throws([&] { r.GetPointDataCompressed(ref.FindNode(q.k[i])); }), "also compressed");
        }
        throws([&] { auto p = r.GetPageList(); ASSERT(sameKeys(p, ref.GetPageList()), "pages of a closed reader"); });
        if (q.n) ASSERT(throws([&] { r.GetAllPoints(); }), "also all");
        (void)n0;
    }
    ASSERT(openFiles() == before, "nothing stays open");
    {
        FileReader r("c40.copc");
    }
    ASSERT(openFiles() == before, "destroying a reader closes its file");
    spew("c40.laz", lazBytes(q));
    {
        LazFileReader r("c40.laz");
        if (sym_choose("lwarm", 2)) r.GetPointData();
        r.Close();
        ASSERT(openFiles() == before && r.FilePath() == "c40.laz" && r.LazConfig().Wkt() == q.w, "a closed LAZ reader");
        ASSERT(throws([&] { r.GetPointData(); }) && throws([&] { r.GetPoints(); }), "reading points of a closed file raises");
        r.Close();
    }
    ASSERT(openFiles() == before, "nothing stays open");
    REACH("done");
}
// opening what can't be opened raises and leaves nothing open
extern "C" void C40_open(void)
{
    Plan q = plan();
    int before = openFiles(), what = sym_choose("what", 7);
    std::string s = copcBytes(q), l = lazBytes(q);
    bool laz = sym_choose("laz", 2);
    if (what == 0) spew("c40b.copc", "");
    if (what == 1) spew("c40b.copc", laz ? l.substr(0, l.size() / 2) : s.substr(0, s.size() / 2));
    if (what == 2) s[0] = l[0] = 'X', spew("c40b.copc", laz ? l : s);
    if (what == 3) s[375 + 2] = 'X', spew("c40b.copc", laz ? l.substr(0, 300) : s);
    if (what == 4 && laz) return;
    if (what == 4) spew("c40b.copc", l); // not COPC
    const char *path = what == 5 ? "missing.copc" : what == 6 ? "no/folder.copc" : "c40b.copc";
    ASSERT(openFiles() == before, "nothing is open yet");
    if (laz) ASSERT(throws([&] { LazFileReader r(path); }), "it is rejected");
    else ASSERT(throws([&] { FileReader r(path); }), "it is rejected");
    ASSERT(openFiles() == before, "and nothing stays open");
    if (what == 6)
    {
        if (laz) ASSERT(throws([&] { LazFileWriter w(path, lazConfig(q)); }), "it can't be written");
        else ASSERT(throws([&] { FileWriter w(path, mkConfig(q)); }), "it can't be written");
        ASSERT(openFiles() == before, "and nothing stays open");
    }
    REACH("done");
}
// writing replaces a file; while it is being written it isn't one
extern "C" void C40_replace(void)
{
    Plan q = plan();
    int before = openFiles();
    bool laz = sym_choose("laz", 2);
    std::string s = laz ? lazBytes(q) : copcBytes(q);
    int old = sym_choose("old", 3); // none, longer, shorter
    const char *path = laz ? "c40r.laz" : "c40r.copc";
    if (old) spew(path, old == 1 ? s + std::string(700, 'o') : std::string(20, 'o'));
    auto readable = [&] { return laz ? !throws([&] { LazFileReader r(path); }) : !throws([&] { FileReader r(path); }); };
    int how = sym_choose("how", 2);
    if (laz)
    {
        LazFileWriter w(path, lazConfig(q));
        ASSERT(openFiles() == before + 1 && !readable(), "not a file while it is being written");
        for (int i = 0; i < q.n; i++) addLaz(w, q, i);
        ASSERT(!readable(), "not a file while it is being written");
        if (how)
        {
            w.Close();
            ASSERT(openFiles() == before && sameBytes(slurp(path), s), "closed: complete, nothing open");
            if (q.n) ASSERT(throws([&] { addLaz(w, q, 0); }), "additions are rejected");
        }
    }
    else
    {
        FileWriter w(path, mkConfig(q));
        ASSERT(openFiles() == before + 1 && !readable(), "not a file while it is being written");
        for (int i = 0; i < q.n; i++) w.AddNode(q.k[i], q.d[i], q.p[i]);
        ASSERT(!readable(), "not a file while it is being written");
        if (how)
        {
            w.Close();
            ASSERT(openFiles() == before && sameBytes(slurp(path), s), "closed: complete, nothing open");
            if (q.n) ASSERT(throws([&] { w.AddNode(q.k[0], q.d[0], q.p[0]); }), "additions are rejected");
        }
    }
    ASSERT(openFiles() == before && sameBytes(slurp(path), s) && readable(), "complete, and nothing stays open");
    REACH("done");
}
// the disk gets full
extern "C" void C40_full(void)
{
    Plan q = plan();
    bool laz = sym_param("laz", 0);
    std::string s = laz ? lazBytes(q) : copcBytes(q);
    int before = openFiles(), how = sym_choose("how", 2);
    long limit = symU16("limit");
    ASSUME(limit <= (long)s.size());
    const char *path = laz ? "c40f.laz" : "c40f.copc";
    bool told = false, fits = limit == (long)s.size();
    fileLimit(limit);
    if (laz)
    {
        std::unique_ptr<LazFileWriter> w;
        told |= throws([&] { w.reset(new LazFileWriter(path, lazConfig(q))); });
        for (int i = 0; i < q.n && w; i++) told |= throws([&] { addLaz(*w, q, i); });
        if (how && w) told |= throws([&] { w->Close(); });
    }
    else
    {
        std::unique_ptr<FileWriter> w;
        told |= throws([&] { w.reset(new FileWriter(path, mkConfig(q))); });
        for (int i = 0; i < q.n && w; i++) told |= throws([&] { w->AddNode(q.k[i], q.d[i], q.p[i]); });
        if (how && w) told |= throws([&] { w->Close(); });
    }
    fileLimit(-1);
    ASSERT(openFiles() == before, "nothing stays open");
    if (how) ASSERT(told == !fits, "a full disk is reported, and only that");
    if (fits) ASSERT(sameBytes(slurp(path), s), "the file is complete");
    else if (laz) ASSERT(throws([&] { LazFileReader r(path); }), "the rest isn't taken for a file");
    else ASSERT(throws([&] { FileReader r(path); }), "the rest isn't taken for a file");
    REACH("done");
}
// the disk stops accepting data
extern "C" void C40_fails(void)
{
    Plan q = plan();
    bool laz = sym_param("laz", 0);
    std::string s = laz ? lazBytes(q) : copcBytes(q);
    int before = openFiles(), how = sym_choose("how", 3);
    int k = symU8("from");
    const char *path = laz ? "c40e.laz" : "c40e.copc";
    bool told = false;
    failFlush(k);
    if (laz)
    {
        std::unique_ptr<LazFileWriter> w;
        told |= throws([&] { w.reset(new LazFileWriter(path, lazConfig(q))); });
        for (int i = 0; i < q.n && w; i++) told |= throws([&] { addLaz(*w, q, i); });
        for (int i = 0; i < how && w; i++) told |= throws([&] { w->Close(); });
    }
    else
    {
        std::unique_ptr<FileWriter> w;
        told |= throws([&] { w.reset(new FileWriter(path, mkConfig(q))); });
        for (int i = 0; i < q.n && w; i++) told |= throws([&] { w->AddNode(q.k[i], q.d[i], q.p[i]); });
        for (int i = 0; i < how && w; i++) told |= throws([&] { w->Close(); });
    }
    bool lost = flushes() > k;
    failFlush(-1);
    ASSERT(openFiles() == before, "nothing stays open");
    if (how) ASSERT(told == lost, "lost data is reported, and only that");
    if (!lost) ASSERT(sameBytes(slurp(path), s), "the file is complete");
    else if (laz) ASSERT(throws([&] { LazFileReader r(path); }), "the rest isn't taken for a file");
    else ASSERT(throws([&] { FileReader r(path); }), "the rest isn't taken for a file");
    if (k >= 1 && how == 1 && told) REACH("late");
    REACH("done");
}
