// C28: closing is idempotent and final
#include "io.h"
#include <fstream>
#include <copc-lib/laz/compressor.hpp>
static std::string slurp(const char *p)
{
    std::ifstream f(p, std::ios::in | std::ios::binary);
    std::stringstream ss;
    char c[512];
    while (f.read(c, sizeof c) || f.gcount()) ss.write(c, f.gcount());
    return ss.str();
}
struct Plan
{
    int fmt, eb, rec, n;
    bool ext;
    std::string w;
    VoxelKey k[3], p[3];
    Bytes d[3];
    int how[3];
};
static Plan plan()
{
    Plan q;
    q.fmt = 6 + sym_choose("fmt", (int)sym_param("F", 2));
    q.eb = sym_choose("eb", 2);
    q.ext = sym_choose("ext", 2);
    q.w = std::string(sym_choose("wkt", 2) * 2, 'w');
    q.rec = baseSize(q.fmt) + q.eb;
    q.n = sym_choose("nodes", (int)sym_param("N", 3));
    static const int K[3][4] = {{1, 1, 0, 1}, {2, 3, 1, 2}, {0, 0, 0, 0}};
    for (int i = 0; i < q.n; i++)
    {
        q.k[i] = VoxelKey(K[i][0], K[i][1], K[i][2], K[i][3]);
        q.p[i] = sym_choose("page", 2) ? q.k[i] : VoxelKey(0, 0, 0, 0);
        q.d[i] = mkRaw(q.rec, 1);
    }
    return q;
}
template <class W> static void add(W &w, const Plan &q)
{
    for (int i = 0; i < q.n; i++) w.AddNode(q.k[i], q.d[i], q.p[i]);
}
template <class W> static void addLaz(W &w, const Plan &q)
{
    for (int i = 0; i < q.n; i++) w.WritePoints(las::Points::Unpack(q.d[i], *w.LazConfig()->LasHeader()));
}
extern "C" void C28_copc(void)
{
    Plan q = plan();
    CopcConfigWriter cfg(q.fmt, Vector3(1, 1, 1), Vector3(0, 0, 0), q.w, mkEb(q.eb), q.ext);
    std::stringstream a, b;
    std::string first, disk;
    {
        Writer w(a, cfg);
        add(w, q);
        w.Close();
        first = a.str();
        int more = sym_choose("more", (int)sym_param("M", 3));
        for (int i = 0; i < more; i++)
        {
            w.Close();
            ASSERT(sameBytes(a.str(), first), "closing again changes nothing");
        }
        if (q.n && more)
        {
            w.ChangeNodePage(q.k[0], VoxelKey(0, 0, 0, 0));
            w.CopcConfig()->LasHeader()->file_source_id = 7;
            w.Close();
        }
    }
    ASSERT(sameBytes(a.str(), first), "destroying a closed writer changes nothing");
    {
        Writer w(b, cfg);
        add(w, q);
    }
    ASSERT(sameBytes(b.str(), first), "a writer that is only destroyed writes the same file");
    {
        FileWriter w("c28.copc", cfg);
        ASSERT(w.FilePath() == "c28.copc", "path");
        add(w, q);
        int cl = sym_choose("fileclose", 3);
        for (int i = 0; i < cl; i++)
        {
            w.Close();
            ASSERT(sameBytes(slurp("c28.copc"), first), "the file on disk is complete after the first close");
        }
        if (sym_choose("late", 2) && cl) ASSERT(throws([&] { w.AddNode(VoxelKey(0, 0, 0, 0), mkRaw(q.rec, 1)); }), "adding after closing is rejected");
    }
    ASSERT(sameBytes(slurp("c28.copc"), first), "the file on disk is the file in memory");
    FileReader r("c28.copc");
    ASSERT(r.CopcConfig().LasHeader().PointCount() == (uint64_t)q.n && r.GetAllNodes().size() == (size_t)q.n, "the file is readable");
    r.Close();
    r.Close();
    OBS("size", first.size());
    REACH("done");
}
extern "C" void C28_laz(void)
{
    Plan q = plan();
    las::LazConfigWriter cfg(q.fmt, Vector3(1, 1, 1), Vector3(0, 0, 0), q.w, mkEb(q.eb));
    std::stringstream a, b;
    std::string first;
    {
        LazWriter w(a, cfg);
        addLaz(w, q);
        w.Close();
        first = a.str();
        int more = sym_choose("more", (int)sym_param("M", 3));
        for (int i = 0; i < more; i++)
        {
            w.Close();
            ASSERT(sameBytes(a.str(), first), "closing again changes nothing");
        }
    }
    ASSERT(sameBytes(a.str(), first), "destroying a closed writer changes nothing");
    {
        LazWriter w(b, cfg);
        addLaz(w, q);
    }
    ASSERT(sameBytes(b.str(), first), "a writer that is only destroyed writes the same file");
    {
        copc::laz::LazFileWriter w("c28.laz", cfg);
        addLaz(w, q);
        int cl = sym_choose("fileclose", 3);
        for (int i = 0; i < cl; i++)
        {
            w.Close();
            ASSERT(sameBytes(slurp("c28.laz"), first), "the file on disk is complete after the first close");
        }
    }
    ASSERT(sameBytes(slurp("c28.laz"), first), "the file on disk is the file in memory");
    copc::laz::LazFileReader r("c28.laz");
    ASSERT(r.LazConfig().LasHeader().PointCount() == (uint64_t)q.n && r.GetPoints().Size() == (size_t)q.n, "the file is readable");
    r.Close();
    REACH("done");
}
