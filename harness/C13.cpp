// C13: COPC info record
#include "io.h"
static void fill(CopcInfo &i)
{
    i.center_x = symF64("cx"); i.center_y = symF64("cy"); i.center_z = symF64("cz"); i.halfsize = symF64("half"); i.spacing = symF64("sp");
}
static bool sameI(const CopcInfo &a, const CopcInfo &b)
{
    return all(bitsOf(a.center_x) == bitsOf(b.center_x), bitsOf(a.center_y) == bitsOf(b.center_y), bitsOf(a.center_z) == bitsOf(b.center_z), bitsOf(a.halfsize) == bitsOf(b.halfsize), bitsOf(a.spacing) == bitsOf(b.spacing));
}
extern "C" void C13_record(void)
{
    CopcInfo i;
    fill(i);
    i.root_hier_offset = symU64("ro"); i.root_hier_size = symU64("rs");
    copc::CopcExtent g;
    g.minimum = symF64("g0"); g.maximum = symF64("g1"); g.mean = symF64("g2"); g.var = symF64("g3");
    lazperf::copc_info_vlr v = i.ToLazPerf(g);
    std::stringstream ss;
    v.write(ss);
    std::string s = ss.str();
    ASSERT(s.size() == 160, "160 bytes");
    const char *q = s.data();
    ASSERT(all(rdLE(q, 0, 8) == bitsOf(i.center_x), rdLE(q, 8, 8) == bitsOf(i.center_y), rdLE(q, 16, 8) == bitsOf(i.center_z), rdLE(q, 24, 8) == bitsOf(i.halfsize), rdLE(q, 32, 8) == bitsOf(i.spacing),
               rdLE(q, 40, 8) == i.root_hier_offset, rdLE(q, 48, 8) == i.root_hier_size), "layout");
    ASSERT(rdLE(q, 56, 8) == bitsOf(g.minimum) && rdLE(q, 64, 8) == bitsOf(g.maximum), "GPS range");
    CopcInfo r(lazperf::copc_info_vlr::create(ss));
    ASSERT(sameI(i, r) && r.root_hier_offset == i.root_hier_offset && r.root_hier_size == i.root_hier_size, "read back");
    REACH("done");
}
extern "C" void C13_file(void)
{
    int8_t f = 6 + sym_choose("fmt", 3);
    CopcConfigWriter cfg(f, Vector3(1, 1, 1), Vector3(0, 0, 0), sym_choose("wkt", 2) ? "w" : "", mkEb(sym_choose("eb", 2)), sym_choose("ext", 2));
    CopcInfo late;
    fill(*cfg.CopcInfo());
    fill(late);
    bool change = symBool("late");
    double g0 = symF64("g0"), g1 = symF64("g1");
    ASSUME(!(g0 > g1));
    cfg.CopcExtents()->GpsTime()->minimum = g0;
    cfg.CopcExtents()->GpsTime()->maximum = g1;
    CopcInfo want = *cfg.CopcInfo();
    std::stringstream ss;
    {
        Writer w(ss, cfg);
        w.AddNode(VoxelKey(0, 0, 0, 0), mkRaw(cfg.LasHeader()->PointRecordLength(), 1));
        if (change) // the writer's own record can be set up to closing
        {
            uint64_t o = w.CopcConfig()->CopcInfo()->root_hier_offset;
            *w.CopcConfig()->CopcInfo() = late;
            w.CopcConfig()->CopcInfo()->root_hier_offset = o;
            want = late;
        }
        w.Close();
    }
    std::string s = ss.str();
    const char *q = s.data() + 375;
    ASSERT(rdLE(q, 2, 4) == 0x63706f63u && rdLE(q, 6, 1) == 0 && rdLE(q, 18, 2) == 1 && rdLE(q, 20, 2) == 160, "first record after the header");
    ASSERT(rdLE(q, 54 + 56, 8) == bitsOf(g0) && rdLE(q, 54 + 64, 8) == bitsOf(g1), "GPS range is the extent's");
    Reader r(&ss);
    CopcInfo i = r.CopcConfig().CopcInfo();
    ASSERT(sameI(i, want), "info survives the file");
    ASSERT(i.root_hier_size == 32 && rdLE(s.data(), 235, 8) + 60 == i.root_hier_offset, "root hierarchy page location");
    REACH("done");
}
// info record missing or elsewhere
extern "C" void C13_place(void)
{
    CopcConfigWriter cfg(6, Vector3(1, 1, 1), Vector3(0, 0, 0));
    std::stringstream ss;
    {
        Writer w(ss, cfg);
        w.Close();
    }
    std::string s = ss.str();
    int mode = sym_choose("mode", 3);
    if (mode == 1) s[375 + 18] = (char)symU8("rec"); // record id of the first VLR
    if (mode == 2)
    { // swap the first two VLRs: info record is second
        std::string info = s.substr(375, 54 + 160);
        int n = 54 + 14 * 16;
        std::string ext = s.substr(375 + 54 + 160, n);
        s.replace(375, n, ext);
        s.replace(375 + n, 54 + 160, info);
    }
    bool ok = mode == 0 || (mode == 1 && s[375 + 18] == 1);
    std::stringstream in(s);
    ASSERT(throws([&] { Reader r(&in); }) == !ok, "a file needs its info record first after the header");
    REACH(ok ? "done" : "rejected");
}
