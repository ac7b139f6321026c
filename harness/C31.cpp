// C31: validation of spatial bounds, header bounds updates
#include "io.h"
#include "text.h"
#include <iostream>
struct B6 { double x0, y0, z0, x1, y1, z1; };
struct Made
{
    std::string file;
    bool valid = true;
    uint64_t outHeader = 0, outNode = 0; // points outside the header's box, and outside the cube of their node
};
static Made make()
{
    Made m;
    static const int K[6][4] = {{0, 0, 0, 0}, {1, 1, 0, 1}, {2, 0, 3, 3}, {1, 0, 0, 0}, {3, 7, 6, 2}, {2, 3, 1, 1}};
    static const double MX[3][3] = {{32, 32, 16}, {32, 32, 32}, {32, 20, 8}};
    int N = (int)sym_param("N", 1), first = (int)sym_param("first", 0), P = (int)sym_param("P", 1), hi = sym_choose("header", (int)sym_param("H", 2));
    CopcConfigWriter cfg(6, Vector3(1, 1, 1), Vector3(0, 0, 0));
    static const int BASE[2][3] = {{0, 0, 0}, {-8, 100, 1}};
    const int *O = BASE[sym_choose("base", 2)];
    cfg.LasHeader()->min = Vector3(O[0], O[1], O[2]);
    cfg.LasHeader()->max = Vector3(O[0] + MX[hi][0], O[1] + MX[hi][1], O[2] + MX[hi][2]);
    std::stringstream ss;
    {
        Writer wr(ss, cfg);
        for (int i = 0; i < N; i++)
        {
            const int *k = K[(first + i) % 6];
            int S = 32 >> k[0];
            bool meets = true;
            for (int a = 0; a < 3; a++) meets = meets && k[1 + a] * S <= MX[hi][a];
            Bytes raw = mkRaw(30, P);
            int ok = meets;
            if (!meets) m.outHeader += P;
            for (int p = 0; p < P; p++)
            {
                int inH = 1, inN = 1;
                for (int a = 0; a < 3; a++)
                {
                    int v = symI32("c");
                    wrLE(raw.data(), 30 * p + 4 * a, 4, (uint32_t)v);
                    inH &= all(v >= O[a], v <= O[a] + (int)MX[hi][a]);
                    inN &= all(v >= O[a] + k[1 + a] * S, v <= O[a] + (k[1 + a] + 1) * S);
                }
                ok &= inH & inN;
                if (meets)
                {
                    m.outHeader += 1 - inH;
                    m.outNode += 1 - inN;
                }
            }
            m.valid = m.valid & (ok != 0);
            wr.AddNode(VoxelKey(k[0], k[1], k[2], k[3]), raw);
        }
        wr.Close();
    }
    m.file = ss.str();
    return m;
}
extern "C" void C31_validate(void)
{
    Made m = make();
    bool want = m.valid;
    std::istringstream ss(m.file);
    Reader r(&ss);
    if (sym_choose("verbose", 2))
        ASSERT(r.ValidateSpatialBounds(true) == want, "verbose verdict");
    else
        ASSERT(r.ValidateSpatialBounds() == want, "quiet verdict");
    if (want) REACH("valid");
    else REACH("invalid");
}
// what is printed: nothing, or the verdict and how many points are outside
extern "C" void C31_report(void)
{
    Made m = make();
    std::istringstream ss(m.file);
    Reader r(&ss);
    bool verbose = sym_choose("verbose", 2);
    std::stringbuf got;
    std::streambuf *was = std::cout.rdbuf(&got);
    vp_text = 1;
    bool ok = r.ValidateSpatialBounds(verbose);
    vp_text = 0;
    std::cout.rdbuf(was);
    ASSERT(ok == m.valid, "the verdict");
    Text t;
    t.s = got.str();
    if (!verbose) ASSERT(t.s.empty(), "nothing is printed unless asked for");
    else
    {
        size_t e = t.s.rfind("Spatial bounds are ");
        ASSERT(e != std::string::npos && (t.s.compare(e + 19, 6, "valid!") == 0) == ok && (t.s.compare(e + 19, 8, "invalid!") == 0) == !ok, "the verdict is printed");
        LAB(t, "Number of points outside header bounds: "); SHOWS(t.U(m.outHeader), "how many points are outside the header's box");
        LAB(t, "Number of points outside node bounds: "); SHOWS(t.U(m.outNode), "how many points are outside their node");
    }
    if (m.valid) REACH("valid");
    else REACH("invalid");
}
extern "C" void C31_update(void)
{
    las::LasHeader h;
    h.min = Vector3(symF64("minx"), symF64("miny"), symF64("minz"));
    h.max = Vector3(symF64("maxx"), symF64("maxy"), symF64("maxz"));
    double o[6] = {h.min.x, h.min.y, h.min.z, h.max.x, h.max.y, h.max.z};
    las::Points c(6, (uint16_t)0);
    auto p = c.CreatePoint();
    double v[3] = {symF64("X"), symF64("Y"), symF64("Z")};
    ASSUME(all(v[0] == v[0], v[1] == v[1], v[2] == v[2]));
    p->X(v[0]); p->Y(v[1]); p->Z(v[2]);
    h.CheckAndUpdateBounds(*p);
    double mn[3] = {h.min.x, h.min.y, h.min.z}, mx[3] = {h.max.x, h.max.y, h.max.z};
    for (int a = 0; a < 3; a++)
    {
        ASSERT((v[a] < o[a]) ? mn[a] == v[a] : sameF(mn[a], o[a]), "minimum is the smaller of the old one and the point");
        ASSERT((v[a] > o[3 + a]) ? mx[a] == v[a] : sameF(mx[a], o[3 + a]), "maximum is the larger of the old one and the point");
    }
    Box b = h.Bounds();
    ASSERT(all(sameF(b.x_min, mn[0]), sameF(b.y_min, mn[1]), sameF(b.z_min, mn[2]), sameF(b.x_max, mx[0]), sameF(b.y_max, mx[1]), sameF(b.z_max, mx[2])), "the bounds as a box");
    REACH("done");
}
// nodes outside the header's box, with any numbers of points
extern "C" void C31_outside(void)
{
    CopcConfigWriter cfg(6, Vector3(1, 1, 1), Vector3(0, 0, 0));
    cfg.LasHeader()->max = Vector3(32, 20, 8);
    std::stringstream ss;
    int N = (int)sym_param("N", 3);
    uint64_t total = 0;
    {
        Writer wr(ss, cfg);
        for (int i = 0; i < N; i++)
        {
            int32_t n = symI32("count");
            ASSUME(n > 0);
            total += (uint64_t)n;
            wr.AddNodeCompressed(VoxelKey(2, i, 0, 3), Bytes(4), n);
        }
        wr.Close();
    }
    Reader r(&ss);
    std::stringbuf got;
    std::streambuf *was = std::cout.rdbuf(&got);
    vp_text = 1;
    bool quiet = r.ValidateSpatialBounds(), ok = r.ValidateSpatialBounds(true);
    vp_text = 0;
    std::cout.rdbuf(was);
    ASSERT(!ok && !quiet, "the verdict");
    Text t;
    t.s = got.str();
    LAB(t, "Number of points outside header bounds: "); SHOWS(t.U(total), "how many points are outside the header's box");
    LAB(t, "Number of points outside node bounds: "); SHOWS(t.U(0), "that none is outside its node otherwise");
    if (total > 1ull << 32) REACH("beyond");
    REACH("done");
}
