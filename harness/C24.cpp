// C24: rejected writes leave the output unaffected
#include "io.h"
#include <copc-lib/laz/compressor.hpp>
struct Plan
{
    VoxelKey k[3], p[3];
    Bytes d[3];
    int n;
};
static void step(Writer &w, const Plan &pl, int i) { w.AddNode(pl.k[i], pl.d[i], pl.p[i]); }
static std::string plain(const CopcConfigWriter &cfg, const Plan &pl)
{
    std::stringstream ss;
    {
        Writer w(ss, cfg);
        for (int i = 0; i < pl.n; i++) step(w, pl, i);
        w.Close();
    }
    return ss.str();
}
static VoxelKey anyKey(const char *d, const char *x, const char *y, const char *z) { return VoxelKey(symI32(d), symI32(x), symI32(y), symI32(z)); }
// a key that no file can hold
static VoxelKey badKey()
{
    int d = sym_choose("bd", 4) - 1;
    VoxelKey k(d, symI32("bx"), symI32("by"), symI32("bz"));
    int lim = 1 << (d < 0 ? 0 : d);
    ASSUME(d < 0 || !all(k.x >= 0, k.y >= 0, k.z >= 0, k.x < lim, k.y < lim, k.z < lim));
    return k;
}
extern "C" void C24_reject(void)
{
    int fmt = 6 + (int)sym_param("F", 0), eb = (int)sym_param("EB", 1), rec = baseSize(fmt) + eb;
    CopcConfigWriter cfg(fmt, Vector3(1, 1, 1), Vector3(0, 0, 0), "w", mkEb(eb));
    Plan pl;
    pl.n = sym_choose("adds", (int)sym_param("N", 3));
    static const int K[3][4] = {{1, 1, 0, 1}, {2, 3, 1, 2}, {0, 0, 0, 0}};
    for (int i = 0; i < pl.n; i++)
    {
        pl.k[i] = VoxelKey(K[i][0], K[i][1], K[i][2], K[i][3]);
        pl.p[i] = sym_choose("page", 2) ? pl.k[i] : VoxelKey(0, 0, 0, 0);
        pl.d[i] = mkRaw(rec, 1);
    }
    int at = sym_choose("at", pl.n + 1), tries = 1 + sym_choose("twice", (int)sym_param("T", 1));
    std::stringstream ss;
    {
        Writer w(ss, cfg);
        for (int i = 0; i <= pl.n; i++)
        {
            if (i == at)
                for (int j = 0; j < tries; j++)
                {
                    int what = sym_choose("what", 12), how = what < 3 ? sym_choose("how", 3) : 0;
                    VoxelKey root(0, 0, 0, 0), key(1, 1, 0, 1);
                    if (sym_choose("new", 2)) key = VoxelKey(3, 7, 2, 5); // a key that is added nowhere
                    VoxelKey page = root;
                    Bytes raw = mkRaw(rec, 1, "junk");
                    std::string before = ss.str();
                    if (what == 0) key = badKey();
                    else if (what == 1) page = badKey();
                    else if (what == 2)
                    { // a valid page that is not the key or an ancestor of it
                        page = symKey(1 + sym_choose("pd", 4), "px", "py", "pz");
                        ASSUME(page.d > key.d || !keyEq(page, anc(key, page.d)));
                    }
                    if (what >= 3 && sym_choose("own", 2)) page = key; // a page of its own
                    bool t = throws([&] {
                        switch (what)
                        {
                        case 0: case 1: case 2:
                            if (how == 0) w.AddNode(key, raw, page);
                            else if (how == 1) w.AddNodeCompressed(key, raw, 1, page);
                            else w.AddNode(key, las::Points::Unpack(raw, *cfg.LasHeader()), page);
                            break;
                        case 3: w.AddNode(key, las::Points(fmt, (uint16_t)eb), page); break;
                        case 4: case 5: case 6:
                        { // points of another format or record length
                            int f2 = what == 4 ? 6 + (fmt - 6 + 1) % 3 : what == 5 ? 6 + (fmt - 6 + 2) % 3 : fmt, eb2 = what == 6 ? eb + 1 : eb;
                            if (what == 5) eb2 = rec - baseSize(f2) >= 0 ? rec - baseSize(f2) : eb; // same record length when possible
                            las::Points p(f2, (uint16_t)eb2);
                            p.AddPoint(p.CreatePoint());
                            w.AddNode(key, p, page);
                            break;
                        }
                        case 7: w.AddNode(key, Bytes(), page); break;
                        case 8: w.AddNode(key, mkRaw(1, 1 + sym_choose("r", 2) * (rec - 2) + sym_choose("more", 2) * rec, "part"), page); break;
                        case 9:
                        {
                            int32_t c = symI32("count");
                            ASSUME(c <= 0);
                            w.AddNodeCompressed(key, raw, c, page);
                            break;
                        }
                        case 10: case 11:
                            ss.setstate(what == 10 ? std::ios::badbit : std::ios::failbit);
                            if (sym_choose("how2", 2)) w.AddNode(key, raw, page);
                            else w.AddNodeCompressed(key, raw, 1, page);
                            break;
                        }
                    });
                    ASSERT(t, "the addition is rejected");
                    if (what >= 10) ss.clear();
                    ASSERT(sameBytes(ss.str(), before), "nothing is written");
                    bool had = false;
                    for (int q = 0; q < i; q++) had = had || keyEq(pl.k[q], key);
                    if (what != 0) ASSERT(w.FindNode(key).IsValid() == had, "the node set is the same");
                }
            if (i < pl.n) step(w, pl, i);
        }
        w.Close();
    }
    ASSERT(sameBytes(ss.str(), plain(cfg, pl)), "the file is the same as without the rejected additions");
    REACH("done");
}
// after closing
extern "C" void C24_closed(void)
{
    CopcConfigWriter cfg(6, Vector3(1, 1, 1), Vector3(0, 0, 0), "w", mkEb(1));
    std::stringstream ss;
    Writer w(ss, cfg);
    Bytes raw = mkRaw(31, 1);
    int n = sym_choose("adds", 2);
    if (n) w.AddNode(VoxelKey(1, 1, 0, 1), raw);
    w.Close();
    std::string before = ss.str();
    VoxelKey k = sym_choose("same", 2) ? VoxelKey(1, 1, 0, 1) : VoxelKey(1, 0, 0, 1);
    bool c = sym_choose("comp", 2);
    ASSERT(throws([&] { if (c) w.AddNodeCompressed(k, raw, 1); else w.AddNode(k, raw); }), "adding to a closed writer is rejected");
    w.Close();
    ASSERT(sameBytes(ss.str(), before), "the file is unaffected");
    REACH("done");
}
// plain LAZ writers
extern "C" void C24_laz(void)
{
    int fmt = 6 + sym_choose("fmt", 3), eb = sym_choose("eb", 2), rec = baseSize(fmt) + eb, n = sym_choose("adds", 3), at = sym_choose("at", 3), what = sym_choose("what", 5);
    if (at > n) return;
    las::LazConfigWriter cfg(fmt, Vector3(1, 1, 1), Vector3(0, 0, 0), "w", mkEb(eb));
    std::stringstream a, b;
    Bytes d[2] = {mkRaw(rec, 1), mkRaw(rec, 2)}, junk = mkRaw(rec, 1, "junk");
    {
        LazWriter x(a, cfg), y(b, cfg);
        for (int i = 0; i <= n; i++)
        {
            if (i == at)
            {
                bool t = throws([&] {
                    int32_t c = symI32("count");
                    ASSUME(c <= 0);
                    las::Points p(fmt == 6 ? 7 : 6, (uint16_t)eb), q(fmt, (uint16_t)(eb + 1));
                    p.AddPoint(p.CreatePoint());
                    q.AddPoint(q.CreatePoint());
                    if (what == 0) x.WritePoints(p);
                    else if (what == 1) x.WritePoints(q);
                    else if (what == 2) x.WritePointsCompressed(junk, c);
                    else
                    {
                        a.setstate(std::ios::badbit);
                        if (what == 3) x.WritePointsCompressed(junk, 1);
                        else x.WritePoints(las::Points::Unpack(junk, *cfg.LasHeader()));
                    }
                });
                a.clear();
                ASSERT(t, "the addition is rejected");
            }
            if (i < n)
            {
                x.WritePoints(las::Points::Unpack(d[i], *cfg.LasHeader()));
                y.WritePoints(las::Points::Unpack(d[i], *cfg.LasHeader()));
            }
            ASSERT(x.PointCount() == y.PointCount() && x.ChunkCount() == y.ChunkCount(), "counts are the same");
        }
    }
    ASSERT(sameBytes(a.str(), b.str()), "the file is the same");
    REACH("done");
}
