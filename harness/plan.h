// a small file to be written: which nodes, pages, points, configuration
#pragma once
#include "ans.h"
struct Plan
{
    int fmt, eb, n;
    bool ext;
    std::string w;
    VoxelKey k[3], p[3];
    Bytes d[3];
};
static Plan plan()
{
    Plan q;
    int s = (int)sym_param("F", 0); // which file
    q.fmt = 6 + s % 3;
    q.eb = (int)sym_param("EB", 1);
    q.ext = sym_param("X", 0);
    q.w = std::string(sym_param("W", 2), 'w');
    q.n = sym_choose("nodes", (int)sym_param("N", 3));
    static const int K[3][4] = {{1, 1, 0, 1}, {0, 0, 0, 0}, {2, 3, 1, 2}};
    for (int i = 0; i < q.n; i++)
    {
        q.k[i] = VoxelKey(K[i][0], K[i][1], K[i][2], K[i][3]);
        q.p[i] = i != 1 ? q.k[i] : VoxelKey(0, 0, 0, 0);
        q.d[i] = mkRaw(baseSize(q.fmt) + q.eb, 1);
    }
    return q;
}
static CopcConfigWriter mkConfig(const Plan &q) { return CopcConfigWriter(q.fmt, Vector3(1, 1, 1), Vector3(0, 0, 0), q.w, mkEb(q.eb), q.ext); }
static las::LazConfigWriter lazConfig(const Plan &q) { return las::LazConfigWriter(q.fmt, Vector3(1, 1, 1), Vector3(0, 0, 0), q.w, mkEb(q.eb)); }
static void addLaz(LazWriter &w, const Plan &q, int i) { w.WritePoints(las::Points::Unpack(q.d[i], *w.LazConfig()->LasHeader())); }
