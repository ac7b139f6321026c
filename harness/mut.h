// finished files and edits of their bytes
#pragma once
#include "layout.h"
#include <copc-lib/laz/decompressor.hpp>
static void put(std::string &s, uint64_t o, int n, uint64_t v) { std::memcpy(&s[o], &v, n); }
// a COPC file: nodes (0,0,0,0), (1,1,0,1) on the root page, (2,3,1,2) on its own page
static std::string copcFile(int fmt, int eb, int wl, bool ext, bool sub = true)
{
    CopcConfigWriter cfg(fmt, Vector3(1, 1, 1), Vector3(0, 0, 0), std::string(wl, 'w'), mkEb(eb), ext);
    std::stringstream ss;
    int rec = baseSize(fmt) + eb;
    {
        Writer w(ss, cfg);
        w.AddNode(VoxelKey(1, 1, 0, 1), Bytes(rec, 1));
        w.AddNode(VoxelKey(0, 0, 0, 0), Bytes(rec, 2));
        if (sub) w.AddNode(VoxelKey(2, 3, 1, 2), Bytes(2 * rec, 3), VoxelKey(2, 3, 1, 2));
        w.Close();
    }
    return ss.str();
}
static std::string lazFile(int fmt, int eb, int wl)
{
    las::LazConfigWriter cfg(fmt, Vector3(1, 1, 1), Vector3(0, 0, 0), std::string(wl, 'w'), mkEb(eb));
    std::stringstream ss;
    {
        LazWriter w(ss, cfg);
        las::Points p(fmt, (uint16_t)eb);
        for (int i = 0; i < 2; i++) p.AddPoint(p.CreatePoint());
        w.WritePoints(p);
        w.Close();
    }
    return ss.str();
}
