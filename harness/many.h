// files with more nodes, pages, points or chunks than 8 and 16 bits count
#pragma once
#include "io.h"
// n records: the first, middle and last one arbitrary, the others follow a pattern
static Bytes manyRaw(int rec, int n)
{
    Bytes b((size_t)rec * n);
    for (int k = 0; k < 3; k++) sym_bytes(&b[(size_t)rec * (k == 0 ? 0 : k == 1 ? n / 2 : n - 1)], rec, "rec");
    for (int i = 0; i < n; i++)
        if (i != 0 && i != n / 2 && i != n - 1) memcpy(&b[(size_t)rec * i], &i, 4);
    return b;
}
// node i of a wide tree: 16 levels down, neighbours under different ancestors
static VoxelKey wideKey(int i) { return VoxelKey(16, (i * 7919) & 0xffff, i & 0xffff, (i * 31) & 0xffff); }
struct Wide
{
    std::vector<Node> nodes;
    std::vector<VoxelKey> pages;
    // shape 0: all nodes on the root page; 1: each on its own page; 2: all on one inner page; 3: pages nested deeply; 4: each on its own page below an inner page
    void write(Writer &wr, int shape, int n)
    {
        pages.push_back(VoxelKey(0, 0, 0, 0));
        if (shape == 2) pages.push_back(VoxelKey(1, 0, 0, 0));
        for (int i = 0; i < n; i++)
        {
            VoxelKey k = wideKey(i), p = pages[0];
            if (shape == 2) { k = VoxelKey(16, i & 0x7fff, 7, (i * 31) & 0x7fff); p = pages[1]; }
            if (shape == 1) p = k;
            if (shape == 3) { k = VoxelKey(i + 1, i < 30 ? (1 << (i + 1)) - 1 : 5, 0, 0); p = k; }
            if (shape == 4) { k = i ? VoxelKey(16, i & 0x7fff, 7, (i * 31) & 0x7fff) : VoxelKey(1, 0, 0, 0); p = k; }
            if (shape & 1 || shape == 4) pages.push_back(p);
            Bytes c(4);
            sym_bytes(c.data(), 1, "chunk");
            nodes.push_back(wr.AddNodeCompressed(k, c, 1 + i % 1000, p));
        }
    }
};
