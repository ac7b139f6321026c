// LAS headers with arbitrary contents
#pragma once
#include "io.h"
static std::string text(int n, const char *nm)
{
    std::string s(n, 'x');
    if (n) sym_bytes(&s[0], n, nm);
    for (char c : s) ASSUME(c != 0);
    return s;
}
static void fill(las::LasHeader &h)
{
    h.file_source_id = symU16("fsid");
    h.global_encoding = symU16("enc");
    h.creation_day = symU16("day");
    h.creation_year = symU16("year");
    h.min = Vector3(symF64("minx"), symF64("miny"), symF64("minz"));
    h.max = Vector3(symF64("maxx"), symF64("maxy"), symF64("maxz"));
    for (auto &p : h.points_by_return) p = symU64("byret");
}
static bool sameUser(const las::LasHeader &a, const las::LasHeader &b)
{
    int r = all(a.file_source_id == b.file_source_id, a.creation_day == b.creation_day, a.creation_year == b.creation_year, sameV(a.min, b.min), sameV(a.max, b.max), sameV(a.Scale(), b.Scale()),
                sameV(a.Offset(), b.Offset()), a.PointFormatId() == b.PointFormatId(), a.PointRecordLength() == b.PointRecordLength());
    for (int i = 0; i < 15; i++) r &= a.points_by_return[i] == b.points_by_return[i];
    return r;
}
