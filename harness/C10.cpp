// C10: the LAS header survives writing and reading
#include "hdr.h"
extern "C" void C10_convert(void)
{
    int8_t fmt = 6 + sym_choose("fmt", 3);
    uint16_t len = symU16("len");
    ASSUME(len >= baseSize(fmt));
    bool copc = symBool("copc"), eb = symBool("eb"), ext = symBool("ext");
    Vector3 sc(symF64("sx"), symF64("sy"), symF64("sz")), of(symF64("ox"), symF64("oy"), symF64("oz"));
    las::LasHeader h(fmt, len, sc, of, copc);
    fill(h);
    static const int L[6][3] = {{0, 0, 0}, {1, 1, 1}, {15, 0, 31}, {16, 31, 2}, {3, 32, 32}, {16, 32, 32}};
    int c = sym_choose("lens", 6);
    std::string g = text(L[c][0], "guid"), si = text(L[c][1], "sysid"), gs = text(L[c][2], "soft");
    h.GUID(g); h.SystemIdentifier(si); h.GeneratingSoftware(gs);
    ASSERT(all(h.GUID() == g, h.SystemIdentifier() == si, h.GeneratingSoftware() == gs), "identifiers are kept");
    uint32_t po = symU32("po"), ec = symU32("ec");
    uint64_t pc = symU64("pc"), eo = symU64("eo");
    lazperf::header14 lp;
    if (throws([&] { lp = h.ToLazPerf(po, pc, eo, ec, eb, ext); }))
    {
        ASSERT(ext && !copc, "only extended statistics without COPC are rejected");
        REACH("rejected");
        return;
    }
    ASSERT(!(ext && !copc), "extended statistics need COPC");
    std::stringstream ss;
    lp.write(ss);
    std::string s = ss.str();
    const char *q = s.data();
    ASSERT(s.size() == 375, "375 bytes");
    ASSERT(s.substr(0, 4) == "LASF", "magic");
    ASSERT(all(rdLE(q, 4, 2) == h.file_source_id, rdLE(q, 6, 2) == (h.global_encoding | 0x10u), rdLE(q, 24, 1) == 1, rdLE(q, 25, 1) == 4, rdLE(q, 90, 2) == h.creation_day, rdLE(q, 92, 2) == h.creation_year,
               rdLE(q, 94, 2) == 375, rdLE(q, 96, 4) == po), "identification fields; WKT bit set");
    ASSERT(rdLE(q, 100, 4) == 1u + (eb ? 1 : 0) + (copc ? 2 : 0) + (ext ? 1 : 0), "VLR count");
    ASSERT(all(rdLE(q, 104, 1) == (uint64_t)(0x80 | fmt), rdLE(q, 105, 2) == len), "compressed format bit and record length");
    ASSERT(rdLE(q, 107, 4) == sym_ite(pc <= 0xffffffffull, pc, 0), "legacy point count");
    int leg = 1;
    for (int i = 0; i < 5; i++) leg &= rdLE(q, 111 + 4 * i, 4) == 0;
    ASSERT(leg, "legacy per-return counts are zero");
    ASSERT(all(rdLE(q, 131, 8) == bitsOf(sc.x), rdLE(q, 139, 8) == bitsOf(sc.y), rdLE(q, 147, 8) == bitsOf(sc.z), rdLE(q, 155, 8) == bitsOf(of.x), rdLE(q, 163, 8) == bitsOf(of.y), rdLE(q, 171, 8) == bitsOf(of.z)),
           "scale and offset");
    ASSERT(all(rdLE(q, 179, 8) == bitsOf(h.max.x), rdLE(q, 187, 8) == bitsOf(h.min.x), rdLE(q, 195, 8) == bitsOf(h.max.y), rdLE(q, 203, 8) == bitsOf(h.min.y), rdLE(q, 211, 8) == bitsOf(h.max.z),
               rdLE(q, 219, 8) == bitsOf(h.min.z)), "bounds");
    ASSERT(all(rdLE(q, 235, 8) == eo, rdLE(q, 243, 4) == ec, rdLE(q, 247, 8) == pc), "EVLR position and count, point count");
    ss.seekg(0);
    lazperf::header14 rd;
    rd.read(ss);
    rd.point_format_id &= 0x3f; // as the LAZ reader does
    las::LasHeader b = las::LasHeader::FromLazPerf(rd);
    ASSERT(sameUser(h, b), "attributes are read back");
    ASSERT(b.global_encoding == (h.global_encoding | 0x10), "encoding is read back with the WKT bit");
    ASSERT(all(b.GUID() == g, b.SystemIdentifier() == si, b.GeneratingSoftware() == gs), "identifiers are read back");
    ASSERT(all(b.PointOffset() == po, b.PointCount() == pc, b.EvlrOffset() == eo, b.EvlrCount() == ec, b.VlrCount() == rdLE(q, 100, 4)), "counts and offsets are read back");
    REACH("done");
}
extern "C" void C10_reject(void)
{
    lazperf::header14 lp;
    lp.global_encoding = symU16("enc");
    lp.version.major = symU8("maj");
    lp.version.minor = symU8("min");
    lp.header_size = symU16("hs");
    lp.point_format_id = symU8("fmt");
    lp.point_record_length = symU16("len");
    bool bad = !all((lp.global_encoding & 0x10) != 0, lp.version.major == 1, lp.version.minor == 4, lp.header_size == 375, lp.point_format_id >= 6, lp.point_format_id <= 8);
    if (!bad) bad = lp.point_record_length < (lp.point_format_id == 6 ? 30 : lp.point_format_id == 7 ? 36 : 38); // forks by format
    int8_t f = 0;
    bool t = throws([&] { las::LasHeader h = las::LasHeader::FromLazPerf(lp); f = h.PointFormatId(); });
    ASSERT(t == bad, "only LAS 1.4 headers of 375 bytes with the WKT bit format 6-8 and whole records are accepted");
    if (!t) ASSERT(f == (int8_t)lp.point_format_id, "format");
    OBS("t", t);
    REACH(t ? "rejected" : "done");
}
extern "C" void C10_ident(void)
{
    las::LasHeader h;
    h.GUID("abc"); h.SystemIdentifier("def"); h.GeneratingSoftware("ghi");
    int n = sym_choose("n", (int)sym_param("N", 40)), which = sym_choose("which", 3);
    std::string s(n, 'a');
    if (n) s[n - 1] = 'b';
    bool t = throws([&] { if (which == 0) h.GUID(s); else if (which == 1) h.SystemIdentifier(s); else h.GeneratingSoftware(s); });
    ASSERT(t == (n > (which == 0 ? 16 : 32)), "identifiers longer than their field are rejected");
    ASSERT(h.GUID() == (which == 0 && !t ? s : std::string("abc")), "GUID");
    ASSERT(h.SystemIdentifier() == (which == 1 && !t ? s : std::string("def")), "system identifier");
    ASSERT(h.GeneratingSoftware() == (which == 2 && !t ? s : std::string("ghi")), "generating software");
    REACH(t ? "rejected" : "done");
}
// through real files
extern "C" void C10_file(void)
{
    int8_t fmt = 6 + sym_choose("fmt", 3);
    bool copc = sym_choose("copc", 2);
    Vector3 sc(symF64("sx"), symF64("sy"), symF64("sz")), of(symF64("ox"), symF64("oy"), symF64("oz"));
    std::stringstream ss;
    las::LasHeader want, got;
    std::string g = text(16, "guid"), si = text(32, "sysid"), gs = text(31, "soft");
    if (copc)
    {
        CopcConfigWriter cfg(fmt, sc, of);
        fill(*cfg.LasHeader());
        cfg.LasHeader()->GUID(g); cfg.LasHeader()->SystemIdentifier(si); cfg.LasHeader()->GeneratingSoftware(gs);
        want = *cfg.LasHeader();
        ASSUME(all(!(want.min.x > want.max.x), !(want.min.y > want.max.y), !(want.min.z > want.max.z))); // closing rejects inverted bounds
        Writer w(ss, cfg);
        w.Close();
        Reader r(&ss);
        got = r.CopcConfig().LasHeader();
        ASSERT(got.IsCopc(), "COPC");
    }
    else
    {
        las::LazConfigWriter cfg(fmt, sc, of);
        fill(*cfg.LasHeader());
        cfg.LasHeader()->GUID(g); cfg.LasHeader()->SystemIdentifier(si); cfg.LasHeader()->GeneratingSoftware(gs);
        want = *cfg.LasHeader();
        LazWriter w(ss, cfg);
        w.Close();
        LazReader r(&ss);
        got = r.LazConfig().LasHeader();
        ASSERT(!got.IsCopc(), "not COPC");
    }
    ASSERT(sameUser(want, got), "attributes survive the file");
    ASSERT(got.global_encoding == (want.global_encoding | 0x10), "encoding survives the file");
    ASSERT(all(got.GUID() == g, got.SystemIdentifier() == si, got.GeneratingSoftware() == gs), "identifiers survive the file");
    ASSERT(got.PointCount() == 0, "no points");
    REACH("done");
}
