// C22: plain LAZ files round-trip
#include "hdr.h"
#include "many.h"
#include <copc-lib/laz/compressor.hpp>
static bool samePoints(const las::Points &p, const Bytes &raw, const las::LasHeader &h) { return p.Size() * p.PointRecordLength() == raw.size() && sameBytes(p.Pack(h), raw); }
extern "C" void C22_data(void)
{
    int fmt = 6 + sym_choose("fmt", (int)sym_param("F", 3)), eb = (int)sym_param("EBV", -1), N = (int)sym_param("N", 2), P = (int)sym_param("P", 3);
    if (eb < 0) eb = sym_choose("eb", 2);
    int wl = sym_choose("wkt", 2) * 2;
    std::string w = text(wl, "wkt");
    las::LazConfigWriter cfg(fmt, Vector3(1, 1, 1), Vector3(0, 0, 0), w, mkEb(eb));
    las::LasHeader hd = *cfg.LasHeader();
    int rec = baseSize(fmt) + eb;
    std::stringstream ss;
    Bytes all_;
    uint64_t points = 0, chunks = 0;
    {
        LazWriter wr(ss, cfg);
        ASSERT(wr.PointCount() == 0 && wr.ChunkCount() == 0, "nothing written yet");
        for (int i = 0; i < N; i++)
        {
            int n = sym_choose("n", P), how = sym_choose("how", 2);
            Bytes raw = mkRaw(rec, n);
            std::string before = ss.str();
            if (n == 0 && how)
            {
                int32_t c = (int32_t)symI32("bad");
                ASSUME(c <= 0);
                ASSERT(throws([&] { wr.WritePointsCompressed(mkRaw(5, 1, "junk"), c); }), "an empty compressed chunk is rejected");
            }
            else if (how) wr.WritePointsCompressed(laz::Compressor::CompressBytes(raw, hd), n);
            else wr.WritePoints(n ? las::Points::Unpack(raw, hd) : las::Points(hd));
            if (n == 0) ASSERT(sameBytes(before, ss.str()), "nothing is written");
            points += n;
            chunks += n > 0;
            all_.insert(all_.end(), raw.begin(), raw.end());
            ASSERT(wr.PointCount() == points && wr.ChunkCount() == chunks, "counts while writing");
        }
        wr.Close();
        ASSERT(wr.PointCount() == points && wr.ChunkCount() == chunks, "counts after closing");
    }
    LazReader r(&ss);
    las::LasHeader rh = r.LazConfig().LasHeader();
    ASSERT(sameUser(hd, rh) && rh.PointCount() == points, "header attributes and point count");
    ASSERT(sameBytes(r.LazConfig().Wkt(), w), "WKT");
    ASSERT(r.LazConfig().ExtraBytesVlr().items.size() == (size_t)eb, "extra-byte dimensions");
    bool first = sym_choose("first", 2);
    if (first) ASSERT(samePoints(r.GetPoints(), all_, rh), "the points in order");
    ASSERT(sameBytes(r.GetPointData(), all_), "the records in order");
    las::Points p = r.GetPoints();
    ASSERT(samePoints(p, all_, rh), "the points in order, again");
    ASSERT(p.PointFormatId() == fmt && p.PointRecordLength() == rec, "format and record length");
    ASSERT(sameBytes(r.GetPointData(), all_), "the records again");
    OBS("points", points);
    REACH("done");
}
extern "C" void C22_mismatch(void)
{
    int fmt = 6 + sym_choose("fmt", 3), eb = sym_choose("eb", 2), f2 = 6 + sym_choose("fmt2", 3), eb2 = sym_choose("eb2", 10);
    las::LazConfigWriter cfg(fmt, Vector3(1, 1, 1), Vector3(0, 0, 0), "", mkEb(eb));
    las::Points p(f2, (uint16_t)eb2);
    int n = sym_choose("n", 2);
    for (int i = 0; i < n; i++) p.AddPoint(p.CreatePoint());
    std::stringstream ss;
    LazWriter wr(ss, cfg);
    std::string before = ss.str();
    bool bad = n && (f2 != fmt || eb2 != eb);
    bool t = throws([&] { wr.WritePoints(p); });
    ASSERT(t == bad, "points of another format or record length are rejected, no points are ignored");
    if (t || !n) ASSERT(sameBytes(before, ss.str()) && wr.PointCount() == 0 && wr.ChunkCount() == 0, "nothing is written");
    else ASSERT(wr.PointCount() == 1 && wr.ChunkCount() == 1, "counted");
    wr.Close();
    LazReader r(&ss);
    ASSERT(r.GetPoints().Size() == (size_t)(n && !bad ? 1 : 0), "the file holds what was accepted");
    REACH(t ? "rejected" : "done");
}
// on disk
extern "C" void C22_disk(void)
{
    int fmt = 6 + sym_choose("fmt", 3), eb = sym_choose("eb", 2), rec = baseSize(fmt) + eb, n = sym_choose("n", 3);
    las::LazConfigWriter cfg(fmt, Vector3(1, 1, 1), Vector3(0, 0, 0), "w", mkEb(eb));
    Bytes raw = mkRaw(rec, n);
    {
        copc::laz::LazFileWriter wr("c22.laz", cfg);
        ASSERT(wr.FilePath() == "c22.laz", "path");
        if (n) wr.WritePoints(las::Points::Unpack(raw, *cfg.LasHeader()));
        if (sym_choose("close", 2)) wr.Close();
    }
    copc::laz::LazFileReader r("c22.laz");
    ASSERT(r.FilePath() == "c22.laz" && r.LazConfig().Wkt() == "w", "path and WKT");
    ASSERT(sameBytes(r.GetPointData(), raw) && samePoints(r.GetPoints(), raw, r.LazConfig().LasHeader()), "the points in order");
    r.Close();
    r.Close();
    ASSERT(throws([&] { copc::laz::LazFileReader x("missing.laz"); }), "a missing file is reported");
    REACH("done");
}
// more points in a chunk, and more chunks, than 16 bits count
extern "C" void C22_many(void)
{
    int n = (int)sym_param("N", 65537), chunks = (int)sym_param("chunks", 1), per = n / chunks;
    las::LazConfigWriter cfg(6, Vector3(1, 1, 1), Vector3(0, 0, 0));
    las::LasHeader hd = *cfg.LasHeader();
    std::stringstream ss;
    Bytes raw = manyRaw(30, n);
    {
        LazWriter wr(ss, cfg);
        if (chunks == 1) wr.WritePoints(las::Points::Unpack(raw, hd));
        else
            for (int i = 0; i < chunks; i++)
            {
                Bytes part(raw.begin() + 30 * per * i, raw.begin() + 30 * per * (i + 1));
                wr.WritePointsCompressed(laz::Compressor::CompressBytes(part, hd), per);
            }
        ASSERT(wr.PointCount() == (uint64_t)n && wr.ChunkCount() == (uint64_t)chunks, "the counts");
        wr.Close();
    }
    LazReader r(&ss);
    ASSERT(r.LazConfig().LasHeader().PointCount() == (uint64_t)n, "the header's count");
    ASSERT(sameBytes(r.GetPointData(), raw), "the records in order");
    REACH("done");
}
