// C23: parsing arbitrary bytes never corrupts memory or hangs (memory errors, uninitialised decisions, escaping
// exceptions and runaway paths are reported by the engine itself)
#include "mut.h"
static uint64_t pick(const char *n, const std::vector<uint64_t> &v) { return v[sym_choose(n, (int)v.size())]; }
// use everything a reader offers
static int useCopc(const std::string &s, int what)
{
    std::stringstream ss(s);
    int got = -1;
    throws([&] {
        Reader r(&ss);
        got = 0;
        if (what == 0)
        {
            for (auto &n : r.GetAllNodes()) got += r.GetPointDataCompressed(n).size() > 0;
        }
        else if (what == 1) got = (int)r.GetAllPoints().Size();
        else if (what == 2) got = r.FindNode(VoxelKey(2, 3, 1, 2)).IsValid() + (int)r.GetPoints(VoxelKey(1, 1, 0, 1)).Size();
        else got = (int)r.GetPageList().size();
    });
    return got;
}
static int useLaz(const std::string &s)
{
    std::stringstream ss(s);
    int got = -1;
    throws([&] {
        LazReader r(&ss);
        got = 0;
        got += (int)r.GetPoints().Size();
    });
    return got;
}
// truncation at every position
extern "C" void C23_truncate(void)
{
    int fmt = 6 + (int)sym_param("F", 0);
    bool copc = sym_param("copc", 1);
    std::string s = copc ? copcFile(fmt, 1, 2, true) : lazFile(fmt, 1, 2);
    int t = sym_choose("at", 2200);
    if (t >= (int)s.size()) return;
    s.resize(t);
    if (copc)
    {
        int n = useCopc(s, sym_choose("what", (int)sym_param("W", 2)));
        OBS("n", n);
    }
    else
        OBS("n", useLaz(s));
    REACH("done");
}
// counts and lengths in the header and the (E)VLR headers
extern "C" void C23_vlrs(void)
{
    bool copc = sym_choose("copc", 2);
    std::string s = copc ? copcFile(7, 1, 2, true) : lazFile(7, 1, 2);
    Layout L;
    L.parse(s);
    uint64_t size = s.size();
    int what = sym_choose("what", 6);
    if (what == 0) put(s, 100, 4, pick("vc", {0, 1, 2, L.vlrCount + 1, 0xffffffffu}));
    else if (what == 1) put(s, 243, 4, pick("ec", {0, 1, L.evlrCount + 1, 0xffffffffu}));
    else if (what == 2) put(s, 235, 8, pick("eo", {0, 1, 375, L.evlrOff - 60, L.evlrOff + 1, size - 1, size, size + 100, 1ull << 40, ~0ull, 1ull << 63}));
    if (what != 0) put(s, 243, 4, pick("ec2", {L.evlrCount, 0xffffffffu}));
    if (what == 3) put(s, L.vlrs[sym_choose("v", (int)L.vlrs.size())].at + 20, 2, pick("vl", {0, 1, 100, 191, 193, 0xffff}));
    if (what == 4) put(s, L.evlrs[sym_choose("e", (int)L.evlrs.size())].at + 20, 8, pick("el", {0, 1, 33, size, 1ull << 31, (1ull << 32) + 2, 1ull << 63, (uint64_t)-60, (uint64_t)-120, (uint64_t)-1}));
    if (what == 5)
    { // a record with more data than it needs, everything after it moved
        const Vl &v = L.vlrs[sym_choose("gv", (int)L.vlrs.size())];
        uint64_t g = pick("grow", {1, 16, 64, 192});
        Bytes more(g);
        sym_bytes(more.data(), g < 16 ? g : 16, "more");
        s.insert(v.body + v.len, std::string(more.begin(), more.end()));
        put(s, v.at + 20, 2, v.len + g);
        put(s, 96, 4, L.pointOff + g);
        put(s, 235, 8, L.evlrOff + g);
        put(s, L.pointOff + g, 8, L.tableOff + g);
        if (copc)
        {
            put(s, L.vlrs[0].body + 40, 8, L.u(L.vlrs[0].body + 40, 8) + g);
            for (auto &e : L.evlrs)
                for (uint64_t o = e.body; e.user == "copc" && e.id == 1000 && o < e.body + e.len; o += 32) put(s, o + g + 16, 8, L.u(o + 16, 8) + g);
        }
    }
    int n = copc ? useCopc(s, sym_choose("use", 2)) : useLaz(s);
    OBS("n", n);
    REACH("done");
}
// record length, format and number of points
extern "C" void C23_record(void)
{
    bool copc = sym_choose("copc", 2);
    int eb = (int)pick("eb", {0, 1, 226, 300});
    std::string s = copc ? copcFile(7, eb < 10 ? eb : 0, 0, false) : lazFile(7, eb < 10 ? eb : 0, 0);
    if (eb >= 10)
    { // longer records than single-digit dimensions give
        las::EbVlr v(0);
        las::EbVlr::ebfield f;
        f.data_type = 0; f.options = 150;
        v.addItem(f);
        f.options = (uint8_t)(eb - 150);
        v.addItem(f);
        std::stringstream ss;
        if (copc)
        {
            CopcConfigWriter cfg(7, Vector3(1, 1, 1), Vector3(0, 0, 0), "", v);
            Writer w(ss, cfg);
            w.AddNode(VoxelKey(1, 1, 0, 1), Bytes(2 * (36 + eb), 5));
        }
        else
        {
            las::LazConfigWriter cfg(7, Vector3(1, 1, 1), Vector3(0, 0, 0), "", v);
            LazWriter w(ss, cfg);
            w.WritePoints(las::Points::Unpack(Bytes(2 * (36 + eb), 5), *cfg.LasHeader()));
        }
        s = ss.str();
    }
    int what = sym_choose("what", 4);
    if (what == 0) put(s, 105, 2, pick("len", {0, 1, 29, 30, 35, 36, 37, 38, 255, 256, 400, 9000}));
    else if (what == 1) put(s, 104, 1, pick("fmt", {0, 3, 6, 7, 8, 9, 0x80, 0x86, 0x87, 0x88, 0xff}));
    else if (what == 2) put(s, 247, 8, pick("count", {0, 1, 5, 100}));
    int n = copc ? useCopc(s, 1 + sym_choose("use", 2)) : useLaz(s);
    if (what == 3) ASSERT(n > 0, "the file as written is readable");
    OBS("n", n);
    REACH("done");
}
// a root hierarchy page of arbitrary bytes
extern "C" void C23_page(void)
{
    std::string s = copcFile(6, 0, 0, false);
    Layout L;
    L.parse(s);
    uint64_t io = L.vlrs[0].body, po = L.u(io + 40, 8), size = s.size();
    int n = (int)sym_param("N", 2), rk = sym_choose("rootsize", 3);
    put(s, io + 48, 8, rk == 0 ? 32 * n : rk == 1 ? 32 * n - 1 : 32 * n + 32);
    // the page keeps its place; entries that were there are replaced
    for (int i = 0; i < n && i < 3; i++)
    {
        uint64_t o = po + 32 * i;
        sym_bytes(&s[o], 32, "page");
        uint64_t eo = rdLE(s.data(), (int)o + 16, 8);
        int32_t ec = (int32_t)rdLE(s.data(), (int)o + 28, 4), es = (int32_t)rdLE(s.data(), (int)o + 24, 4);
        if (ec == -1)
        { // a page somewhere: anywhere past the end, or one of these places
            int w = sym_choose("where", 7);
            if (w == 6) ASSUME(eo >= size);
            else ASSUME(eo == (w == 0 ? po : w == 1 ? po + 32 : w == 2 ? L.pointOff : w == 3 ? 0 : w == 4 ? size - 32 : size - 31));
            if (w != 6) { ASSUME(es < 128 || es > 4096); }
        }
    }
    std::stringstream ss(s);
    Reader r(&ss);
    bool bad = false;
    for (int i = 0; i < n && i < 3; i++)
    {
        uint64_t o = po + 32 * i;
        VoxelKey k((int)rdLE(s.data(), (int)o, 4), (int)rdLE(s.data(), (int)o + 4, 4), (int)rdLE(s.data(), (int)o + 8, 4), (int)rdLE(s.data(), (int)o + 12, 4));
        if (!k.IsValid() || (int32_t)rdLE(s.data(), (int)o + 24, 4) < 0) bad = true;
    }
    size_t got = 0;
    int what = sym_choose("what", 3);
    bool t = throws([&] {
        if (what == 0) got = r.GetAllNodes().size();
        else if (what == 1) got = r.FindNode(VoxelKey(1, 1, 0, 1)).IsValid();
        else got = r.GetPageList().size();
    });
    if (bad && rk == 0 && n > 0) ASSERT(t, "a page with an invalid entry is rejected");
    OBS("t", t);
    OBS("got", got);
    REACH(t ? "rejected" : "done");
}
// a node entry that points anywhere
extern "C" void C23_node(void)
{
    int eb = sym_choose("eb", 2) * 230;
    std::string s = copcFile(7, 0, 0, false, false);
    if (eb) put(s, 105, 2, 36 + eb);
    uint64_t size = s.size();
    std::stringstream ss(s);
    Reader r(&ss);
    Layout L;
    L.parse(s);
    Node n = r.FindNode(VoxelKey(1, 1, 0, 1));
    ASSERT(n.IsValid(), "the node is found");
    int w = sym_choose("where", 7);
    uint64_t past = symU64("past");
    ASSUME(past >= size);
    n.offset = w == 0 ? n.offset : w == 1 ? 0 : w == 2 ? size - 1 : w == 3 ? size - 40 : w == 4 ? n.offset + 1 : w == 5 ? L.tableOff : past;
    int bs = sym_choose("bs", 5);
    n.byte_size = bs == 0 ? n.byte_size : bs == 1 ? (int32_t)size : bs == 2 ? 0 : bs == 3 ? -symU8("neg") : 1;
    n.point_count = (int32_t)pick("count", {0, 1, 2, 40, (uint64_t)-1, (uint64_t)-5, 0x80000000u});
    size_t got = 0;
    int what = sym_choose("what", 3);
    int32_t want = n.point_count < 0 ? 0 : n.point_count;
    bool t = throws([&] {
        if (what == 0) got = r.GetPointData(n).size();
        else if (what == 1) got = r.GetPoints(n).Size() * (36 + eb);
        else got = r.GetPointDataCompressed(n).size();
    });
    if (n.byte_size < 0) ASSERT(t, "an invalid node is rejected");
    if (!t && what < 2) ASSERT(got == (size_t)want * (36 + eb), "as many records as the node says");
    if (!t && what == 2) ASSERT(got == (size_t)n.byte_size, "as many bytes as the node says");
    OBS("got", got);
    REACH(t ? "rejected" : "done");
}
// record decoding
extern "C" void C23_unpack(void)
{
    int8_t fmt = (int8_t)symU8("fmt");
    int size = sym_choose("size", (int)sym_param("B", 90));
    uint16_t eb = (uint16_t)pick("eb", {0, 1, 9, 30, 300});
    Bytes b = mkRaw(1, size);
    size_t n = 0;
    bool t = throws([&] { n = las::Points::Unpack(b, fmt, eb, Vector3(1, 1, 1), Vector3(0, 0, 0)).Size(); });
    bool bad = fmt < 6 || fmt > 8;
    if (!bad) { int rec = baseSize(fmt) + eb; bad = size % rec != 0; if (!bad) ASSERT(!t && n == (size_t)(size / rec), "every record"); }
    ASSERT(t == bad, "only whole records of a known format");
    OBS("n", n);
    REACH(t ? "rejected" : "done");
}
extern "C" void C23_point(void)
{
    int fmt = 6 + sym_choose("fmt", 3), eb = sym_choose("eb", 3), size = sym_choose("size", 42);
    Bytes b = mkRaw(1, size);
    std::stringstream ss(std::string(b.begin(), b.end()));
    At a;
    bool t = throws([&] { a = snap(*las::Point::Unpack(ss, (int8_t)fmt, Vector3(1, 1, 1), Vector3(0, 0, 0), (uint16_t)eb)); });
    if (!t && size > 14)
    {
        OBS("inten", a.inten);
        OBS("cls", a.cls);
    }
    if (!t && a.eb.size()) OBS("eb", a.eb.back());
    REACH("done");
}
extern "C" void C23_extents(void)
{
    int size = sym_choose("size", (int)sym_param("B", 66));
    Bytes b = mkRaw(1, size);
    std::stringstream ss(std::string(b.begin(), b.end()));
    int32_t bytes = symI32("bytes");
    size_t n = 0;
    double last = 0;
    bool t = throws([&] {
        las::CopcExtentsVlr v = las::CopcExtentsVlr::create(ss, bytes);
        n = v.items.size();
        if (n) last = v.items[n - 1].maximum;
    });
    if (!t && bytes >= 0)
    {
        ASSERT(n == (size_t)bytes / 16, "as many extents as the length says");
        if (n) ASSERT(bitsOf(last) == rdLE(b.data(), (int)(16 * n - 8), 8), "the last one comes from the data");
    }
    REACH(t ? "rejected" : "done");
}
// compressed chunks: truncated, too few records, of another layout
extern "C" void C23_chunk(void)
{
    int fmt = 6 + sym_choose("fmt", 3), eb = (int)pick("eb", {0, 5, 230, 300}), size = sym_choose("size", (int)sym_param("B", 60)), ask = sym_choose("ask", 3);
    Bytes b(size, 0x11);
    static const unsigned char H[8] = {7, 0xC7, 5, 0, 2, 0, 0, 0};
    for (int i = 0; i < 8 && i < size; i++) b[i] = H[i];
    if (sym_choose("sym", 2) && size) sym_bytes(b.data(), size < 4 ? size : 4, "hdr");
    Bytes got;
    bool t = throws([&] { got = copc::laz::Decompressor::DecompressBytes(b, (int8_t)fmt, (uint16_t)eb, ask); });
    if (!t) ASSERT(got.size() == (size_t)ask * (baseSize(fmt) + eb), "as many records as asked for");
    REACH(t ? "rejected" : "done");
}
