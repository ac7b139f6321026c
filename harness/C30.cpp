// C30: WKT, extra-byte descriptors and VLR headers survive the file
#include "mut.h"
#include "hdr.h"
static std::string bytes(int n, const char *nm)
{
    std::string s(n, 'w');
    if (n) sym_bytes(&s[0], n, nm);
    return s;
}
static las::EbVlr::ebfield field(int nameLen, int descLen, int types = 31)
{
    las::EbVlr::ebfield f;
    f.data_type = (uint8_t)sym_choose("type", types);
    if (f.data_type == 0) f.options = (uint8_t)(1 + sym_choose("raw", 2));
    else f.options = symU8("options");
    sym_bytes(f.reserved, 2, "reserved");
    sym_bytes(f.unused, 4, "unused");
    sym_bytes(f.no_data, 24, "nodata");
    sym_bytes(f.minval, 24, "min");
    sym_bytes(f.maxval, 24, "max");
    sym_bytes(f.scale, 24, "scale");
    sym_bytes(f.offset, 24, "offset");
    f.name = text(nameLen, "name");
    f.description = text(descLen, "desc");
    return f;
}
static bool same(const las::EbVlr::ebfield &a, const las::EbVlr::ebfield &b)
{
    if (a.name.size() != b.name.size() || a.description.size() != b.description.size()) return false;
    return all(sym_memeq(a.reserved, b.reserved, 2), a.data_type == b.data_type, a.options == b.options, sym_memeq(a.name.data(), b.name.data(), a.name.size()), sym_memeq(a.unused, b.unused, 4),
               sym_memeq(a.no_data, b.no_data, 24), sym_memeq(a.minval, b.minval, 24), sym_memeq(a.maxval, b.maxval, 24), sym_memeq(a.scale, b.scale, 24), sym_memeq(a.offset, b.offset, 24),
               sym_memeq(a.description.data(), b.description.data(), a.description.size()));
}
static void compare(const las::LazConfig &c, const std::string &w, const las::EbVlr &v)
{
    ASSERT(sameBytes(c.Wkt(), w), "the WKT is unchanged");
    las::EbVlr got = c.ExtraBytesVlr();
    ASSERT(got.items.size() == v.items.size(), "every descriptor");
    for (size_t i = 0; i < v.items.size() && i < got.items.size(); i++) ASSERT(same(got.items[i], v.items[i]), "descriptors are unchanged and in order");
    OBS("wkt", c.Wkt().size());
    OBS("n", got.items.size());
}
// given to a writer
extern "C" void C30_file(void)
{
    static const int WL[5] = {0, 17, 300, 1, 2};
    bool copc = sym_choose("copc", 2);
    int fmt = 6 + sym_choose("fmt", (int)sym_param("F", 1));
    std::string w = bytes(WL[sym_choose("wkt", (int)sym_param("W", 3))], "wkt");
    las::EbVlr v(0);
    int n = sym_choose("n", (int)sym_param("N", 2));
    static const int NL[3][2] = {{3, 0}, {32, 32}, {0, 31}};
    for (int i = 0; i < n; i++)
    {
        int l = i == 0 ? sym_choose("names", 3) : 0;
        las::EbVlr::ebfield f = field(NL[l][0], NL[l][1], l ? 5 : 31);
        v.addItem(f);
    }
    std::stringstream ss;
    int pts = sym_choose("pts", 2);
    if (copc)
    {
        CopcConfigWriter cfg(fmt, Vector3(1, 1, 1), Vector3(0, 0, 0), w, v, sym_choose("ext", 2));
        Writer wr(ss, cfg);
        if (pts) wr.AddNode(VoxelKey(0, 0, 0, 0), Bytes(cfg.LasHeader()->PointRecordLength(), 3));
        wr.Close();
        Reader r(&ss);
        compare(r.CopcConfig(), w, v);
        if (pts) ASSERT(r.GetPointData(VoxelKey(0, 0, 0, 0)).size() == cfg.LasHeader()->PointRecordLength(), "and the points are there");
    }
    else
    {
        las::LazConfigWriter cfg(fmt, Vector3(1, 1, 1), Vector3(0, 0, 0), w, v);
        LazWriter wr(ss, cfg);
        if (pts)
        {
            las::Points p(*cfg.LasHeader());
            p.AddPoint(p.CreatePoint());
            wr.WritePoints(p);
        }
        wr.Close();
        LazReader r(&ss);
        compare(r.LazConfig(), w, v);
        if (pts) ASSERT((int)r.GetPointData().size() == cfg.LasHeader()->PointRecordLength(), "and the points are there");
    }
    REACH("done");
}
// as many descriptors as the record can hold, as many bytes as a point can hold
extern "C" void C30_many(void)
{
    static int C[6][2] = {{40, 0}, {341, 0}, {342, 0}, {700, 0}, {257, 255}, {257, 254}};
    bool copc = sym_choose("copc", 2);
    int c = sym_choose("n", 6), n = C[c][0];
    if (copc && c > 0) n = C[c][0] = 5; // (copying many extents takes the executor long)
    las::EbVlr v(0);
    las::EbVlr::ebfield f;
    int bytes = 0;
    for (int i = 0; i < n; i++)
    {
        f.data_type = C[c][1] ? 0 : 1 + i % 2;
        f.options = (uint8_t)(C[c][1] ? C[c][1] : i);
        bytes += C[c][1] ? C[c][1] : 1;
        v.addItem(f);
    }
    std::stringstream ss;
    las::LazConfig got;
    int rec = 0;
    bool t = throws([&] {
        if (copc)
        {
            CopcConfigWriter cfg(6, Vector3(1, 1, 1), Vector3(0, 0, 0), "w", v);
            Writer wr(ss, cfg);
            wr.Close();
        }
        else
        {
            las::LazConfigWriter cfg(6, Vector3(1, 1, 1), Vector3(0, 0, 0), "w", v);
            LazWriter wr(ss, cfg);
            wr.Close();
        }
    });
    bool fits = n <= 341 && bytes + 30 <= 65535;
    ASSERT(t == !fits, "rejected exactly when the records cannot hold them");
    if (t)
    {
        REACH("rejected");
        return;
    }
    if (copc) { Reader r(&ss); got = r.CopcConfig(); }
    else { LazReader r(&ss); got = r.LazConfig(); }
    ASSERT((int)got.LasHeader().PointRecordLength() == 30 + bytes, "record length");
    las::EbVlr e = got.ExtraBytesVlr();
    ASSERT((int)e.items.size() == n, "every descriptor");
    for (int i = 0; i < n && i < (int)e.items.size(); i++) ASSERT(e.items[i].options == v.items[i].options, "in order");
    ASSERT(got.Wkt() == "w", "the WKT is unchanged");
    REACH("done");
}
// texts longer than a VLR can hold
extern "C" void C30_long(void)
{
    static const int WL[4] = {65535, 65536, 65541, 70000};
    bool copc = sym_choose("copc", 2);
    int n = WL[sym_choose("wkt", 4)];
    std::string w(n, 'x');
    static const int at[4] = {0, 3, 65534, -1};
    for (int i = 0; i < 4; i++) w[at[i] < 0 ? n - 1 : at[i]] = (char)symU8("byte");
    las::EbVlr v(0);
    v.addItem(field(3, 0, 3));
    std::stringstream ss;
    if (copc)
    {
        CopcConfigWriter cfg(6, Vector3(1, 1, 1), Vector3(0, 0, 0), w, v, sym_choose("ext", 2));
        Writer wr(ss, cfg);
        wr.Close();
        Reader r(&ss);
        compare(r.CopcConfig(), w, v);
    }
    else
    {
        las::LazConfigWriter cfg(6, Vector3(1, 1, 1), Vector3(0, 0, 0), w, v);
        LazWriter wr(ss, cfg);
        wr.Close();
        LazReader r(&ss);
        compare(r.LazConfig(), w, v);
    }
    REACH("done");
}
// records of files written by others
static std::string record(bool ext, uint16_t res, const std::string &user, uint16_t id, const std::string &desc, const std::string &body)
{
    std::stringstream o;
    if (ext)
    {
        lazperf::evlr_header h(res, user, id, body.size(), desc);
        h.write(o);
    }
    else
    {
        lazperf::vlr_header h{res, user, id, (uint16_t)body.size(), desc};
        h.write(o);
    }
    return o.str() + body;
}
// put records into a LAZ file: VLRs before those that are there or after them, EVLRs before or after
static void addRecord(std::string &s, bool ext, bool front, const std::string &r)
{
    uint64_t po = rdLE(s.data(), 96, 4), eo = rdLE(s.data(), 235, 8);
    uint32_t vc = (uint32_t)rdLE(s.data(), 100, 4), ec = (uint32_t)rdLE(s.data(), 243, 4);
    if (ext)
    {
        s.insert(front ? eo : s.size(), r);
        put(s, 243, 4, ec + 1);
        return;
    }
    uint64_t ct = rdLE(s.data(), (int)po, 8);
    s.insert(front ? 375 : po, r);
    put(s, 96, 4, po + r.size());
    put(s, 100, 4, vc + 1);
    put(s, 235, 8, eo + r.size());
    put(s, (int)(po + r.size()), 8, ct + r.size());
}
static std::string ebBody(const las::EbVlr &v)
{
    std::stringstream o;
    v.write(o);
    return o.str();
}
extern "C" void C30_placed(void)
{
    static const int WL[2] = {1, 40};
    std::string s = lazFile(6, 0, 0);
    std::string w = bytes(WL[sym_choose("wl", 2)], "wkt");
    las::EbVlr v(0);
    v.addItem(field(4, 5, 2));
    bool hasW = sym_choose("hasw", 2), hasE = sym_choose("hase", 2);
    bool wExt = hasW && sym_choose("wext", 2), eExt = hasE && sym_choose("eext", 2);
    put(s, 105, 2, 30 + las::NumBytesFromExtraBytes(v.items) * hasE);
    put(s, 247, 8, 0);
    // records that only look like the ones we want
    int decoy = sym_choose("decoy", 5);
    std::string junk = bytes(7, "junk");
    bool dExt = decoy && sym_choose("dext", 2);
    if (decoy) addRecord(s, dExt, sym_choose("dfront", 2), record(dExt, 0, decoy == 1 ? "LASF_Projection" : decoy == 2 ? "LASF_Spec" : decoy == 3 ? "LASF_Projection2" : "", decoy == 1 ? 2111 : decoy == 2 ? 5 : decoy == 3 ? 2112 : 4, "d", junk));
    bool order = sym_choose("order", 2);
    for (int i = 0; i < 2; i++)
    {
        if ((i == 0) == order) { if (hasW) addRecord(s, wExt, sym_choose("wfront", 2), record(wExt, symU16("wres"), "LASF_Projection", 2112, "wkt", w)); }
        else if (hasE) addRecord(s, eExt, sym_choose("efront", 2), record(eExt, 0, "LASF_Spec", 4, "", ebBody(v)));
    }
    std::stringstream ss(s);
    LazReader r(&ss);
    compare(r.LazConfig(), hasW ? w : std::string(), hasE ? v : las::EbVlr(0));
    REACH("done");
}
struct Open : LazReader
{
    Open(std::istream *s) : LazReader(s) {}
    std::map<uint64_t, las::VlrHeader> &headers() { return vlrs_; }
};
static bool sameHdr(const las::VlrHeader &h, bool ext, uint16_t res, const std::string &user, uint16_t id, const std::string &desc, uint64_t len)
{
    if (h.user_id.size() != user.size() || h.description.size() != desc.size()) return false;
    return all(h.evlr_flag == ext, h.reserved == res, sym_memeq(h.user_id.data(), user.data(), user.size()), h.record_id == id, sym_memeq(h.description.data(), desc.data(), desc.size()), h.data_length == len);
}
extern "C" void C30_headers(void)
{
    static const int UL[3] = {0, 9, 16}, DL[3] = {0, 11, 32}, BL[4] = {0, 1, 60, 700};
    std::string s = lazFile(6, 0, 3);
    int n = 1 + sym_choose("n", (int)sym_param("N", 2));
    struct R { bool ext; uint16_t res, id; std::string user, desc; int len; };
    std::vector<R> want;
    for (int i = 0; i < n; i++)
    {
        R r;
        r.ext = sym_choose("ext", 2);
        r.res = symU16("res");
        r.id = symU16("id");
        int c = sym_choose("lens", i ? 2 : 3);
        r.user = text(UL[c], "user");
        r.desc = text(DL[c], "desc");
        r.len = BL[sym_choose("body", i ? 2 : 4)];
        if (r.user.size() == 9) ASSUME(r.user[8] == '-'); // not one of the known identifiers
        addRecord(s, r.ext, false, record(r.ext, r.res, r.user, r.id, r.desc, std::string(r.len, 'b')));
        want.push_back(r);
    }
    std::stringstream ss(s);
    Open r(&ss);
    // every record is listed under its position
    ASSERT(r.headers().size() == 2 + want.size(), "every record is listed");
    uint64_t o = 375;
    std::vector<las::VlrHeader> v, e;
    for (auto &[at, h] : r.headers()) (h.evlr_flag ? e : v).push_back(h);
    for (auto &[at, h] : r.headers())
    {
        if (h.evlr_flag) continue;
        ASSERT(at == o, "VLRs are at their positions");
        o += 54 + h.data_length;
    }
    o = rdLE(s.data(), 235, 8);
    for (auto &[at, h] : r.headers())
    {
        if (!h.evlr_flag) continue;
        ASSERT(at == o, "EVLRs are at their positions");
        o += 60 + h.data_length;
    }
    ASSERT(o == s.size(), "up to the end of the file");
    size_t vi = 1, ei = 1;
    ASSERT(sameHdr(v[0], false, 0, "laszip encoded", 22204, v[0].description, 40), "the LAZ record");
    ASSERT(sameHdr(e[0], true, 0, "LASF_Projection", 2112, "", 3), "the WKT record");
    for (auto &x : want)
    {
        auto &l = x.ext ? e : v;
        size_t &i = x.ext ? ei : vi;
        ASSERT(i < l.size(), "a record of its kind");
        if (i < l.size()) ASSERT(sameHdr(l[i], x.ext, x.res, x.user, x.id, x.desc, x.len), "user id, record id, description and length");
        i++;
    }
    OBS("n", r.headers().size());
    REACH("done");
}
extern "C" void C30_convert(void)
{
    static const int UL[3] = {0, 9, 16}, DL[3] = {0, 11, 32};
    int c = sym_choose("lens", 3);
    std::string user = text(UL[c], "user"), desc = text(DL[c], "desc");
    uint16_t res = symU16("res"), id = symU16("id");
    bool ext = sym_choose("ext", 2);
    uint64_t len = ext ? symU64("len") : symU16("len16");
    las::VlrHeader h;
    if (ext) h = las::VlrHeader(lazperf::evlr_header(res, user, id, len, desc));
    else h = las::VlrHeader(lazperf::vlr_header{res, user, id, (uint16_t)len, desc});
    ASSERT(sameHdr(h, ext, res, user, id, desc, len), "every field is taken and the two are told apart");
    las::VlrHeader k(h), a;
    a = h;
    ASSERT(all(sameHdr(k, ext, res, user, id, desc, len), sameHdr(a, ext, res, user, id, desc, len)), "copies are equal");
    auto e = h.ToLazperfEvlrHeader();
    ASSERT(sameHdr(las::VlrHeader(e), true, res, user, id, desc, len), "as an EVLR header");
    auto v = h.ToLazperfVlrHeader();
    if (len <= 65535) ASSERT(sameHdr(las::VlrHeader(v), false, res, user, id, desc, len), "as a VLR header");
    OBS("id", v.record_id);
    OBS("elen", e.data_length);
    REACH("done");
}
// equality of descriptors
extern "C" void C30_eq(void)
{
    las::EbVlr::ebfield a = field(2, 2), b = field(2, 2);
    bool e = a == b;
    a.unused[0] = b.unused[0]; a.unused[1] = b.unused[1]; a.unused[2] = b.unused[2]; a.unused[3] = b.unused[3];
    ASSERT(e == same(a, b), "equal exactly when every field is equal");
    las::EbVlr::ebfield k = a;
    ASSERT(k == a, "a copy is equal");
    REACH(e ? "eq" : "done");
}
