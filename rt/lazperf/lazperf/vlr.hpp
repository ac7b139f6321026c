// Stand-in for lazperf 3.0.0 <lazperf/vlr.hpp>.
#pragma once
#include "header.hpp"
#include <vector>
namespace lazperf
{
namespace vp
{
inline void putStr(unsigned char *b, const std::string &s, int n)
{
    std::memset(b, 0, n);
    std::memcpy(b, s.data(), s.size() < (size_t)n ? s.size() : (size_t)n);
}
inline std::string getStr(const unsigned char *b, int n)
{
    while (n > 0 && b[n - 1] == 0) n--; // trailing NULs are padding
    return std::string(reinterpret_cast<const char *>(b), n);
}
} // namespace vp
struct vlr_header
{
    uint16_t reserved;
    std::string user_id;
    uint16_t record_id;
    uint16_t data_length;
    std::string description;

    static vlr_header create(std::istream &in)
    {
        vlr_header h;
        h.read(in);
        return h;
    }
    void read(std::istream &in)
    {
        unsigned char buf[54] = {0};
        in.read(reinterpret_cast<char *>(buf), 54);
        vp::Rd r{buf};
        r.v(reserved);
        user_id = vp::getStr(buf + 2, 16);
        r.p = 18;
        r.v(record_id);
        r.v(data_length);
        description = vp::getStr(buf + 22, 32);
    }
    void write(std::ostream &out) const
    {
        unsigned char buf[54];
        vp::Wr w{buf};
        w.v(reserved);
        vp::putStr(buf + 2, user_id, 16);
        w.p = 18;
        w.v(record_id);
        w.v(data_length);
        vp::putStr(buf + 22, description, 32);
        out.write(reinterpret_cast<const char *>(buf), 54);
    }
};
struct evlr_header
{
    uint16_t reserved{};
    std::string user_id;
    uint16_t record_id{};
    uint64_t data_length{};
    std::string description;

    evlr_header() = default;
    evlr_header(uint16_t reserved, const std::string &user_id, uint16_t record_id, uint64_t data_length,
                const std::string &description)
        : reserved(reserved), user_id(user_id), record_id(record_id), data_length(data_length), description(description)
    {
    }
    static evlr_header create(std::istream &in)
    {
        evlr_header h;
        h.read(in);
        return h;
    }
    void read(std::istream &in)
    {
        unsigned char buf[60] = {0};
        in.read(reinterpret_cast<char *>(buf), 60);
        vp::Rd r{buf};
        r.v(reserved);
        user_id = vp::getStr(buf + 2, 16);
        r.p = 18;
        r.v(record_id);
        r.v(data_length);
        description = vp::getStr(buf + 28, 32);
    }
    void write(std::ostream &out) const
    {
        unsigned char buf[60];
        vp::Wr w{buf};
        w.v(reserved);
        vp::putStr(buf + 2, user_id, 16);
        w.p = 18;
        w.v(record_id);
        w.v(data_length);
        vp::putStr(buf + 28, description, 32);
        out.write(reinterpret_cast<const char *>(buf), 60);
    }
};
struct vlr
{
    virtual ~vlr() {}
    virtual uint64_t size() const = 0;
    virtual vlr_header header() const = 0;
    virtual evlr_header eheader() const = 0;
};
struct laz_vlr : public vlr
{
    struct laz_item
    {
        uint16_t type, size, version;
    };
    uint16_t compressor{3}, coder{0};
    uint8_t ver_major{3}, ver_minor{4};
    uint16_t revision{3};
    uint32_t options{0};
    uint32_t chunk_size{};
    uint64_t num_points{(uint64_t)-1}, num_bytes{(uint64_t)-1};
    std::vector<laz_item> items;
    bool valid_{false};
    laz_vlr() = default;
    laz_vlr(int format, int ebCount, uint32_t chunksize) : chunk_size(chunksize), valid_(true)
    {
        if (format >= 6 && format <= 8)
            items.push_back({10, 30, 3});
        if (format == 7)
            items.push_back({11, 6, 3});
        if (format == 8)
            items.push_back({12, 8, 3});
        if (ebCount > 0)
            items.push_back({14, (uint16_t)ebCount, 3});
    }
    static laz_vlr create(std::istream &in)
    {
        laz_vlr v;
        v.read(in);
        return v;
    }
    bool valid() const { return valid_; }
    void read(std::istream &in)
    {
        unsigned char b[34] = {0};
        in.read(reinterpret_cast<char *>(b), 34);
        vp::Rd r{b};
        uint16_t n;
        r.v(compressor); r.v(coder); r.v(ver_major); r.v(ver_minor); r.v(revision); r.v(options);
        r.v(chunk_size); r.v(num_points); r.v(num_bytes); r.v(n);
        items.clear();
        for (int i = 0; i < n && in.good(); i++)
        {
            unsigned char c[6] = {0};
            in.read(reinterpret_cast<char *>(c), 6);
            vp::Rd q{c};
            laz_item it;
            q.v(it.type); q.v(it.size); q.v(it.version);
            items.push_back(it);
        }
        valid_ = true;
    }
    void write(std::ostream &out) const
    {
        unsigned char b[34];
        vp::Wr w{b};
        uint16_t n = (uint16_t)items.size();
        w.v(compressor); w.v(coder); w.v(ver_major); w.v(ver_minor); w.v(revision); w.v(options);
        w.v(chunk_size); w.v(num_points); w.v(num_bytes); w.v(n);
        out.write(reinterpret_cast<const char *>(b), 34);
        for (const laz_item &it : items)
        {
            unsigned char c[6];
            vp::Wr q{c};
            q.v(it.type); q.v(it.size); q.v(it.version);
            out.write(reinterpret_cast<const char *>(c), 6);
        }
    }
    uint64_t size() const override { return 34 + items.size() * 6; }
    vlr_header header() const override
    {
        return vlr_header{0, "laszip encoded", 22204, (uint16_t)size(), "lazperf variant"};
    }
    evlr_header eheader() const override
    {
        return evlr_header{0, "laszip encoded", 22204, size(), "lazperf variant"};
    }
};
struct eb_vlr : public vlr
{
    struct ebfield
    {
        uint8_t reserved[2]{};
        uint8_t data_type{1};
        uint8_t options{};
        std::string name;
        uint8_t unused[4]{};
        double no_data[3]{};
        double minval[3]{};
        double maxval[3]{};
        double scale[3]{};
        double offset[3]{};
        std::string description;
    };
    std::vector<ebfield> items;
    eb_vlr() = default;
    eb_vlr(int ebCount)
    {
        for (int i = 0; i < ebCount; i++)
        {
            ebfield f;
            f.name = "FIELD_";
            f.name += (char)('0' + i % 10);
            items.push_back(f);
        }
    }
    void addItem(const ebfield &item) { items.push_back(item); }
    void addField()
    {
        ebfield f;
        f.name = "FIELD_";
        f.name += (char)('0' + items.size() % 10);
        items.push_back(f);
    }
    static eb_vlr create(std::istream &in, int byteSize)
    {
        eb_vlr v;
        v.read(in, byteSize);
        return v;
    }
    void read(std::istream &in, int byteSize)
    {
        items.clear();
        int n = byteSize / 192;
        for (int i = 0; i < n && in.good(); i++)
        {
            unsigned char b[192] = {0};
            in.read(reinterpret_cast<char *>(b), 192);
            ebfield f;
            vp::Rd r{b};
            r.raw(f.reserved, 2);
            r.v(f.data_type);
            r.v(f.options);
            f.name = vp::getStr(b + 4, 32);
            r.p = 36;
            r.raw(f.unused, 4);
            r.raw(f.no_data, 24);
            r.raw(f.minval, 24);
            r.raw(f.maxval, 24);
            r.raw(f.scale, 24);
            r.raw(f.offset, 24);
            f.description = vp::getStr(b + 160, 32);
            items.push_back(f);
        }
    }
    void write(std::ostream &out) const
    {
        for (const ebfield &f : items)
        {
            unsigned char b[192];
            vp::Wr w{b};
            w.raw(f.reserved, 2);
            w.v(f.data_type);
            w.v(f.options);
            vp::putStr(b + 4, f.name, 32);
            w.p = 36;
            w.raw(f.unused, 4);
            w.raw(f.no_data, 24);
            w.raw(f.minval, 24);
            w.raw(f.maxval, 24);
            w.raw(f.scale, 24);
            w.raw(f.offset, 24);
            vp::putStr(b + 160, f.description, 32);
            out.write(reinterpret_cast<const char *>(b), 192);
        }
    }
    uint64_t size() const override { return 192 * items.size(); }
    vlr_header header() const override { return vlr_header{0, "LASF_Spec", 4, (uint16_t)size(), ""}; }
    evlr_header eheader() const override { return evlr_header{0, "LASF_Spec", 4, size(), ""}; }
};
struct wkt_vlr : public vlr
{
    std::string wkt;
    wkt_vlr() = default;
    wkt_vlr(const std::string &s) : wkt(s) {}
    static wkt_vlr create(std::istream &in, int byteSize)
    {
        wkt_vlr v;
        v.read(in, byteSize);
        return v;
    }
    void read(std::istream &in, int byteSize)
    {
        std::vector<char> buf(byteSize);
        in.read(buf.data(), buf.size());
        wkt.assign(buf.data(), buf.size());
    }
    void write(std::ostream &out) const { out.write(wkt.data(), wkt.size()); }
    uint64_t size() const override { return wkt.size(); }
    vlr_header header() const override { return vlr_header{0, "LASF_Projection", 2112, (uint16_t)size(), ""}; }
    evlr_header eheader() const override { return evlr_header{0, "LASF_Projection", 2112, size(), ""}; }
};
struct copc_info_vlr : public vlr
{
    double center_x{}, center_y{}, center_z{}, halfsize{}, spacing{};
    uint64_t root_hier_offset{}, root_hier_size{};
    double gpstime_minimum{}, gpstime_maximum{};
    uint64_t reserved[11]{};
    static copc_info_vlr create(std::istream &in)
    {
        copc_info_vlr v;
        v.read(in);
        return v;
    }
    void read(std::istream &in)
    {
        unsigned char b[160] = {0};
        in.read(reinterpret_cast<char *>(b), 160);
        vp::Rd r{b};
        r.v(center_x); r.v(center_y); r.v(center_z); r.v(halfsize); r.v(spacing);
        r.v(root_hier_offset); r.v(root_hier_size); r.v(gpstime_minimum); r.v(gpstime_maximum);
        for (int i = 0; i < 11; i++) r.v(reserved[i]);
    }
    void write(std::ostream &out) const
    {
        unsigned char b[160];
        vp::Wr w{b};
        w.v(center_x); w.v(center_y); w.v(center_z); w.v(halfsize); w.v(spacing);
        w.v(root_hier_offset); w.v(root_hier_size); w.v(gpstime_minimum); w.v(gpstime_maximum);
        for (int i = 0; i < 11; i++) w.v(reserved[i]);
        out.write(reinterpret_cast<const char *>(b), 160);
    }
    uint64_t size() const override { return 160; }
    vlr_header header() const override { return vlr_header{0, "copc", 1, (uint16_t)size(), "COPC info VLR"}; }
    evlr_header eheader() const override { return evlr_header{0, "copc", 1, size(), "COPC info VLR"}; }
};
} // namespace lazperf
