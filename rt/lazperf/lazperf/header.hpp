// Stand-in for lazperf 3.0.0 <lazperf/header.hpp> (absent from this sandbox).  Field names, types and the
// serialised layout follow the LAS 1.4 specification and lazperf 3.0.0.
#pragma once
#include <cstdint>
#include <cstring>
#include <fstream>
#include <istream>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
namespace lazperf
{
struct error : public std::runtime_error
{
    error(const std::string &what) : std::runtime_error(what) {}
};
struct vector3
{
    double x{}, y{}, z{};
};
namespace vp
{
struct Wr
{
    unsigned char *b;
    int p = 0;
    template <class T> void v(const T &t) { std::memcpy(b + p, &t, sizeof(T)); p += sizeof(T); }
    void raw(const void *s, int n) { std::memcpy(b + p, s, n); p += n; }
};
struct Rd
{
    const unsigned char *b;
    int p = 0;
    template <class T> void v(T &t) { std::memcpy(&t, b + p, sizeof(T)); p += sizeof(T); }
    void raw(void *s, int n) { std::memcpy(s, b + p, n); p += n; }
};
} // namespace vp
struct base_header
{
    char magic[4]{'L', 'A', 'S', 'F'};
    uint16_t file_source_id{};
    uint16_t global_encoding{};
    char guid[16]{};
    struct
    {
        uint8_t major{1};
        uint8_t minor{};
    } version;
    char system_identifier[32]{};
    char generating_software[32]{};
    struct
    {
        uint16_t day{};
        uint16_t year{};
    } creation;
    uint16_t header_size{};
    uint32_t point_offset{};
    uint32_t vlr_count{};
    uint8_t point_format_id{};
    uint16_t point_record_length{};
    uint32_t point_count{};
    uint32_t points_by_return[5]{};
    vector3 scale;
    vector3 offset;
    double maxx{}, minx{}, maxy{}, miny{}, maxz{}, minz{};
    int pointFormat() const { return point_format_id & 0x3f; }
};
struct header14 : public base_header
{
    static const int Size = 375;
    uint64_t wave_offset{};
    uint64_t evlr_offset{};
    uint32_t evlr_count{};
    uint64_t point_count_14{};
    uint64_t points_by_return_14[15]{};
    header14()
    {
        version.minor = 4;
        header_size = Size;
    }
    int baseCount() const
    {
        switch (pointFormat())
        {
        case 0: return 20;
        case 1: return 28;
        case 2: return 26;
        case 3: return 34;
        case 6: return 30;
        case 7: return 36;
        case 8: return 38;
        default: return 0;
        }
    }
    int ebCount() const { return baseCount() ? point_record_length - baseCount() : 0; }
    void write(std::ostream &out) const
    {
        unsigned char buf[Size];
        vp::Wr w{buf};
        w.raw(magic, 4);
        w.v(file_source_id);
        w.v(global_encoding);
        w.raw(guid, 16);
        w.v(version.major);
        w.v(version.minor);
        w.raw(system_identifier, 32);
        w.raw(generating_software, 32);
        w.v(creation.day);
        w.v(creation.year);
        w.v(header_size);
        w.v(point_offset);
        w.v(vlr_count);
        w.v(point_format_id);
        w.v(point_record_length);
        w.v(point_count);
        for (int i = 0; i < 5; i++) w.v(points_by_return[i]);
        w.v(scale.x); w.v(scale.y); w.v(scale.z);
        w.v(offset.x); w.v(offset.y); w.v(offset.z);
        w.v(maxx); w.v(minx); w.v(maxy); w.v(miny); w.v(maxz); w.v(minz);
        w.v(wave_offset);
        w.v(evlr_offset);
        w.v(evlr_count);
        w.v(point_count_14);
        for (int i = 0; i < 15; i++) w.v(points_by_return_14[i]);
        out.write(reinterpret_cast<const char *>(buf), Size);
    }
    void read(std::istream &in)
    {
        unsigned char buf[Size] = {0};
        in.read(reinterpret_cast<char *>(buf), Size);
        vp::Rd r{buf};
        r.raw(magic, 4);
        r.v(file_source_id);
        r.v(global_encoding);
        r.raw(guid, 16);
        r.v(version.major);
        r.v(version.minor);
        r.raw(system_identifier, 32);
        r.raw(generating_software, 32);
        r.v(creation.day);
        r.v(creation.year);
        r.v(header_size);
        r.v(point_offset);
        r.v(vlr_count);
        r.v(point_format_id);
        r.v(point_record_length);
        r.v(point_count);
        for (int i = 0; i < 5; i++) r.v(points_by_return[i]);
        r.v(scale.x); r.v(scale.y); r.v(scale.z);
        r.v(offset.x); r.v(offset.y); r.v(offset.z);
        r.v(maxx); r.v(minx); r.v(maxy); r.v(miny); r.v(maxz); r.v(minz);
        r.v(wave_offset);
        r.v(evlr_offset);
        r.v(evlr_count);
        r.v(point_count_14);
        for (int i = 0; i < 15; i++) r.v(points_by_return_14[i]);
    }
};
} // namespace lazperf
