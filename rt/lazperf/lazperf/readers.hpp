// Stand-in for lazperf 3.0.0 <lazperf/readers.hpp>: reader::generic_file.
#pragma once
#include "lazperf.hpp"
namespace lazperf
{
namespace reader
{
class generic_file
{
    std::istream &f_;
    header14 head_;
    laz_vlr laz_;
    bool compressed_ = false;
    std::vector<chunk> chunks_;
    InFileStream in_;
    las_decompressor::ptr dec_;
    size_t next_chunk_ = 0;
    uint64_t left_ = 0, pos_ = 0;

  public:
    generic_file(std::istream &in) : f_(in), in_(in)
    {
        f_.seekg(0);
        head_.read(f_);
        if (std::memcmp(head_.magic, "LASF", 4) != 0)
            throw error("Invalid LAS file. Incorrect magic number.");
        if (head_.version.major != 1 || head_.version.minor < 2 || head_.version.minor > 4)
            throw error("Invalid LAS file version.");
        compressed_ = (head_.point_format_id & 0x80) != 0;
        head_.point_format_id &= 0x3f;
        f_.seekg(head_.header_size);
        for (uint32_t i = 0; i < head_.vlr_count && f_.good(); i++)
        {
            vlr_header h = vlr_header::create(f_);
            std::streampos p = f_.tellg();
            if (h.user_id == "laszip encoded" && h.record_id == 22204)
                laz_.read(f_);
            f_.seekg((std::streamoff)p + h.data_length);
        }
        if (compressed_)
        {
            if (!laz_.valid())
                throw error("Couldn't find LASZIP VLR");
            uint64_t off = 0;
            f_.seekg(head_.point_offset);
            f_.read(reinterpret_cast<char *>(&off), 8);
            if (!f_.good())
                throw error("Couldn't read chunk table.");
            f_.seekg(off);
            uint32_t ver = 0, n = 0;
            f_.read(reinterpret_cast<char *>(&ver), 4);
            f_.read(reinterpret_cast<char *>(&n), 4);
            if (!f_.good() || ver != 0)
                throw error("Invalid chunk table version.");
            chunks_ = decompress_chunk_table(in_.cb(), n, laz_.chunk_size == (uint32_t)-1);
            f_.clear();
        }
        in_.reset();
        f_.seekg(head_.point_offset + (compressed_ ? 8 : 0));
        pos_ = head_.point_offset + 8;
    }
    uint64_t pointCount() const { return head_.point_count_14; }
    const header14 &header() const { return head_; }
    laz_vlr lazVlr() const { return laz_; }
    const std::vector<chunk> &chunks() const { return chunks_; }
    void readPoint(char *out)
    {
        if (!compressed_)
        {
            in_.getBytes(reinterpret_cast<unsigned char *>(out), head_.point_record_length);
            return;
        }
        while (!dec_ || left_ == 0)
        {
            if (next_chunk_ >= chunks_.size())
                throw error("Read past the last chunk.");
            if (dec_) // the first chunk is read from where the stream is
            {
                f_.clear();
                f_.seekg(pos_);
                in_.reset();
            }
            dec_ = build_las_decompressor(in_.cb(), head_.pointFormat(), head_.ebCount());
            if (!dec_)
                throw error("Unsupported point format.");
            left_ = chunks_[next_chunk_].count;
            pos_ += chunks_[next_chunk_].offset;
            next_chunk_++;
        }
        left_--;
        dec_->decompress(out);
    }
};
} // namespace reader
} // namespace lazperf
