// Stand-in for lazperf 3.0.0 <lazperf/filestream.hpp>: callbacks over iostreams.  Like the original, the input
// side reads ahead in large blocks, so the wrapped stream's position and eof/fail state are disturbed by it.
#pragma once
#include "header.hpp"
#include <functional>
#include <memory>
#include <vector>
namespace lazperf
{
typedef std::function<void(const unsigned char *, size_t)> OutputCb;
typedef std::function<void(unsigned char *, size_t)> InputCb;
class OutFileStream
{
    std::ostream &out_;

  public:
    OutFileStream(std::ostream &out) : out_(out) {}
    void putBytes(const unsigned char *p, size_t n) { out_.write(reinterpret_cast<const char *>(p), n); }
    OutputCb cb()
    {
        return [this](const unsigned char *p, size_t n) { putBytes(p, n); };
    }
};
class InFileStream
{
    std::istream &in_;
    std::vector<unsigned char> buf_;
    size_t pos_ = 0, size_ = 0;

  public:
    InFileStream(std::istream &in) : in_(in) {}
    void reset() { pos_ = size_ = 0; }
    void getBytes(unsigned char *p, size_t n)
    {
        while (n--)
        {
            if (pos_ >= size_)
            {
                buf_.resize(4096);
                in_.read(reinterpret_cast<char *>(buf_.data()), buf_.size());
                size_ = in_.gcount();
                pos_ = 0;
                if (size_ == 0)
                    throw error("Unexpected end of file.");
            }
            *p++ = buf_[pos_++];
        }
    }
    InputCb cb()
    {
        return [this](unsigned char *p, size_t n) { getBytes(p, n); };
    }
};
} // namespace lazperf
