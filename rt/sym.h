// Harness interface of the symbolic executor; native replay supplies the same functions (native.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C"
{
    uint64_t sym_u(const char *name, int width);
    void sym_bytes(void *p, size_t n, const char *name);
    void sym_assume_(int c);
    void sym_assert_(int c, const char *label);
    void sym_reach(const char *label);
    void sym_observe(const char *label, uint64_t v);
    long sym_param(const char *name, long dflt);
    int sym_choose(const char *name, int n);
    uint64_t sym_concretize(uint64_t v);
    int sym_symbolic(void);
    int sym_is_const(uint64_t v);
    int sym_memeq(const void *p, const void *q, size_t n);
    void sym_fill(int byte); // what fresh memory holds from now on (-1: the usual content)
    uint64_t sym_ite(uint64_t c, uint64_t a, uint64_t b);
}
#define ASSUME(c) sym_assume_((c) ? 1 : 0)
#define ASSERT(c, label) sym_assert_((c) ? 1 : 0, label)
#define REACH(l) sym_reach(l)
#define OBS(l, v) sym_observe(l, (uint64_t)(v))
static inline uint8_t symU8(const char *n) { return (uint8_t)sym_u(n, 8); }
static inline uint16_t symU16(const char *n) { return (uint16_t)sym_u(n, 16); }
static inline uint32_t symU32(const char *n) { return (uint32_t)sym_u(n, 32); }
static inline uint64_t symU64(const char *n) { return sym_u(n, 64); }
static inline int32_t symI32(const char *n) { return (int32_t)sym_u(n, 32); }
static inline int16_t symI16(const char *n) { return (int16_t)sym_u(n, 16); }
static inline bool symBool(const char *n) { return sym_u(n, 1) != 0; }
static inline double symF64(const char *n)
{
    uint64_t u = sym_u(n, 64);
    double d;
    std::memcpy(&d, &u, 8);
    return d;
}
static inline float symF32(const char *n)
{
    uint32_t u = (uint32_t)sym_u(n, 32);
    float d;
    std::memcpy(&d, &u, 4);
    return d;
}
static inline uint64_t bitsOf(double d)
{
    uint64_t u;
    std::memcpy(&u, &d, 8);
    return u;
}
static inline bool finite64(double d) { return ((bitsOf(d) >> 52) & 0x7ff) != 0x7ff; }
static inline bool sameBits(double a, double b) { return bitsOf(a) == bitsOf(b); }
