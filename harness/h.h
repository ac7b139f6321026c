// helpers shared by the harnesses
#pragma once
#include "sym.h"
#include <cmath>
#include <exception>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
template <class F> static bool throws(F f)
{
    try
    {
        f();
    }
    catch (std::exception &)
    {
        return true;
    }
    return false;
}
static inline uint64_t rdLE(const void *q, int o, int n)
{
    uint64_t v = 0; // x86-64 is little-endian
    std::memcpy(&v, (const char *)q + o, n);
    return v;
}
static inline void wrLE(void *q, int o, int n, uint64_t v)
{
    std::memcpy((char *)q + o, &v, n);
}
static inline bool isNan(double d) { return d != d; }
// equality of doubles as values of a field: bit equality, any NaN matches any NaN
static inline bool sameF(double a, double b) { return bitsOf(a) == bitsOf(b) || (a != a && b != b); }
static inline double fromBits(uint64_t u)
{
    double d;
    std::memcpy(&d, &u, 8);
    return d;
}
// non-short-circuit conjunction: keeps the symbolic executor on one path
template <class... T> static inline bool all(T... t)
{
    int r = 1;
    int a[] = {(int)(bool)t...};
    for (int x : a) r &= x;
    return r;
}
