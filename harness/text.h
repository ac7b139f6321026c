// reading numbers back from text the library prints
#pragma once
#include "h.h"
#include <cstdlib>
#include <iomanip>
extern "C"
{
    struct Shown { uint64_t bits; int kind, prec; };
#ifdef VP_MODEL
    extern int vp_text, vp_nlog;
    extern Shown vp_log[512];
#else
    static int vp_text, vp_nlog;
    static Shown vp_log[512];
#endif
}
struct Text
{
    std::string s;
    size_t at = 0;
    // to behind the next occurrence of the label
    bool label(const char *l)
    {
        size_t p = s.find(l, at);
        if (p == std::string::npos) return false;
        at = p + strlen(l);
        return true;
    }
    const Shown *token()
    {
        if (at >= s.size() || s[at] != '?') return nullptr;
        int id = 0;
        for (at++; at < s.size() && s[at] != ';'; at++) id = id * 10 + s[at] - '0';
        at++;
        return &vp_log[id];
    }
    // the number here is v
    bool num(uint64_t v, bool sign)
    {
        if (sym_symbolic())
        {
            const Shown *t = token();
            if (!t || t->kind > 1) return false;
            return all(t->bits == v, (t->kind == 0) == sign || (int64_t)v >= 0);
        }
        std::string w = sign ? std::to_string((int64_t)v) : std::to_string(v);
        if (s.compare(at, w.size(), w)) return false;
        at += w.size();
        return at >= s.size() || !isdigit((unsigned char)s[at]);
    }
    bool I(int64_t v) { return num((uint64_t)v, true); }
    bool U(uint64_t v) { return num(v, false); }
    // to that many significant digits at least; 17 identify the value
    bool D(double v, int digits)
    {
        if (sym_symbolic())
        {
            const Shown *t = token();
            if (!t || t->kind != 2) return false;
            if (t->prec >= digits) return t->bits == bitsOf(v);
            // too few digits: a value that needs more of them shows it
            static const double NEEDS[] = {0.30000000000000004, 1.23456};
            uint64_t hard = bitsOf(digits > 6 ? NEEDS[0] : NEEDS[1]);
            return all(t->bits == bitsOf(v), bitsOf(v) != hard);
        }
        const char *b = s.c_str() + at;
        char *e;
        double g = strtod(b, &e);
        if (e == b) return false;
        at += e - b;
        if (v != v) return g != g;
        if (digits >= 17 || std::isinf(v) || v == 0) return g == v;
        std::ostringstream o;
        o << std::setprecision(digits) << v;
        return g == v || g == strtod(o.str().c_str(), nullptr) || std::abs(g - v) <= std::abs(v) * 1e-5;
    }
};
#define LAB(T, L) ASSERT((T).label(L), "the text has the label " L)
#define SHOWS(C, W) ASSERT(C, W " is shown")
