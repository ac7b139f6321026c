// Hash-consed bit-vector / IEEE expression DAG with local simplification and a native evaluator.
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iterator>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class Op : uint8_t
{
    Const, Sym, Tuple,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Not,
    Eq, Ult, Ule, Slt, Sle,
    Concat, Extract, ZExt, SExt, Ite,
    // IEEE (operands and results are bit patterns)
    FAdd, FSub, FMul, FDiv, FSqrt, FRem,
    FEq, FLt, FLe, FUno,          // ordered comparisons / unordered test, 1-bit
    FRnd,                         // aux: 0 RNA(round) 1 floor 2 ceil 3 trunc 4 rint(RNE)
    SIToFP, UIToFP, FPToSI, FPToUI, FExt, FTrunc,
};
enum { RND_RNA = 0, RND_FLOOR, RND_CEIL, RND_TRUNC, RND_RNE };

struct Expr
{
    Op op;
    bool hasFpArith; // contains FAdd..FRem
    bool hasCvt = false; // contains SIToFP
    uint16_t w;      // width in bits (0 for tuples)
    uint16_t n;      // number of kids
    uint32_t id;
    uint32_t aux; // Extract low bit / rounding mode / symbol number
    uint32_t depth;
    const Expr *k[3];
    u128 c;
    std::vector<const Expr *> *tuple = nullptr;
    std::vector<uint32_t> *syms = nullptr; // cached sorted symbol set
};
using E = const Expr *;

inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextW(u128 v, unsigned w)
{
    if (w >= 128)
        return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskW(w);
    return (i128)((v ^ m) - m);
}
inline double asD(u128 v)
{
    uint64_t x = (uint64_t)v;
    double d;
    memcpy(&d, &x, 8);
    return d;
}
inline float asF(u128 v)
{
    uint32_t x = (uint32_t)v;
    float d;
    memcpy(&d, &x, 4);
    return d;
}
inline u128 fromD(double d)
{
    uint64_t x;
    memcpy(&x, &d, 8);
    return x;
}
inline u128 fromF(float d)
{
    uint32_t x;
    memcpy(&x, &d, 4);
    return x;
}

struct SymInfo
{
    std::string name;
    unsigned w;
    E e;
};

struct ExprMgr
{
    struct H
    {
        size_t operator()(E e) const
        {
            size_t h = (size_t)e->op * 0x9E3779B97F4A7C15ull + e->w * 1315423911u + e->aux * 2654435761u;
            for (int i = 0; i < e->n; i++)
                h = (h ^ e->k[i]->id) * 0x100000001b3ull + 0x9E37;
            h ^= (size_t)e->c * 0xff51afd7ed558ccdull;
            h ^= (size_t)(e->c >> 64);
            return h ^ (h >> 29);
        }
    };
    struct Q
    {
        bool operator()(E a, E b) const
        {
            return a->op == b->op && a->w == b->w && a->aux == b->aux && a->n == b->n && a->c == b->c &&
                   a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2];
        }
    };
    std::unordered_set<E, H, Q> table;
    uint32_t next = 0;
    std::vector<SymInfo> syms;
    std::unordered_map<std::string, uint32_t> symByName;
    E small[65][257];
    ExprMgr() { memset(small, 0, sizeof small); table.reserve(1 << 20); }

    E intern(Expr &t)
    {
        t.id = 0;
        auto it = table.find(&t);
        if (it != table.end())
            return *it;
        Expr *e = new Expr(t);
        e->id = next++;
        e->hasFpArith = e->op >= Op::FAdd && e->op <= Op::FRem;
        e->hasCvt = e->op == Op::SIToFP;
        e->depth = 0;
        for (int i = 0; i < e->n; i++)
        {
            e->hasCvt |= e->k[i]->hasCvt;
            e->hasFpArith |= e->k[i]->hasFpArith;
            if (e->k[i]->depth + 1 > e->depth)
                e->depth = e->k[i]->depth + 1;
        }
        table.insert(e);
        return e;
    }
    static void init(Expr &t, Op op, unsigned w)
    {
        memset((void *)&t, 0, sizeof t);
        t.op = op;
        t.w = w;
    }
    E C(u128 v, unsigned w)
    {
        v &= maskW(w);
        if (w <= 64 && v <= 256)
        {
            E &s = small[w][(int)v];
            if (s)
                return s;
            Expr t;
            init(t, Op::Const, w);
            t.c = v;
            return s = intern(t);
        }
        Expr t;
        init(t, Op::Const, w);
        t.c = v;
        return intern(t);
    }
    E sym(const std::string &name, unsigned w)
    {
        auto it = symByName.find(name + ":" + std::to_string(w));
        if (it != symByName.end()) return syms[it->second].e;
        Expr t;
        init(t, Op::Sym, w);
        t.aux = syms.size();
        E e = intern(t);
        symByName[name + ":" + std::to_string(w)] = syms.size();
        syms.push_back({name, w, e});
        return e;
    }
    E tuple(const std::vector<E> &v)
    {
        Expr *e = new Expr;
        memset((void *)e, 0, sizeof *e);
        e->op = Op::Tuple;
        e->id = next++;
        e->tuple = new std::vector<E>(v);
        return e;
    }
    E raw(Op op, unsigned w, E a, E b = nullptr, E c = nullptr, uint32_t aux = 0)
    {
        Expr t;
        init(t, op, w);
        t.k[0] = a;
        t.k[1] = b;
        t.k[2] = c;
        t.n = c ? 3 : b ? 2 : 1;
        t.aux = aux;
        return intern(t);
    }

    static bool isC(E e) { return e->op == Op::Const; }
    static bool isC(E e, u128 v) { return e->op == Op::Const && e->c == v; }
    E T() { return C(1, 1); }
    E F() { return C(0, 1); }

    // ---- native semantics of one node over constant operands ----
    static u128 evalOp(Op op, unsigned w, uint32_t aux, unsigned w0, u128 a, unsigned w1, u128 b, u128 c)
    {
        u128 m = maskW(w);
        switch (op)
        {
        case Op::Add: return (a + b) & m;
        case Op::Sub: return (a - b) & m;
        case Op::Mul: return (a * b) & m;
        case Op::UDiv: return b == 0 ? m : a / b;
        case Op::URem: return b == 0 ? a : a % b;
        case Op::SDiv:
        {
            i128 x = sextW(a, w), y = sextW(b, w);
            if (y == 0) return (x < 0 ? (u128)1 : m);
            if (y == -1) return (u128)(-(u128)x) & m;
            return (u128)(x / y) & m;
        }
        case Op::SRem:
        {
            i128 x = sextW(a, w), y = sextW(b, w);
            if (y == 0) return a;
            if (y == -1) return 0;
            return (u128)(x % y) & m;
        }
        case Op::And: return a & b;
        case Op::Or: return a | b;
        case Op::Xor: return a ^ b;
        case Op::Not: return ~a & m;
        case Op::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
        case Op::LShr: return b >= w ? 0 : (a >> (unsigned)b);
        case Op::AShr:
        {
            i128 x = sextW(a, w);
            return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & m;
        }
        case Op::Eq: return a == b;
        case Op::Ult: return a < b;
        case Op::Ule: return a <= b;
        case Op::Slt: return sextW(a, w0) < sextW(b, w0);
        case Op::Sle: return sextW(a, w0) <= sextW(b, w0);
        case Op::Concat: return ((a << w1) | b) & m;
        case Op::Extract: return (a >> aux) & m;
        case Op::ZExt: return a;
        case Op::SExt: return (u128)sextW(a, w0) & m;
        case Op::Ite: return a ? b : c;
        default: break;
        }
        bool d0 = w0 == 64;
        switch (op)
        {
        case Op::FAdd: return d0 ? fromD(asD(a) + asD(b)) : fromF(asF(a) + asF(b));
        case Op::FSub: return d0 ? fromD(asD(a) - asD(b)) : fromF(asF(a) - asF(b));
        case Op::FMul: return d0 ? fromD(asD(a) * asD(b)) : fromF(asF(a) * asF(b));
        case Op::FDiv: return d0 ? fromD(asD(a) / asD(b)) : fromF(asF(a) / asF(b));
        case Op::FRem: return d0 ? fromD(fmod(asD(a), asD(b))) : fromF(fmodf(asF(a), asF(b)));
        case Op::FSqrt: return d0 ? fromD(sqrt(asD(a))) : fromF(sqrtf(asF(a)));
        case Op::FEq: return d0 ? asD(a) == asD(b) : asF(a) == asF(b);
        case Op::FLt: return d0 ? asD(a) < asD(b) : asF(a) < asF(b);
        case Op::FLe: return d0 ? asD(a) <= asD(b) : asF(a) <= asF(b);
        case Op::FUno: return d0 ? (asD(a) != asD(a) || asD(b) != asD(b)) : (asF(a) != asF(a) || asF(b) != asF(b));
        case Op::FRnd:
        {
            double x = d0 ? asD(a) : (double)asF(a), r;
            switch (aux)
            {
            case RND_RNA: r = round(x); break;
            case RND_FLOOR: r = floor(x); break;
            case RND_CEIL: r = ceil(x); break;
            case RND_TRUNC: r = trunc(x); break;
            default: r = nearbyint(x); break;
            }
            return d0 ? fromD(r) : fromF((float)r);
        }
        case Op::SIToFP:
        {
            i128 x = sextW(a, w0);
            return w == 64 ? fromD((double)(int64_t)x) : fromF((float)(int64_t)x);
        }
        case Op::UIToFP: return w == 64 ? fromD((double)(uint64_t)a) : fromF((float)(uint64_t)a);
        case Op::FPToSI:
        {
            // x86-64 behaviour out of range: the "integer indefinite" value
            double x = d0 ? asD(a) : (double)asF(a);
            unsigned hw = w <= 32 ? 32 : 64;
            double lim = hw == 32 ? 2147483648.0 : 9223372036854775808.0;
            double t = trunc(x);
            if (!(t >= -lim && t < lim))
                return (hw == 32 ? (u128)0x80000000u : (u128)0x8000000000000000ull) & m;
            return (u128)(i128)(int64_t)t & m;
        }
        case Op::FPToUI:
        {
            double x = d0 ? asD(a) : (double)asF(a);
            double t = trunc(x);
            if (w < 32)
            {
                if (!(t >= -2147483648.0 && t < 2147483648.0))
                    return 0x80000000u & m;
                return (u128)(i128)(int64_t)t & m;
            }
            if (w == 32)
            {
                if (!(t >= -9223372036854775808.0 && t < 9223372036854775808.0))
                    return 0;
                return (u128)(i128)(int64_t)t & m;
            }
            if (!(t > -9223372036854775808.0 && t < 18446744073709551616.0))
                return 0x8000000000000000ull & m;
            if (t < 9223372036854775808.0)
                return (u128)(i128)(int64_t)t & m;
            return (u128)(uint64_t)t & m;
        }
        case Op::FExt: return fromD((double)asF(a));
        case Op::FTrunc: return fromF((float)asD(a));
        default: break;
        }
        fprintf(stderr, "evalOp: bad op %d\n", (int)op);
        abort();
    }

    E fold1(Op op, unsigned w, E a, uint32_t aux = 0) { return C(evalOp(op, w, aux, a->w, a->c, 0, 0, 0), w); }
    E fold2(Op op, unsigned w, E a, E b, uint32_t aux = 0)
    {
        return C(evalOp(op, w, aux, a->w, a->c, b->w, b->c, 0), w);
    }

    // ---- simplifying constructors ----
    E Not(E a)
    {
        if (isC(a)) return fold1(Op::Not, a->w, a);
        if (a->op == Op::Not) return a->k[0];
        if (a->w == 1)
        {
            if (a->op == Op::Ult) return Ule(a->k[1], a->k[0]);
            if (a->op == Op::Ule) return Ult(a->k[1], a->k[0]);
            if (a->op == Op::Slt) return Sle(a->k[1], a->k[0]);
            if (a->op == Op::Sle) return Slt(a->k[1], a->k[0]);
        }
        return raw(Op::Not, a->w, a);
    }
    E And(E a, E b)
    {
        if (isC(a) && isC(b)) return fold2(Op::And, a->w, a, b);
        if (isC(a)) std::swap(a, b);
        if (isC(b, 0)) return b;
        if (isC(b, maskW(a->w))) return a;
        if (a == b) return a;
        if (isC(b) && a->op == Op::And && isC(a->k[1])) return And(a->k[0], C(a->k[1]->c & b->c, a->w));
        if (a->w == 1 && ((a->op == Op::Not && a->k[0] == b) || (b->op == Op::Not && b->k[0] == a))) return F();
        if (isC(b) && a->w > 1)
        {
            // low mask -> zext(extract), top mask -> concat(extract,0)
            u128 m = b->c;
            if ((m & (m + 1)) == 0)
            {
                unsigned k = 0;
                while ((m >> k) & 1) k++;
                return ZExt(Extract(a, 0, k), a->w);
            }
            if (a->op == Op::ZExt && (m & maskW(a->k[0]->w)) == maskW(a->k[0]->w)) return a;
            if (a->op == Op::ZExt) return ZExt(And(a->k[0], C(m, a->k[0]->w)), a->w);
            u128 inv = ~m & maskW(a->w);
            if ((inv & (inv + 1)) == 0)
            {
                unsigned k = 0;
                while ((inv >> k) & 1) k++;
                return Concat(Extract(a, k, a->w - k), C(0, k));
            }
            // contiguous field 0..0 1..1 0..0
            unsigned lo = 0;
            while (!((m >> lo) & 1)) lo++;
            u128 t = m >> lo;
            if ((t & (t + 1)) == 0)
            {
                unsigned k = 0;
                while ((t >> k) & 1) k++;
                return Concat(C(0, a->w - lo - k), Concat(Extract(a, lo, k), C(0, lo)));
            }
            // hole in the middle: 1..1 0..0 1..1
            lo = 0;
            while (!((inv >> lo) & 1)) lo++;
            t = inv >> lo;
            if ((t & (t + 1)) == 0)
            {
                unsigned k = 0;
                while ((t >> k) & 1) k++;
                return Concat(Extract(a, lo + k, a->w - lo - k), Concat(C(0, k), Extract(a, 0, lo)));
            }
        }
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        if (a->w > 1 && (a->op == Op::Concat || b->op == Op::Concat)) { if (E r = splitBitwise(Op::And, a, b)) return r; }
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return ZExt(And(a->k[0], b->k[0]), a->w);
        if (a->op == Op::ZExt && a->k[0]->w == 1) return ZExt(And(a->k[0], Extract(b, 0, 1)), a->w);
        if (b->op == Op::ZExt && b->k[0]->w == 1) return ZExt(And(b->k[0], Extract(a, 0, 1)), a->w);
        return raw(Op::And, a->w, a, b);
    }
    // bitwise op over operands where one is a Concat: split at its boundary (keeps bit fields separate)
    E splitBitwise(Op op, E a, E b)
    {
        E cc = a->op == Op::Concat ? a : b;
        E o = cc == a ? b : a;
        if (!(isC(o) || o->op == Op::Concat || o->op == Op::ZExt)) return nullptr;
        unsigned lw = cc->k[1]->w;
        E oh = Extract(o, lw, cc->w - lw), ol = Extract(o, 0, lw);
        E h = op == Op::And ? And(cc->k[0], oh) : op == Op::Or ? Or(cc->k[0], oh) : Xor(cc->k[0], oh);
        E l = op == Op::And ? And(cc->k[1], ol) : op == Op::Or ? Or(cc->k[1], ol) : Xor(cc->k[1], ol);
        return Concat(h, l);
    }
    E Or(E a, E b)
    {
        if (isC(a) && isC(b)) return fold2(Op::Or, a->w, a, b);
        if (isC(a)) std::swap(a, b);
        if (isC(b, 0)) return a;
        if (isC(b, maskW(a->w))) return b;
        if (a == b) return a;
        if (a->w == 1 && ((a->op == Op::Not && a->k[0] == b) || (b->op == Op::Not && b->k[0] == a))) return T();
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        if (a->w > 1 && (a->op == Op::Concat || b->op == Op::Concat)) { if (E r = splitBitwise(Op::Or, a, b)) return r; }
        if (a->w > 1 && (a->op == Op::ZExt && b->op == Op::Concat)) { if (E r = splitBitwise(Op::Or, a, b)) return r; }
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return ZExt(Or(a->k[0], b->k[0]), a->w);
        return raw(Op::Or, a->w, a, b);
    }
    E Xor(E a, E b)
    {
        if (isC(a) && isC(b)) return fold2(Op::Xor, a->w, a, b);
        if (isC(a)) std::swap(a, b);
        if (isC(b, 0)) return a;
        if (isC(b, maskW(a->w))) return Not(a);
        if (a == b) return C(0, a->w);
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        if (a->w > 1 && (a->op == Op::Concat || b->op == Op::Concat)) { if (E r = splitBitwise(Op::Xor, a, b)) return r; }
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return ZExt(Xor(a->k[0], b->k[0]), a->w);
        return raw(Op::Xor, a->w, a, b);
    }
    E Add(E a, E b)
    {
        if (isC(a) && isC(b)) return fold2(Op::Add, a->w, a, b);
        if (isC(a)) std::swap(a, b);
        if (isC(b, 0)) return a;
        if (isC(b) && a->op == Op::Add && isC(a->k[1])) return Add(a->k[0], C(a->k[1]->c + b->c, a->w));
        if (a->w == 1) return Xor(a, b);
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        return raw(Op::Add, a->w, a, b);
    }
    E Sub(E a, E b)
    {
        if (isC(a) && isC(b)) return fold2(Op::Sub, a->w, a, b);
        if (isC(b)) return Add(a, C(-b->c, b->w));
        if (a == b) return C(0, a->w);
        if (a->op == Op::Add && a->k[0] == b) return a->k[1];
        if (a->op == Op::Add && a->k[1] == b) return a->k[0];
        return raw(Op::Sub, a->w, a, b);
    }
    E Mul(E a, E b)
    {
        if (isC(a) && isC(b)) return fold2(Op::Mul, a->w, a, b);
        if (isC(a)) std::swap(a, b);
        if (isC(b, 0)) return b;
        if (isC(b, 1)) return a;
        if (isC(b) && (b->c & (b->c - 1)) == 0)
        {
            unsigned k = 0;
            while (!((b->c >> k) & 1)) k++;
            return Shl(a, C(k, a->w));
        }
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        return raw(Op::Mul, a->w, a, b);
    }
    E bin(Op op, E a, E b)
    {
        switch (op)
        {
        case Op::Add: return Add(a, b);
        case Op::Sub: return Sub(a, b);
        case Op::Mul: return Mul(a, b);
        case Op::And: return And(a, b);
        case Op::Or: return Or(a, b);
        case Op::Xor: return Xor(a, b);
        case Op::Shl: return Shl(a, b);
        case Op::LShr: return LShr(a, b);
        case Op::AShr: return AShr(a, b);
        case Op::UDiv:
            if (isC(a) && isC(b)) return fold2(op, a->w, a, b);
            if (isC(b, 1)) return a;
            if (isC(b) && b->c && (b->c & (b->c - 1)) == 0)
            {
                unsigned k = 0;
                while (!((b->c >> k) & 1)) k++;
                return LShr(a, C(k, a->w));
            }
            return raw(op, a->w, a, b);
        case Op::URem:
            if (isC(a) && isC(b)) return fold2(op, a->w, a, b);
            if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return And(a, C(b->c - 1, a->w));
            return raw(op, a->w, a, b);
        default:
            if (isC(a) && isC(b)) return fold2(op, a->w, a, b);
            if (op == Op::SDiv && isC(b, 1)) return a;
            return raw(op, a->w, a, b);
        }
    }
    E Shl(E a, E b)
    {
        if (isC(a) && isC(b)) return fold2(Op::Shl, a->w, a, b);
        if (isC(b))
        {
            if (b->c == 0) return a;
            if (b->c >= a->w) return C(0, a->w);
            unsigned k = (unsigned)b->c;
            return Concat(Extract(a, 0, a->w - k), C(0, k));
        }
        if (isC(a, 0)) return a;
        return raw(Op::Shl, a->w, a, b);
    }
    E LShr(E a, E b)
    {
        if (isC(a) && isC(b)) return fold2(Op::LShr, a->w, a, b);
        if (isC(b))
        {
            if (b->c == 0) return a;
            if (b->c >= a->w) return C(0, a->w);
            unsigned k = (unsigned)b->c;
            return ZExt(Extract(a, k, a->w - k), a->w);
        }
        if (isC(a, 0)) return a;
        return raw(Op::LShr, a->w, a, b);
    }
    E AShr(E a, E b)
    {
        if (isC(a) && isC(b)) return fold2(Op::AShr, a->w, a, b);
        if (isC(b))
        {
            if (b->c == 0) return a;
            unsigned k = b->c >= a->w ? a->w - 1 : (unsigned)b->c;
            return SExt(Extract(a, k, a->w - k), a->w);
        }
        return raw(Op::AShr, a->w, a, b);
    }
    E Extract(E a, unsigned lo, unsigned w)
    {
        assert(w > 0 && lo + w <= a->w);
        if (w == a->w) return a;
        if (isC(a)) return C(a->c >> lo, w);
        switch (a->op)
        {
        case Op::Extract: return Extract(a->k[0], a->aux + lo, w);
        case Op::Concat:
        {
            unsigned lw = a->k[1]->w;
            if (lo >= lw) return Extract(a->k[0], lo - lw, w);
            if (lo + w <= lw) return Extract(a->k[1], lo, w);
            return Concat(Extract(a->k[0], 0, lo + w - lw), Extract(a->k[1], lo, lw - lo));
        }
        case Op::ZExt:
        {
            unsigned lw = a->k[0]->w;
            if (lo >= lw) return C(0, w);
            if (lo + w <= lw) return Extract(a->k[0], lo, w);
            return ZExt(Extract(a->k[0], lo, lw - lo), w);
        }
        case Op::SExt:
        {
            unsigned lw = a->k[0]->w;
            if (lo + w <= lw) return Extract(a->k[0], lo, w);
            if (lo < lw) return SExt(Extract(a->k[0], lo, lw - lo), w);
            return SExt(Extract(a->k[0], lw - 1, 1), w);
        }
        case Op::And: return And(Extract(a->k[0], lo, w), Extract(a->k[1], lo, w));
        case Op::Or: return Or(Extract(a->k[0], lo, w), Extract(a->k[1], lo, w));
        case Op::Xor: return Xor(Extract(a->k[0], lo, w), Extract(a->k[1], lo, w));
        case Op::Not: return Not(Extract(a->k[0], lo, w));
        case Op::Add:
            if (lo == 0) return Add(Extract(a->k[0], 0, w), Extract(a->k[1], 0, w));
            break;
        case Op::Sub:
            if (lo == 0) return Sub(Extract(a->k[0], 0, w), Extract(a->k[1], 0, w));
            break;
        case Op::Mul:
            if (lo == 0) return Mul(Extract(a->k[0], 0, w), Extract(a->k[1], 0, w));
            break;
        case Op::Ite:
            if (isC(a->k[1]) || isC(a->k[2])) return Ite(a->k[0], Extract(a->k[1], lo, w), Extract(a->k[2], lo, w));
            break;
        default: break;
        }
        return raw(Op::Extract, w, a, nullptr, nullptr, lo);
    }
    E Concat(E h, E l)
    {
        unsigned w = h->w + l->w;
        if (isC(h) && isC(l)) return C((h->c << l->w) | l->c, w);
        if (isC(h, 0)) return ZExt(l, w);
        if (h->op == Op::Extract && l->op == Op::Extract && h->k[0] == l->k[0] && h->aux == l->aux + l->w)
            return Extract(h->k[0], l->aux, w);
        if (h->op == Op::Extract && h->k[0] == l && h->aux == l->w) return Extract(l, 0, w);
        // right-associate: concat(concat(a,b),c) -> concat(a, concat(b,c))
        if (h->op == Op::Concat) return Concat(h->k[0], Concat(h->k[1], l));
        if (h->op == Op::ZExt) return ZExt(Concat(h->k[0], l), w);
        if (l->op == Op::Concat)
        {
            E lh = l->k[0];
            if (h->op == Op::Extract && lh->op == Op::Extract && h->k[0] == lh->k[0] && h->aux == lh->aux + lh->w)
                return Concat(Extract(h->k[0], lh->aux, h->w + lh->w), l->k[1]);
            if (isC(h) && isC(lh)) return Concat(C((h->c << lh->w) | lh->c, h->w + lh->w), l->k[1]);
        }
        if (h->op == Op::SExt && false) {}
        return raw(Op::Concat, w, h, l);
    }
    E ZExt(E a, unsigned w)
    {
        if (w == a->w) return a;
        if (w < a->w) return Extract(a, 0, w);
        if (isC(a)) return C(a->c, w);
        if (a->op == Op::ZExt) return ZExt(a->k[0], w);
        return raw(Op::ZExt, w, a);
    }
    E SExt(E a, unsigned w)
    {
        if (w == a->w) return a;
        if (isC(a)) return C((u128)sextW(a->c, a->w), w);
        if (a->op == Op::SExt) return SExt(a->k[0], w);
        if (a->op == Op::ZExt) return ZExt(a->k[0], w);
        return raw(Op::SExt, w, a);
    }
    E Ite(E c, E a, E b)
    {
        if (isC(c)) return c->c ? a : b;
        if (a == b) return a;
        if (c->op == Op::Not) return Ite(c->k[0], b, a);
        if (a->w == 1)
        {
            if (isC(a, 1) && isC(b, 0)) return c;
            if (isC(a, 0) && isC(b, 1)) return Not(c);
            if (isC(a, 1)) return Or(c, b);
            if (isC(b, 0)) return And(c, a);
            if (isC(a, 0)) return And(Not(c), b);
            if (isC(b, 1)) return Or(Not(c), a);
        }
        if (b->op == Op::Ite && b->k[0] == c) return Ite(c, a, b->k[2]);
        if (a->op == Op::Ite && a->k[0] == c) return Ite(c, a->k[1], b);
        return raw(Op::Ite, a->w, c, a, b);
    }
    E Eq(E a, E b)
    {
        assert(a->w == b->w);
        if (isC(a) && isC(b)) return a->c == b->c ? T() : F();
        if (a == b) return T();
        if (isC(a)) std::swap(a, b);
        if (a->w == 1)
        {
            if (isC(b)) return b->c ? a : Not(a);
            return Not(Xor(a, b));
        }
        if (isC(b))
        {
            switch (a->op)
            {
            case Op::ZExt:
                if (b->c >> a->k[0]->w) return F();
                return Eq(a->k[0], C(b->c, a->k[0]->w));
            case Op::SExt:
            {
                unsigned lw = a->k[0]->w;
                if (((u128)sextW(b->c & maskW(lw), lw) & maskW(a->w)) != b->c) return F();
                return Eq(a->k[0], C(b->c, lw));
            }
            case Op::Concat:
                return And(Eq(a->k[0], C(b->c >> a->k[1]->w, a->k[0]->w)), Eq(a->k[1], C(b->c, a->k[1]->w)));
            case Op::Ite:
                if (isC(a->k[1]) || isC(a->k[2])) return Ite(a->k[0], Eq(a->k[1], b), Eq(a->k[2], b));
                break;
            case Op::Add:
                if (isC(a->k[1])) return Eq(a->k[0], C(b->c - a->k[1]->c, a->w));
                break;
            case Op::Xor:
                if (isC(a->k[1])) return Eq(a->k[0], C(b->c ^ a->k[1]->c, a->w));
                break;
            case Op::Not: return Eq(a->k[0], C(~b->c, a->w));
            default: break;
            }
        }
        else
        {
            if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return Eq(a->k[0], b->k[0]);
            if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return Eq(a->k[0], b->k[0]);
            if (a->op == Op::Concat && b->op == Op::Concat && a->k[0]->w == b->k[0]->w)
                return And(Eq(a->k[0], b->k[0]), Eq(a->k[1], b->k[1]));
            if (a->op == Op::Add && b->op == Op::Add && isC(a->k[1]) && isC(b->k[1]))
            {
                if (a->k[0] == b->k[0]) return a->k[1]->c == b->k[1]->c ? T() : F();
            }
            if (a->op == Op::Add && isC(a->k[1]) && a->k[0] == b) return F();
            if (b->op == Op::Add && isC(b->k[1]) && b->k[0] == a) return F();
            if (a->id > b->id) std::swap(a, b);
        }
        return raw(Op::Eq, 1, a, b);
    }
    E Ult(E a, E b)
    {
        if (isC(a) && isC(b)) return a->c < b->c ? T() : F();
        if (a == b) return F();
        if (isC(b, 0)) return F();
        if (isC(b, 1)) return Eq(a, C(0, a->w));
        if (isC(a, maskW(a->w))) return F();
        if (isC(a, 0)) return Not(Eq(b, a));
        if (isC(b) && a->op == Op::ZExt)
        {
            if (b->c > maskW(a->k[0]->w)) return T();
            return Ult(a->k[0], C(b->c, a->k[0]->w));
        }
        if (isC(a) && b->op == Op::ZExt)
        {
            if (a->c >= maskW(b->k[0]->w)) return F();
            return Ult(C(a->c, b->k[0]->w), b->k[0]);
        }
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return Ult(a->k[0], b->k[0]);
        return raw(Op::Ult, 1, a, b);
    }
    E Ule(E a, E b)
    {
        if (isC(a) && isC(b)) return a->c <= b->c ? T() : F();
        if (a == b) return T();
        if (isC(a, 0)) return T();
        if (isC(b, maskW(b->w))) return T();
        if (isC(b, 0)) return Eq(a, b);
        if (isC(b)) return Ult(a, C(b->c + 1, b->w));
        if (isC(a)) return Ult(C(a->c - 1, a->w), b);
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return Ule(a->k[0], b->k[0]);
        return raw(Op::Ule, 1, a, b);
    }
    E Slt(E a, E b)
    {
        if (isC(a) && isC(b)) return sextW(a->c, a->w) < sextW(b->c, b->w) ? T() : F();
        if (a == b) return F();
        // zext operands are non-negative
        if (a->op == Op::ZExt && (b->op == Op::ZExt || (isC(b) && !(b->c >> (b->w - 1))))) return Ult(a, b);
        if (b->op == Op::ZExt && isC(a) && !(a->c >> (a->w - 1))) return Ult(a, b);
        if (a->op == Op::ZExt && isC(b)) return F();
        if (b->op == Op::ZExt && isC(a)) return T();
        if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return Slt(a->k[0], b->k[0]);
        if (a->op == Op::SExt && isC(b))
        {
            unsigned lw = a->k[0]->w;
            i128 v = sextW(b->c, b->w), lo = sextW((u128)1 << (lw - 1), lw), hi = -(lo + 1);
            if (v > hi) return T();
            if (v <= lo) return F();
            return Slt(a->k[0], C((u128)v, lw));
        }
        if (b->op == Op::SExt && isC(a))
        {
            unsigned lw = b->k[0]->w;
            i128 v = sextW(a->c, a->w), lo = sextW((u128)1 << (lw - 1), lw), hi = -(lo + 1);
            if (v >= hi) return F();
            if (v < lo) return T();
            return Slt(C((u128)v, lw), b->k[0]);
        }
        return raw(Op::Slt, 1, a, b);
    }
    E Sle(E a, E b)
    {
        if (isC(a) && isC(b)) return sextW(a->c, a->w) <= sextW(b->c, b->w) ? T() : F();
        if (a == b) return T();
        if (isC(b) && b->c == maskW(b->w - 1)) return T();
        if (isC(a) && a->c == (u128)1 << (a->w - 1)) return T();
        if (isC(b)) return Slt(a, C(b->c + 1, b->w));
        if (isC(a)) return Slt(C(a->c - 1, a->w), b);
        if (a->op == Op::ZExt && b->op == Op::ZExt) return Ule(a, b);
        if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return Sle(a->k[0], b->k[0]);
        return raw(Op::Sle, 1, a, b);
    }
    // e == i * 2^k exactly, i a signed integer of at most 53 bits, the product a normal number or +0 (never -0)
    static bool exactInt(E e, E &i, int &k)
    {
        if (e->w != 64) return false;
        if (e->op == Op::SIToFP)
        {
            E x = e->k[0];
            if (x->op == Op::SExt) x = x->k[0];
            if (x->w > 53) return false;
            i = x;
            k = 0;
            return true;
        }
        if (e->op == Op::FMul)
        {
            E c = isC(e->k[0]) ? e->k[0] : e->k[1], x = isC(e->k[0]) ? e->k[1] : e->k[0];
            int m;
            if (!isC(c) || !pow2D(c, m)) return false;
            if (x->op != Op::SIToFP || !exactInt(x, i, k)) return false;
            k += m;
            return true;
        }
        return false;
    }
    static bool pow2D(E c, int &m)
    {
        uint64_t u = (uint64_t)c->c;
        if (c->w != 64 || (u & 0xfffffffffffffull) || (u >> 63)) return false;
        int e = (int)(u >> 52);
        if (e < 1023 - 400 || e > 1023 + 400) return false;
        m = e - 1023;
        return true;
    }
    E mkExact(E i, int k)
    {
        E f = fun1(Op::SIToFP, 64, i);
        if (!k) return f;
        return fbin(Op::FMul, f, C((uint64_t)(1023 + k) << 52, 64));
    }
    E fbin(Op op, E a, E b)
    {
        if (isC(a) && isC(b)) return fold2(op, a->w, a, b);
        if (a->w == 64 && (isC(a) || isC(b)))
        {
            E c = isC(b) ? b : a, x = isC(b) ? a : b;
            bool zero = (c->c & 0x7fffffffffffffffull) == 0;
            E i;
            int k, m;
            // x + -0 == x and x - +0 == x for every x that is not a NaN (NaN payload aside)
            if (op == Op::FSub && c == b && c->c == 0) return x;
            if (op == Op::FAdd && c->c == 0x8000000000000000ull) return x;
            if (zero && (op == Op::FAdd || (op == Op::FSub && c == b)) && exactInt(x, i, k)) return x;
            if (c->c == 0x3ff0000000000000ull && (op == Op::FMul || (op == Op::FDiv && c == b))) return x;
            if (pow2D(c, m) && exactInt(x, i, k))
            {
                if (op == Op::FDiv && c == b && k - m > -400 && k - m < 400) return mkExact(i, k - m);
                if (op == Op::FMul && k && k + m > -400 && k + m < 400) return mkExact(i, k + m);
            }
        }
        if ((op == Op::FAdd || op == Op::FMul) && a->id > b->id) std::swap(a, b);
        return raw(op, a->w, a, b);
    }
    E fcmp(Op op, E a, E b)
    {
        if (isC(a) && isC(b)) return fold2(op, 1, a, b);
        if ((op == Op::FEq || op == Op::FUno) && a->id > b->id) std::swap(a, b);
        if (a == b && op == Op::FLt) return F();
        if ((op == Op::FLt || op == Op::FLe || op == Op::FEq) && a->w == 64 && (isC(a) || isC(b)))
        {
            // integer-valued expression against a constant
            E c = isC(b) ? b : a, x = isC(b) ? a : b, i;
            int k;
            double d = asD(c->c);
            if (exactInt(x, i, k) && k == 0 && d == d)
            {
                double lo = -std::ldexp(1.0, (int)i->w - 1), hi = -lo - 1;
                bool cb = c == b; // x op c
                if (op == Op::FEq)
                {
                    if (d != std::floor(d) || d < lo || d > hi) return F();
                    return Eq(i, C((uint64_t)(int64_t)d, i->w));
                }
                if (cb)
                {
                    // i < d  <=>  i <= ceil(d)-1 ;  i <= d <=> i <= floor(d)
                    double t = op == Op::FLt ? std::ceil(d) - 1 : std::floor(d);
                    if (t < lo) return F();
                    if (t >= hi) return T();
                    return Sle(i, C((uint64_t)(int64_t)t, i->w));
                }
                double t = op == Op::FLt ? std::floor(d) + 1 : std::ceil(d); // i >= t
                if (t > hi) return F();
                if (t <= lo) return T();
                return Sle(C((uint64_t)(int64_t)t, i->w), i);
            }
        }
        // fptosi-free values: sitofp is never NaN
        if (op == Op::FUno && (isNeverNaN(a) && isNeverNaN(b))) return F();
        if (op == Op::FUno && isC(b) && asD(b->c) == asD(b->c) && b->w == 64 && a != b) return fcmp(Op::FUno, a, a);
        if (op == Op::FUno && isC(a) && asD(a->c) == asD(a->c) && a->w == 64 && a != b) return fcmp(Op::FUno, b, b);
        if ((op == Op::FEq || op == Op::FLe) && a == b) return Not(fcmp(Op::FUno, a, a));
        return raw(op, 1, a, b);
    }
    static bool isNeverNaN(E a)
    {
        if (a->op == Op::SIToFP || a->op == Op::UIToFP) return true;
        if (isC(a)) return a->w == 64 ? asD(a->c) == asD(a->c) : asF(a->c) == asF(a->c);
        if (a->op == Op::FRnd) return isNeverNaN(a->k[0]);
        if (a->op == Op::FExt || a->op == Op::FTrunc) return isNeverNaN(a->k[0]);
        if (a->op == Op::Ite) return isNeverNaN(a->k[1]) && isNeverNaN(a->k[2]);
        return false;
    }
    E fun1(Op op, unsigned w, E a, uint32_t aux = 0)
    {
        if (isC(a)) return fold1(op, w, a, aux);
        if (op == Op::FRnd && a->op == Op::FRnd) return a;
        if (op == Op::FRnd && a->op == Op::SIToFP) return a;
        if (op == Op::FRnd || (op == Op::FPToSI && a->w == 64))
        {
            E i;
            int k;
            if (exactInt(a, i, k) && k >= 0)
            {
                if (op == Op::FRnd) return a;
                if (k == 0 && i->w <= w) return SExt(i, w);
            }
        }
        return raw(op, w, a, nullptr, nullptr, aux);
    }

    // ---- symbol sets ----
    const std::vector<uint32_t> &symsOf(E e)
    {
        if (e->syms) return *e->syms;
        // iterative post-order
        std::vector<E> st{e};
        while (!st.empty())
        {
            E x = st.back();
            if (x->syms) { st.pop_back(); continue; }
            bool ok = true;
            for (int i = 0; i < x->n; i++)
                if (!x->k[i]->syms) { st.push_back(x->k[i]); ok = false; }
            if (!ok) continue;
            auto *v = new std::vector<uint32_t>;
            if (x->op == Op::Sym) v->push_back(x->aux);
            for (int i = 0; i < x->n; i++)
            {
                std::vector<uint32_t> m;
                std::set_union(v->begin(), v->end(), x->k[i]->syms->begin(), x->k[i]->syms->end(), std::back_inserter(m));
                v->swap(m);
            }
            const_cast<Expr *>(x)->syms = v;
            st.pop_back();
        }
        return *e->syms;
    }
};

// Evaluator under an assignment of symbols (missing symbols are 0)
struct Model
{
    std::unordered_map<uint32_t, uint64_t> v;
    mutable std::unordered_map<uint32_t, u128> memo;
    u128 sym(uint32_t s) const
    {
        auto it = v.find(s);
        return it == v.end() ? 0 : it->second;
    }
    u128 eval(E root) const
    {
        if (root->op == Op::Const) return root->c;
        auto it = memo.find(root->id);
        if (it != memo.end()) return it->second;
        std::vector<E> st{root};
        while (!st.empty())
        {
            E x = st.back();
            if (x->op == Op::Const || memo.count(x->id)) { st.pop_back(); continue; }
            bool ok = true;
            for (int i = 0; i < x->n; i++)
                if (x->k[i]->op != Op::Const && !memo.count(x->k[i]->id)) { st.push_back(x->k[i]); ok = false; }
            if (!ok) continue;
            u128 r;
            if (x->op == Op::Sym) r = sym(x->aux);
            else
            {
                u128 a[3] = {0, 0, 0};
                for (int i = 0; i < x->n; i++)
                    a[i] = x->k[i]->op == Op::Const ? x->k[i]->c : memo[x->k[i]->id];
                r = ExprMgr::evalOp(x->op, x->w, x->aux, x->k[0]->w, a[0], x->n > 1 ? x->k[1]->w : 0, a[1], a[2]);
            }
            memo[x->id] = r;
            st.pop_back();
        }
        return memo[root->id];
    }
};
