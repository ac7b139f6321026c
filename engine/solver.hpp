// SMT back end: translates Expr to Z3 (exact IEEE, uninterpreted-FP abstraction, or linear-real relaxation).
#pragma once
#include "expr.hpp"
#include <algorithm>
#include <chrono>
#include <map>
#include <memory>
#include <z3++.h>

enum class Res { Sat, Unsat, Unknown };

static std::string exprStr(E e, int depth)
{
    static const char *N[] = {"Const", "Sym", "Tuple", "Add", "Sub", "Mul", "UDiv", "SDiv", "URem", "SRem", "And", "Or", "Xor", "Shl", "LShr", "AShr", "Not", "Eq", "Ult", "Ule", "Slt", "Sle",
                              "Concat", "Extract", "ZExt", "SExt", "Ite", "FAdd", "FSub", "FMul", "FDiv", "FSqrt", "FRem", "FEq", "FLt", "FLe", "FUno", "FRnd", "SIToFP", "UIToFP", "FPToSI", "FPToUI", "FExt", "FTrunc"};
    char b[64];
    if (e->op == Op::Const) { snprintf(b, sizeof b, "%#llx:%d", (unsigned long long)e->c, (int)e->w); return b; }
    if (e->op == Op::Sym) { snprintf(b, sizeof b, "s%u:%d", (unsigned)e->aux, (int)e->w); return b; }
    if (depth == 0) return "..";
    std::string r = std::string(N[(int)e->op]);
    snprintf(b, sizeof b, "<%u>:%d(", (unsigned)e->aux, (int)e->w);
    r += b;
    for (int i = 0; i < e->n && i < 3; i++) r += exprStr(e->k[i], depth - 1) + " ";
    return r + ")";
}
struct SolverStats
{
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, ufUnsat = 0, lraUnsat = 0, fpaQueries = 0;
    double seconds = 0, maxq = 0;
};

struct Solver
{
    ExprMgr &M;
    z3::context ctx;
    SolverStats st;
    unsigned timeoutMs = 10000;   // exact query
    unsigned fpTimeoutMs = 20000; // exact FP query
    bool useLra = false;
    std::vector<std::unique_ptr<z3::expr>> cacheBV[2]; // [0] exact, [1] UF arithmetic
    std::vector<std::unique_ptr<z3::expr>> cacheFP[2];
    std::map<std::pair<int, unsigned>, z3::func_decl> ufs;
    std::unordered_map<std::string, std::pair<Res, std::shared_ptr<Model>>> qcache;
    z3::sort fp64, fp32;

    Solver(ExprMgr &m) : M(m), fp64(ctx.fpa_sort(11, 53)), fp32(ctx.fpa_sort(8, 24)) {}

    z3::expr wrap(Z3_ast a) { ctx.check_error(); return z3::expr(ctx, a); }
    z3::expr bvconst(u128 v, unsigned w)
    {
        if (w <= 64) return ctx.bv_val((uint64_t)v, w);
        return z3::concat(ctx.bv_val((uint64_t)(v >> 64), w - 64), ctx.bv_val((uint64_t)v, 64));
    }
    z3::expr rne() { return wrap(Z3_mk_fpa_rne(ctx)); }
    z3::expr rmOf(uint32_t aux)
    {
        switch (aux)
        {
        case RND_RNA: return wrap(Z3_mk_fpa_rna(ctx));
        case RND_FLOOR: return wrap(Z3_mk_fpa_rtn(ctx));
        case RND_CEIL: return wrap(Z3_mk_fpa_rtp(ctx));
        case RND_TRUNC: return wrap(Z3_mk_fpa_rtz(ctx));
        default: return rne();
        }
    }
    z3::sort fps(unsigned w) { return w == 64 ? fp64 : fp32; }
    z3::expr b2bv(const z3::expr &b) { return z3::ite(b, ctx.bv_val(1, 1), ctx.bv_val(0, 1)); }

    static bool isFpValued(E e)
    {
        switch (e->op)
        {
        case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FSqrt: case Op::FRem: case Op::FRnd:
        case Op::SIToFP: case Op::UIToFP: case Op::FExt: case Op::FTrunc: return true;
        default: return false;
        }
    }
    static bool isArith(E e) { return e->op >= Op::FAdd && e->op <= Op::FRem; }

    z3::expr toFP(E e, int uf)
    {
        auto &C = cacheFP[uf];
        if (C.size() <= e->id) C.resize(M.next + 1024);
        if (C[e->id]) return *C[e->id];
        z3::expr r(ctx);
        auto bin = [&](Z3_ast (*f)(Z3_context, Z3_ast, Z3_ast, Z3_ast))
        {
            z3::expr a = toFP(e->k[0], uf), b = toFP(e->k[1], uf);
            return wrap(f(ctx, rne(), a, b));
        };
        if (isFpValued(e) && !(uf && isArith(e)))
        {
            switch (e->op)
            {
            case Op::FAdd: r = bin(Z3_mk_fpa_add); break;
            case Op::FSub: r = bin(Z3_mk_fpa_sub); break;
            case Op::FMul: r = bin(Z3_mk_fpa_mul); break;
            case Op::FDiv: r = bin(Z3_mk_fpa_div); break;
            case Op::FRem: { z3::expr a = toFP(e->k[0], uf), b = toFP(e->k[1], uf); r = wrap(Z3_mk_fpa_rem(ctx, a, b)); break; }
            case Op::FSqrt: r = wrap(Z3_mk_fpa_sqrt(ctx, rne(), toFP(e->k[0], uf))); break;
            case Op::FRnd: r = wrap(Z3_mk_fpa_round_to_integral(ctx, rmOf(e->aux), toFP(e->k[0], uf))); break;
            case Op::SIToFP: r = wrap(Z3_mk_fpa_to_fp_signed(ctx, rne(), toBV(e->k[0], uf), fps(e->w))); break;
            case Op::UIToFP: r = wrap(Z3_mk_fpa_to_fp_unsigned(ctx, rne(), toBV(e->k[0], uf), fps(e->w))); break;
            default: r = wrap(Z3_mk_fpa_to_fp_float(ctx, rne(), toFP(e->k[0], uf), fps(e->w))); break;
            }
        }
        else if (e->op == Op::Ite)
            r = z3::ite(toB(e->k[0], uf), toFP(e->k[1], uf), toFP(e->k[2], uf));
        else
            r = wrap(Z3_mk_fpa_to_fp_bv(ctx, toBV(e, uf), fps(e->w)));
        C[e->id].reset(new z3::expr(r));
        return r;
    }
    z3::func_decl ufOf(E e)
    {
        auto key = std::make_pair((int)e->op, (unsigned)e->w);
        auto it = ufs.find(key);
        if (it != ufs.end()) return it->second;
        z3::sort s = ctx.bv_sort(e->w);
        std::string nm = "uf" + std::to_string((int)e->op) + "_" + std::to_string(e->w);
        z3::func_decl f = e->n == 1 ? ctx.function(nm.c_str(), s, s) : ctx.function(nm.c_str(), s, s, s);
        ufs.emplace(key, f);
        return f;
    }
    // 1-bit expr to Bool
    z3::expr toB(E e, int uf)
    {
        assert(e->w == 1);
        switch (e->op)
        {
        case Op::Const: return ctx.bool_val(e->c != 0);
        case Op::Not: return !toB(e->k[0], uf);
        default: break;
        }
        return toBV(e, uf) == ctx.bv_val(1, 1);
    }
    z3::expr toBV(E root, int uf)
    {
        auto &C = cacheBV[uf];
        if (C.size() <= root->id) C.resize(M.next + 1024);
        if (C[root->id]) return *C[root->id];
        // iterative on deep bit-vector DAGs
        std::vector<E> stk{root};
        while (!stk.empty())
        {
            E e = stk.back();
            if (C.size() <= e->id) C.resize(M.next + 1024);
            if (C[e->id]) { stk.pop_back(); continue; }
            bool ok = true;
            for (int i = 0; i < e->n; i++)
            {
                if (C.size() <= e->k[i]->id) C.resize(M.next + 1024);
                if (!C[e->k[i]->id] && !isFpValued(e->k[i])) { stk.push_back(e->k[i]); ok = false; }
            }
            if (!ok) continue;
            z3::expr r = conv(e, uf);
            if (C.size() <= e->id) C.resize(M.next + 1024);
            C[e->id].reset(new z3::expr(r));
            stk.pop_back();
        }
        return *C[root->id];
    }
    z3::expr conv(E e, int uf)
    {
        auto k = [&](int i) { return toBV(e->k[i], uf); };
        switch (e->op)
        {
        case Op::Const: return bvconst(e->c, e->w);
        case Op::Sym: return ctx.bv_const(("s" + std::to_string(e->aux)).c_str(), e->w);
        case Op::Add: return k(0) + k(1);
        case Op::Sub: return k(0) - k(1);
        case Op::Mul: return k(0) * k(1);
        case Op::UDiv: return z3::udiv(k(0), k(1));
        case Op::SDiv: return k(0) / k(1);
        case Op::URem: return z3::urem(k(0), k(1));
        case Op::SRem: return z3::srem(k(0), k(1));
        case Op::And: return k(0) & k(1);
        case Op::Or: return k(0) | k(1);
        case Op::Xor: return k(0) ^ k(1);
        case Op::Not: return ~k(0);
        case Op::Shl: return z3::shl(k(0), k(1));
        case Op::LShr: return z3::lshr(k(0), k(1));
        case Op::AShr: return z3::ashr(k(0), k(1));
        case Op::Eq: return b2bv(k(0) == k(1));
        case Op::Ult: return b2bv(z3::ult(k(0), k(1)));
        case Op::Ule: return b2bv(z3::ule(k(0), k(1)));
        case Op::Slt: return b2bv(k(0) < k(1));
        case Op::Sle: return b2bv(k(0) <= k(1));
        case Op::Concat: return z3::concat(k(0), k(1));
        case Op::Extract: return k(0).extract(e->aux + e->w - 1, e->aux);
        case Op::ZExt: return z3::zext(k(0), e->w - e->k[0]->w);
        case Op::SExt: return z3::sext(k(0), e->w - e->k[0]->w);
        case Op::Ite: return z3::ite(k(0) == ctx.bv_val(1, 1), k(1), k(2));
        case Op::FEq: return b2bv(wrap(Z3_mk_fpa_eq(ctx, toFP(e->k[0], uf), toFP(e->k[1], uf))));
        case Op::FLt: return b2bv(wrap(Z3_mk_fpa_lt(ctx, toFP(e->k[0], uf), toFP(e->k[1], uf))));
        case Op::FLe: return b2bv(wrap(Z3_mk_fpa_leq(ctx, toFP(e->k[0], uf), toFP(e->k[1], uf))));
        case Op::FUno:
        {
            z3::expr a = wrap(Z3_mk_fpa_is_nan(ctx, toFP(e->k[0], uf)));
            if (e->k[0] == e->k[1]) return b2bv(a);
            return b2bv(a || wrap(Z3_mk_fpa_is_nan(ctx, toFP(e->k[1], uf))));
        }
        case Op::FPToSI:
        {
            z3::expr x = toFP(e->k[0], uf);
            unsigned hw = e->w <= 32 ? 32 : 64;
            double lim = hw == 32 ? 2147483648.0 : 9223372036854775808.0;
            z3::expr hi = wrap(Z3_mk_fpa_numeral_double(ctx, lim, fps(e->k[0]->w)));
            // trunc(x) in [-lim, lim)
            z3::expr lo = hw == 32 && e->k[0]->w == 64 ? wrap(Z3_mk_fpa_gt(ctx, x, wrap(Z3_mk_fpa_numeral_double(ctx, -2147483649.0, fp64))))
                                                       : wrap(Z3_mk_fpa_geq(ctx, x, wrap(Z3_mk_fpa_numeral_double(ctx, -lim, fps(e->k[0]->w)))));
            z3::expr in = lo && wrap(Z3_mk_fpa_lt(ctx, x, hi));
            z3::expr v = wrap(Z3_mk_fpa_to_sbv(ctx, wrap(Z3_mk_fpa_rtz(ctx)), x, hw));
            z3::expr r = z3::ite(in, v, bvconst((u128)1 << (hw - 1), hw));
            return e->w == hw ? r : r.extract(e->w - 1, 0);
        }
        case Op::FPToUI:
        {
            z3::expr x = toFP(e->k[0], uf);
            unsigned hw = e->w < 32 ? 32 : 64;
            if (e->w == 64)
            {
                z3::expr v = wrap(Z3_mk_fpa_to_ubv(ctx, wrap(Z3_mk_fpa_rtz(ctx)), x, 64));
                return v;
            }
            z3::expr v = wrap(Z3_mk_fpa_to_sbv(ctx, wrap(Z3_mk_fpa_rtz(ctx)), x, hw));
            return v.extract(e->w - 1, 0);
        }
        default: break;
        }
        if (uf && isArith(e))
        {
            z3::func_decl f = ufOf(e);
            return e->n == 1 ? f(k(0)) : f(k(0), k(1));
        }
        if (isFpValued(e)) return wrap(Z3_mk_fpa_to_ieee_bv(ctx, toFP(e, uf)));
        fprintf(stderr, "conv: bad op %d\n", (int)e->op);
        abort();
    }

    // ---------- linear real relaxation ----------
    // FP nodes become reals with relative/absolute error terms; integers become Int. Sound for "unsat" only.
    struct Lra
    {
        Solver &S;
        z3::context &ctx;
        z3::solver &sol;
        bool ok = true;
        std::unordered_map<E, z3::expr> R, I;
        int fresh = 0;
        Lra(Solver &s, z3::solver &so) : S(s), ctx(s.ctx), sol(so) {}
        z3::expr fail() { ok = false; return ctx.real_val(0); }
        z3::expr realOf(double d)
        {
            // exact rational of a finite double
            int ex;
            double m = frexp(d, &ex); // m in [0.5,1)
            long long mi = (long long)ldexp(m, 53);
            ex -= 53;
            std::string s = std::to_string(mi);
            z3::expr v = ctx.real_val(s.c_str());
            z3::expr two = ctx.real_val(2);
            // build 2^|ex| as numeral
            std::string p = pow2str(ex < 0 ? -ex : ex);
            z3::expr pw = ctx.real_val(p.c_str());
            return (ex < 0 ? v / pw : v * pw).simplify();
        }
        static std::string pow2str(int k)
        {
            std::vector<int> d{1};
            for (int i = 0; i < k; i++)
            {
                int c = 0;
                for (auto &x : d) { x = x * 2 + c; c = x / 10; x %= 10; }
                if (c) d.push_back(c);
            }
            std::string s;
            for (auto it = d.rbegin(); it != d.rend(); ++it) s += char('0' + *it);
            return s;
        }
        bool constFp(E e, double &d)
        {
            if (e->op != Op::Const || (e->w != 64 && e->w != 32)) return false;
            d = e->w == 64 ? asD(e->c) : (double)asF(e->c);
            return std::isfinite(d);
        }
        z3::expr addErr(z3::expr exact, unsigned w)
        {
            // |fl - exact| <= 2^-53 |exact| + 2^-1074 (binary32: 2^-24, 2^-149)
            z3::expr r = ctx.real_const(("fl" + std::to_string(fresh++)).c_str());
            z3::expr u = ctx.real_val(1) / ctx.real_val(pow2str(w == 64 ? 53 : 24).c_str());
            z3::expr tiny = ctx.real_val(1) / ctx.real_val(pow2str(w == 64 ? 200 : 140).c_str()); // coarser than 2^-1074 / 2^-149: still sound, far cheaper
            z3::expr ab = z3::ite(exact >= 0, exact, -exact);
            z3::expr bound = u * ab + tiny;
            sol.add(r - exact <= bound && exact - r <= bound);
            return r;
        }
        z3::expr real(E e)
        {
            auto it = R.find(e);
            if (it != R.end()) return it->second;
            z3::expr r = real0(e);
            R.emplace(e, r);
            return r;
        }
        z3::expr real0(E e)
        {
            double d;
            switch (e->op)
            {
            case Op::Const:
                if (constFp(e, d)) return realOf(d);
                return fail();
            case Op::Sym:
                return ctx.real_const(("r" + std::to_string(e->aux)).c_str());
            case Op::SIToFP:
                if (e->w == 32)
                {
                    if (e->k[0]->w <= 25) return z3::to_real(integer(e->k[0]));
                    return addErr(z3::to_real(integer(e->k[0])), 32);
                }
                if (e->k[0]->w <= 53) return z3::to_real(integer(e->k[0]));
                if (e->k[0]->op == Op::SExt && e->k[0]->k[0]->w <= 53) return z3::to_real(integer(e->k[0]->k[0]));
                return fail();
            case Op::FAdd: return addErr(real(e->k[0]) + real(e->k[1]), e->w);
            case Op::FSub: return addErr(real(e->k[0]) - real(e->k[1]), e->w);
            case Op::FMul:
                if (constFp(e->k[0], d) || constFp(e->k[1], d)) return addErr(real(e->k[0]) * real(e->k[1]), e->w);
                return fail();
            case Op::FDiv:
                if (constFp(e->k[1], d) && d != 0) return addErr(real(e->k[0]) / real(e->k[1]), e->w);
                return fail();
            case Op::FRnd:
            {
                z3::expr x = real(e->k[0]);
                z3::expr i = ctx.int_const(("rn" + std::to_string(fresh++)).c_str());
                z3::expr r = z3::to_real(i);
                z3::expr h = ctx.real_val(1, 2);
                switch (e->aux)
                {
                case RND_RNA: case RND_RNE: sol.add(r - x <= h && x - r <= h); break;
                case RND_FLOOR: sol.add(r <= x && x < r + 1); break;
                case RND_CEIL: sol.add(r >= x && x > r - 1); break;
                case RND_TRUNC: sol.add(z3::ite(x >= 0, r <= x && x < r + 1, r >= x && x > r - 1)); break;
                }
                return r;
            }
            case Op::FExt: return real(e->k[0]);
            case Op::FTrunc: return addErr(real(e->k[0]), 32);
            case Op::ZExt: // fabs
                if (e->k[0]->op == Op::Extract && e->k[0]->aux == 0 && e->k[0]->w == e->w - 1 && e->k[0]->k[0]->w == e->w) { z3::expr x = real(e->k[0]->k[0]); return z3::ite(x >= 0, x, -x); }
                return fail();
            case Op::Concat: // fabs
                if (e->k[0]->op == Op::Const && e->k[0]->c == 0 && e->k[0]->w == 1 && e->k[1]->op == Op::Extract && e->k[1]->aux == 0 && e->k[1]->k[0]->w == e->w) { z3::expr x = real(e->k[1]->k[0]); return z3::ite(x >= 0, x, -x); }
                return fail();
            case Op::And: // fabs
                if (e->k[1]->op == Op::Const && e->k[1]->c == maskW(e->w - 1)) { z3::expr x = real(e->k[0]); return z3::ite(x >= 0, x, -x); }
                return fail();
            case Op::Xor: // negation
                if (e->k[1]->op == Op::Const && e->k[1]->c == (u128)1 << (e->w - 1)) return -real(e->k[0]);
                return fail();
            case Op::Ite: return z3::ite(boolean(e->k[0]), real(e->k[1]), real(e->k[2]));
            default: return fail();
            }
        }
        // signed integer value
        z3::expr integer(E e)
        {
            auto it = I.find(e);
            if (it != I.end()) return it->second;
            z3::expr r = int0(e);
            I.emplace(e, r);
            return r;
        }
        z3::expr ipow(unsigned k) { return ctx.int_val(pow2str(k).c_str()); }
        z3::expr int0(E e)
        {
            switch (e->op)
            {
            case Op::Const: { i128 v = sextW(e->c, e->w); return ctx.int_val((int64_t)v); }
            case Op::Sym:
            {
                z3::expr i = ctx.int_const(("i" + std::to_string(e->aux)).c_str());
                sol.add(i >= -ipow(e->w - 1) && i < ipow(e->w - 1));
                return i;
            }
            case Op::SExt: return integer(e->k[0]);
            case Op::Add: case Op::Sub:
            {
                // exact when the operands are sign extensions with a spare bit
                auto sp = [&](E x) { return x->op == Op::SExt ? x->k[0]->w < x->w : x->op == Op::Const ? (i128)sextW(x->c, x->w) < ((i128)1 << (x->w - 2)) && (i128)sextW(x->c, x->w) > -((i128)1 << (x->w - 2)) : false; };
                if (!sp(e->k[0]) || !sp(e->k[1])) { ok = false; return ctx.int_val(0); }
                z3::expr a = integer(e->k[0]), b = integer(e->k[1]);
                return e->op == Op::Add ? a + b : a - b;
            }
            case Op::Ite: return z3::ite(boolean(e->k[0]), integer(e->k[1]), integer(e->k[2]));
            case Op::FPToSI:
            {
                z3::expr x = real(e->k[0]);
                z3::expr i = ctx.int_const(("ts" + std::to_string(fresh++)).c_str());
                z3::expr r = z3::to_real(i);
                if (e->w != 32 && e->w != 64)
                {
                    z3::expr tr = z3::ite(x >= 0, r <= x && x < r + 1, r >= x && x > r - 1);
                    sol.add(i >= -ipow(e->w - 1) && i < ipow(e->w - 1));
                    sol.add(z3::implies(x > -z3::to_real(ipow(e->w - 1)) - 1 && x < z3::to_real(ipow(e->w - 1)), tr));
                    return i;
                }
                unsigned hw = e->w;
                z3::expr tr = z3::ite(x >= 0, r <= x && x < r + 1, r >= x && x > r - 1);
                z3::expr inr = x > -z3::to_real(ipow(hw - 1)) - 1 && x < z3::to_real(ipow(hw - 1));
                sol.add(z3::ite(inr, tr, i == -ipow(hw - 1)));
                return i;
            }
            default: ok = false; return ctx.int_val(0);
            }
        }
        z3::expr boolean(E e)
        {
            switch (e->op)
            {
            case Op::Const: return ctx.bool_val(e->c != 0);
            case Op::Not: return !boolean(e->k[0]);
            case Op::And: return boolean(e->k[0]) && boolean(e->k[1]);
            case Op::Or: return boolean(e->k[0]) || boolean(e->k[1]);
            case Op::Xor: return boolean(e->k[0]) != boolean(e->k[1]);
            case Op::Eq: return integer(e->k[0]) == integer(e->k[1]);
            case Op::Slt: return integer(e->k[0]) < integer(e->k[1]);
            case Op::Sle: return integer(e->k[0]) <= integer(e->k[1]);
            case Op::FEq: return real(e->k[0]) == real(e->k[1]);
            case Op::FLt: return real(e->k[0]) < real(e->k[1]);
            case Op::FLe: return real(e->k[0]) <= real(e->k[1]);
            case Op::FUno:
                // values in this relaxation are finite; see noNaN
                return ctx.bool_val(false);
            default: ok = false; return ctx.bool_val(true);
            }
        }
    };
    // The relaxation treats every double symbol as a finite real, so it may be used only when the constraints
    // bound all real symbols (checked by the harness author: --lra is opt-in per harness) .
    // On sat, `guess` is the relaxation's model rounded to doubles: a candidate that the caller must validate exactly.
    bool lraUnsat(const std::vector<E> &cs, const std::vector<uint32_t> &syms, std::shared_ptr<Model> &guess)
    {
        z3::solver s(ctx);
        z3::params p(ctx);
        p.set("timeout", timeoutMs);
        s.set(p);
        Lra L(*this, s);
        bool any = false;
        for (E c : cs)
        {
            L.ok = true;
            z3::expr b = L.boolean(c);
            if (!L.ok && getenv("VP_LRADUMP")) fprintf(stderr, "untranslatable: %s\n", exprStr(c, 12).c_str());
            if (L.ok) { s.add(b); any = true; } // dropping an untranslatable constraint is sound for unsat
        }
        if (!any) return false;
        if (getenv("VP_LRADUMP")) { static int n = 0; FILE *f = fopen((std::string(getenv("VP_LRADUMP")) + std::to_string(n++) + ".smt2").c_str(), "w"); fputs(s.to_smt2().c_str(), f); fclose(f); }
        auto t0 = std::chrono::steady_clock::now();
        z3::check_result cr = s.check();
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        st.seconds += dt;
        st.queries++;
        if (dt > st.maxq) st.maxq = dt;
        if (cr == z3::sat)
        {
            z3::model m = s.get_model();
            guess = std::make_shared<Model>();
            for (uint32_t y : syms)
            {
                E e = M.syms[y].e;
                uint64_t v = 0;
                std::string rn = "r" + std::to_string(e->aux), in = "i" + std::to_string(e->aux);
                for (unsigned i = 0; i < m.num_consts(); i++)
                {
                    z3::func_decl d = m.get_const_decl(i);
                    std::string nm = d.name().str();
                    if (nm != rn && nm != in) continue;
                    z3::expr x = m.get_const_interp(d);
                    if (nm == in) { int64_t t = 0; if (x.is_numeral_i64(t)) v = (uint64_t)t & (uint64_t)maskW(e->w); }
                    else if (x.is_numeral())
                    {
                        double t = Z3_get_numeral_double(ctx, x);
                        if (e->w == 64) std::memcpy(&v, &t, 8);
                        else { float f = (float)t; uint32_t u; std::memcpy(&u, &f, 4); v = u; }
                    }
                }
                guess->v[y] = v;
            }
        }
        return cr == z3::unsat;
    }

    // ---------- queries ----------
    std::shared_ptr<Model> getModel(z3::model m, const std::vector<uint32_t> &syms)
    {
        auto r = std::make_shared<Model>();
        for (uint32_t s : syms)
        {
            z3::expr v = m.eval(toBV(M.syms[s].e, 0), true);
            uint64_t x = 0;
            if (v.is_numeral()) { if (!v.is_numeral_u64(x)) x = 0; }
            r->v[s] = x;
        }
        return r;
    }
    Res runZ3(const std::vector<E> &cs, int uf, unsigned tmo, const std::vector<uint32_t> &syms, std::shared_ptr<Model> &out, bool fp)
    {
        auto t0 = std::chrono::steady_clock::now();
        z3::check_result r = z3::unknown;
        try
        {
            z3::params p(ctx);
            p.set("timeout", tmo);
            z3::solver s = fp && !uf ? z3::tactic(ctx, "qffp").mk_solver() : z3::solver(ctx, z3::solver::simple());
            s.set(p);
            for (E c : cs) s.add(toB(c, uf));
            r = s.check();
            if (r == z3::sat) out = getModel(s.get_model(), syms);
            else if (r == z3::unknown && !fp)
            {
                z3::solver s2 = z3::tactic(ctx, "qfaufbv").mk_solver();
                s2.set(p);
                for (E c : cs) s2.add(toB(c, uf));
                r = s2.check();
                if (r == z3::sat) out = getModel(s2.get_model(), syms);
            }
        }
        catch (z3::exception &ex)
        {
            fprintf(stderr, "z3: %s\n", ex.msg());
            r = z3::unknown;
        }
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        st.seconds += dt;
        st.queries++;
        if (dt > st.maxq) st.maxq = dt;
        return r == z3::sat ? Res::Sat : r == z3::unsat ? Res::Unsat : Res::Unknown;
    }
    bool lraGuess(const std::vector<E> &cs, std::shared_ptr<Model> &g)
    {
        for (E c : cs) if (!g->eval(c)) return false;
        return true;
    }
    // is the conjunction satisfiable?  `hint` seeds values of symbols outside the slice
    Res check(std::vector<E> cs, std::shared_ptr<Model> &out)
    {
        std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
        cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
        std::string key;
        for (E c : cs)
        {
            if (c->op == Op::Const)
            {
                if (!c->c) { st.modelHits++; return Res::Unsat; }
                continue;
            }
            key.append((const char *)&c->id, 4);
        }
        auto it = qcache.find(key);
        if (it != qcache.end())
        {
            st.cacheHits++;
            out = it->second.second;
            return it->second.first;
        }
        std::vector<uint32_t> syms;
        bool fp = false, cvt = false;
        for (E c : cs)
        {
            fp |= c->hasFpArith;
            cvt |= c->hasCvt;
            auto &v = M.symsOf(c);
            std::vector<uint32_t> m;
            std::set_union(syms.begin(), syms.end(), v.begin(), v.end(), std::back_inserter(m));
            syms.swap(m);
        }
        Res r;
        std::shared_ptr<Model> m;
        std::shared_ptr<Model> lg0;
        if (!fp && cvt && useLra && lraUnsat(cs, syms, lg0)) { r = Res::Unsat; st.lraUnsat++; }
        else if (lg0 && lraGuess(cs, lg0)) { r = Res::Sat; m = lg0; }
        else if (!fp) r = runZ3(cs, 0, timeoutMs, syms, m, false);
        else
        {
            r = runZ3(cs, 1, timeoutMs, syms, m, true);
            if (r == Res::Unsat) st.ufUnsat++;
            if (r != Res::Unsat)
            {
                bool good = r == Res::Sat;
                std::shared_ptr<Model> lg;
                if (good) for (E c : cs) if (!m->eval(c)) { good = false; break; }
                if (good) r = Res::Sat;
                else if (useLra && lraUnsat(cs, syms, lg)) { r = Res::Unsat; st.lraUnsat++; }
                else if (lg && lraGuess(cs, lg)) { r = Res::Sat; m = lg; }
                else
                {
                    st.fpaQueries++;
                    if (getenv("VP_LRADUMP")) { fprintf(stderr, "fpa query:\n"); for (E c : cs) fprintf(stderr, "   [%d] %s\n", lg ? (int)(lg->eval(c) != 0) : -1, exprStr(c, 14).c_str()); if (lg) for (auto &y : lg->v) fprintf(stderr, "   s%u=%a\n", y.first, asD(y.second)); }
                    r = runZ3(cs, 0, fpTimeoutMs, syms, m, true);
                    if (r == Res::Sat) for (E c : cs) if (!m->eval(c)) { r = Res::Unknown; break; }
                }
            }
        }
        if (r == Res::Sat) st.sat++;
        else if (r == Res::Unsat) st.unsat++;
        else st.unknown++;
        qcache[key] = {r, m};
        out = m;
        return r;
    }
};
