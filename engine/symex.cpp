// Symbolic executor for LLVM-18 bitcode of the real copc-lib sources.  See DESIGN.md ("Engine").
#include "solver.hpp"
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <llvm/ADT/DenseMap.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <set>
#include <sstream>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

using namespace llvm;
typedef std::shared_ptr<Model> ModelP;

static ExprMgr M;
static Solver *S;

// ------------------------------------------------------------------ memory
struct SymB
{
    E e;
    uint32_t idx;
};
struct Obj
{
    uint32_t refs = 0;
    uint32_t size = 0;
    uint8_t kind = 0; // 0 global 1 heap(malloc) 2 stack 3 function 4 heap(new) 5 heap(new[])
    bool ro = false;
    uint8_t *data = nullptr;
    SymB *sym = nullptr;
    const char *what = "";
    Obj(uint32_t n) : size(n) { data = (uint8_t *)malloc(n ? n : 1); }
    ~Obj()
    {
        free(data);
        free(sym);
    }
    Obj *clone() const
    {
        Obj *o = new Obj(size);
        memcpy(o->data, data, size);
        if (sym)
        {
            o->sym = (SymB *)malloc(sizeof(SymB) * (size ? size : 1));
            memcpy(o->sym, sym, sizeof(SymB) * size);
        }
        o->kind = kind;
        o->ro = ro;
        o->what = what;
        return o;
    }
};
struct ObjP
{
    Obj *p = nullptr;
    ObjP() {}
    ObjP(Obj *o) : p(o) { if (p) p->refs++; }
    ObjP(const ObjP &o) : p(o.p) { if (p) p->refs++; }
    ObjP(ObjP &&o) noexcept : p(o.p) { o.p = nullptr; }
    ObjP &operator=(ObjP o) noexcept { std::swap(p, o.p); return *this; }
    ~ObjP() { if (p && --p->refs == 0) delete p; }
};
static const unsigned SLOT_BITS = 24; // every object lives in its own 16 MiB slot
static bool addrDesc = false;
static const uint64_t DESC_TOP = 1ull << 22;
static uint64_t heapAddr(uint32_t id) { return (addrDesc ? (uint64_t)(DESC_TOP + DESC_TOP - id) : (uint64_t)id) << SLOT_BITS; }
static uint64_t idOfAddr(uint64_t a, bool &valid)
{
    uint64_t s = a >> SLOT_BITS;
    valid = s < (1ull << 30);
    return s;
}

// ------------------------------------------------------------------ lowered code
struct Opnd
{
    int slot = -1; // register, or
    E c = nullptr; // constant
};
struct Ins
{
    Instruction *I;
    unsigned op;
    int dst = -1;
    std::vector<Opnd> o;
};
struct BBInfo
{
    std::vector<Ins> ins;
    BasicBlock *bb;
};
struct FnInfo
{
    Function *F;
    int nslots = 0;
    std::vector<BBInfo> bbs;
    DenseMap<const BasicBlock *, int> bbIdx;
    std::vector<std::pair<int, Opnd>> dummy;
    bool lowered = false;
    bool fromRepo = false;
    std::string nice;
    uint64_t prof = 0;
};

struct Frame
{
    FnInfo *f;
    int bb = 0, prev = -1;
    unsigned pc = 0;
    std::vector<E> regs;
    std::vector<uint32_t> allocas;
    std::vector<E> varargs;
    E lp = nullptr; // pending landing pad value (tuple)
};

struct State
{
    std::vector<Frame> stk;
    std::vector<ObjP> mem;
    std::vector<E> pc;
    ModelP model; // satisfies pc
    std::map<std::string, unsigned> nameCnt;
    std::vector<std::pair<std::string, E>> obs;
    std::vector<std::string> reached;
    uint64_t steps = 0;
    unsigned forks = 0;
    int fill = -1;       // content of fresh memory; -1: the usual ones
    bool approx = false; // some branch on this path was not decided
    std::vector<uint32_t> symsUsed;
};

// ------------------------------------------------------------------ options / results
static std::string optEntry, optOut, optRepo = "/repo/";
static std::map<std::string, long> params;
static double optTime = 100;
static uint64_t optMaxSteps = 20000000, optMaxPaths = 1000000;
static unsigned optSamples = 4, optMaxErr = 8, optMaxDepth = 600;
static unsigned optMemMB = 6000;
static bool optVerbose = false;

struct Err
{
    std::string kind, label, where;
    std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>> model;
};
static std::vector<Err> errors;
static std::map<std::string, unsigned> errCount;
struct Sample
{
    std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>> model;
    std::vector<std::pair<std::string, uint64_t>> obs;
    std::string end;
};
static std::vector<Sample> samples;
static uint64_t nPaths = 0, nExit = 0, nErrPaths = 0, nKilled = 0, nForks = 0, nSteps = 0, nInfeasible = 0, nAsserts = 0, nAssertQ = 0, nAssertUnknown = 0,
                nBranchUnknown = 0, nUnsupported = 0;
static std::map<std::string, uint64_t> assertCnt, reachCnt, unkAsserts, unsupported;
static std::set<FnInfo *> repoFns, otherFns;
static std::set<const BasicBlock *> repoBBs;
static bool incomplete = false;
static std::string incompleteWhy;
static std::chrono::steady_clock::time_point T0;

static Module *Mod;
static const DataLayout *DL;
static DenseMap<const Function *, FnInfo *> fnInfo;
static DenseMap<const GlobalValue *, uint64_t> gaddr;
static std::unordered_map<uint64_t, Function *> fnAtId;
static std::vector<ObjP> initMem;
static std::vector<State *> work;
static State *cur; // state being executed

struct PathEnd
{
    std::string why;
    bool err;
};

static FnInfo *getFn(Function *F);
static uint64_t elapsedMs() { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - T0).count(); }

static std::string whereStr(State &s)
{
    std::string r;
    int n = 0;
    for (int i = (int)s.stk.size() - 1; i >= 0 && n < 12; i--)
    {
        Frame &f = s.stk[i];
        unsigned pc = f.pc;
        auto &b = f.f->bbs[f.bb].ins;
        if (pc >= b.size()) pc = b.size() - 1;
        // pc may already point past the current instruction
        const DebugLoc &dl = b[pc].I->getDebugLoc();
        const DebugLoc *d = &dl;
        if (!*d && pc > 0) d = &b[pc - 1].I->getDebugLoc();
        std::string loc;
        if (*d)
        {
            auto *sc = cast<DIScope>(d->getScope());
            loc = sc->getFilename().str() + ":" + std::to_string(d->getLine());
        }
        if (!r.empty()) r += " < ";
        r += f.f->F->getName().str() + (loc.empty() ? "" : "@" + loc);
        n++;
    }
    return r;
}

static std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>> dumpModel(State &s, const Model &m)
{
    std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>> r;
    for (uint32_t id : s.symsUsed) r.push_back({M.syms[id].name, {M.syms[id].w, (uint64_t)m.sym(id)}});
    return r;
}

static void report(State &s, const std::string &kind, const std::string &label, ModelP m)
{
    std::string key = kind + "|" + label;
    if (kind != "assert") key += whereStr(s);
    if (errCount[key]++ >= optMaxErr) return;
    Err e;
    e.kind = kind;
    e.label = label;
    e.where = whereStr(s);
    if (m) e.model = dumpModel(s, *m);
    errors.push_back(e);
    if (optVerbose) fprintf(stderr, "ERR %s %s @ %s\n", kind.c_str(), label.c_str(), e.where.c_str());
}
[[noreturn]] static void die(State &s, const std::string &kind, const std::string &label)
{
    report(s, kind, label, s.model);
    throw PathEnd{kind + ":" + label, true};
}
[[noreturn]] static void unsupp(State &s, const std::string &what)
{
    unsupported[what + " @ " + whereStr(s)]++;
    nUnsupported++;
    incomplete = true;
    if (incompleteWhy.empty()) incompleteWhy = "unsupported: " + what;
    throw PathEnd{"unsupported", false};
}

// ------------------------------------------------------------------ path conditions
static void sliceFor(State &s, E c, std::vector<E> &out)
{
    // transitive closure over shared symbols
    std::unordered_set<uint32_t> syms(M.symsOf(c).begin(), M.symsOf(c).end());
    std::vector<char> used(s.pc.size(), 0);
    bool ch = true;
    while (ch)
    {
        ch = false;
        for (size_t i = 0; i < s.pc.size(); i++)
            if (!used[i])
            {
                auto &v = M.symsOf(s.pc[i]);
                bool hit = false;
                for (uint32_t x : v)
                    if (syms.count(x)) { hit = true; break; }
                if (hit)
                {
                    used[i] = 1;
                    ch = true;
                    for (uint32_t x : v) syms.insert(x);
                }
            }
    }
    for (size_t i = 0; i < s.pc.size(); i++)
        if (used[i]) out.push_back(s.pc[i]);
    out.push_back(c);
}
// satisfiability of pc && c ; on Sat, `m` is a full model of pc && c
static Res feasible(State &s, E c, ModelP &m)
{
    if (c->op == Op::Const)
    {
        m = s.model;
        return c->c ? Res::Sat : Res::Unsat;
    }
    if (s.model && s.model->eval(c))
    {
        S->st.modelHits++;
        m = s.model;
        return Res::Sat;
    }
    std::vector<E> cs;
    sliceFor(s, c, cs);
    ModelP r;
    Res x = S->check(cs, r);
    if (x == Res::Sat)
    {
        auto nm = std::make_shared<Model>();
        if (s.model) nm->v = s.model->v;
        for (auto &kv : r->v) nm->v[kv.first] = kv.second;
        m = nm;
    }
    return x;
}
static void addPC(State &s, E c)
{
    if (c->op == Op::Const) return;
    if (c->op == Op::And)
    {
        addPC(s, c->k[0]);
        addPC(s, c->k[1]);
        return;
    }
    for (E x : s.pc)
        if (x == c) return;
    s.pc.push_back(c);
}
static State *cloneState(State &s)
{
    State *t = new State(s);
    t->forks++;
    nForks++;
    return t;
}
// Decide a symbolic condition: returns the value to follow in s; the other side (if feasible) is pushed on the worklist
// after `other` has been applied to the clone (which re-executes the same instruction unless changed).
static bool branch(State &s, E c, State **otherOut = nullptr)
{
    if (otherOut) *otherOut = nullptr;
    if (c->op == Op::Const) return c->c != 0;
    // syntactic: already known
    for (E x : s.pc)
    {
        if (x == c) return true;
        if (x == M.Not(c)) return false;
    }
    ModelP mt, mf;
    E nc = M.Not(c);
    Res rt = feasible(s, c, mt), rf = feasible(s, nc, mf);
    if (rt == Res::Unknown || rf == Res::Unknown)
    {
        nBranchUnknown++;
    }
    if (rt == Res::Unsat && rf == Res::Unsat)
    {
        nInfeasible++;
        throw PathEnd{"infeasible", false};
    }
    if (rt == Res::Unsat)
    {
        return false;
    }
    if (rf == Res::Unsat)
    {
        return true;
    }
    State *o = cloneState(s);
    addPC(*o, nc);
    o->model = rf == Res::Sat ? mf : nullptr;
    if (rf == Res::Unknown) o->approx = true;
    addPC(s, c);
    s.model = rt == Res::Sat ? mt : nullptr;
    if (rt == Res::Unknown) s.approx = true;
    if (otherOut) *otherOut = o;
    work.push_back(o);
    return true;
}
// pick a concrete value for e on this path, forking for all others
static uint64_t concretize(State &s, E e, const char *what)
{
    if (e->op == Op::Const) return (uint64_t)e->c;
    // The clone re-executes the current instruction with (e != v) added.
    ModelP m = s.model;
    if (!m)
    {
        Res r = feasible(s, M.T(), m);
        std::vector<E> cs = s.pc;
        ModelP r2;
        r = S->check(cs, r2);
        if (r != Res::Sat) unsupp(s, std::string("no model to concretize ") + what);
        m = s.model = r2;
    }
    u128 v = m->eval(e);
    E eq = M.Eq(e, M.C(v, e->w));
    static std::map<std::string, uint64_t> cnt;
    if (++cnt[what] > 200000) unsupp(s, std::string("too many values for ") + what);
    branch(s, eq);
    return (uint64_t)v;
}

// ------------------------------------------------------------------ memory access
static uint32_t allocObj(State &s, uint64_t n, int kind, uint8_t fill, const char *what)
{
    if (n >= (1ull << SLOT_BITS)) unsupp(s, "huge allocation " + std::to_string(n));
    Obj *o = new Obj(n);
    o->kind = kind;
    o->what = what;
    memset(o->data, fill, n);
    s.mem.push_back(ObjP(o));
    return s.mem.size() - 1;
}
static uint64_t addrOf(uint32_t id) { return heapAddr(id); }
static int64_t idFrom(uint64_t addr)
{
    uint64_t slot = addr >> SLOT_BITS;
    if (addrDesc)
    {
        if (slot > 2 * DESC_TOP || slot < DESC_TOP) return -1;
        return (int64_t)(2 * DESC_TOP - slot);
    }
    if (slot > (1ull << 30)) return -1;
    return (int64_t)slot;
}
static Obj *writable(State &s, uint32_t id)
{
    Obj *o = s.mem[id].p;
    if (o->refs > 1)
    {
        s.mem[id] = ObjP(o->clone());
        o = s.mem[id].p;
    }
    return o;
}
static E loadBytes(Obj *o, uint32_t off, unsigned n)
{
    if (!o->sym)
    {
        u128 v = 0;
        for (unsigned i = 0; i < n && i < 16; i++) v |= (u128)o->data[off + i] << (8 * i);
        if (n <= 16) return M.C(v, n * 8);
    }
    // whole symbolic value?
    if (o->sym)
    {
        E e = o->sym[off].e;
        if (e && o->sym[off].idx == 0 && e->w == n * 8)
        {
            bool ok = true;
            for (unsigned i = 1; i < n && ok; i++) ok = o->sym[off + i].e == e && o->sym[off + i].idx == i;
            if (ok) return e;
        }
    }
    E r = nullptr;
    for (unsigned i = 0; i < n; i++)
    {
        E b;
        if (o->sym && o->sym[off + i].e)
        {
            E e = o->sym[off + i].e;
            unsigned j = i;
            // merge runs
            while (j + 1 < n && o->sym[off + j + 1].e == e && o->sym[off + j + 1].idx == o->sym[off + j].idx + 1) j++;
            b = M.Extract(e, o->sym[off + i].idx * 8, (j - i + 1) * 8);
            i = j;
        }
        else
            b = M.C(o->data[off + i], 8);
        r = r ? M.Concat(b, r) : b;
    }
    return r;
}
static void storeBytes(Obj *o, uint32_t off, E v)
{
    unsigned n = (v->w + 7) / 8;
    if (v->w % 8) v = M.ZExt(v, n * 8);
    if (v->op == Op::Const)
    {
        for (unsigned i = 0; i < n; i++)
        {
            o->data[off + i] = (uint8_t)(v->c >> (8 * i));
            if (o->sym) o->sym[off + i].e = nullptr;
        }
        return;
    }
    if (!o->sym) o->sym = (SymB *)calloc(o->size ? o->size : 1, sizeof(SymB));
    for (unsigned i = 0; i < n; i++)
    {
        o->sym[off + i].e = v;
        o->sym[off + i].idx = i;
    }
}
// resolve address to (object id, offset expr const or symbolic) guaranteeing n bytes in bounds
struct Loc
{
    uint32_t id;
    bool conc;
    uint32_t off;
    E offE;
};
static bool inBounds(State &s, uint64_t addr, uint64_t n, uint32_t &id, uint32_t &off, std::string &why)
{
    int64_t i = idFrom(addr);
    if (addr < (1 << 16)) { why = "null-deref"; return false; }
    if (i < 0 || (uint64_t)i >= s.mem.size()) { why = "wild-pointer"; return false; }
    Obj *o = s.mem[i].p;
    uint64_t of = addr & ((1ull << SLOT_BITS) - 1);
    if (!o) { why = "use-after-free"; return false; }
    if (of + n > o->size) { why = "out-of-bounds"; return false; }
    id = (uint32_t)i;
    off = (uint32_t)of;
    return true;
}
static Loc resolve(State &s, E a, uint64_t n, bool write)
{
    Loc L;
    std::string why;
    if (a->op == Op::Const)
    {
        if (!inBounds(s, (uint64_t)a->c, n, L.id, L.off, why))
            die(s, "memory", std::string(write ? "write " : "read ") + why);
        L.conc = true;
        if (write && s.mem[L.id].p->ro) die(s, "memory", "write to constant");
        return L;
    }
    // symbolic: take the object the model picks, split on being inside it
    ModelP m = s.model;
    if (!m)
    {
        ModelP r2;
        if (S->check(s.pc, r2) != Res::Sat) unsupp(s, "no model for symbolic address");
        m = s.model = r2;
    }
    uint64_t av = (uint64_t)m->eval(a);
    if (!inBounds(s, av, n, L.id, L.off, why))
    {
        // the model itself shows a bad access; keep exploring the good ones
        report(s, "memory", std::string(write ? "write " : "read ") + why + " (symbolic address)", m);
        // continue with a != av region: require in-bounds of some object -> ask for another address
        E bad = M.Not(M.Eq(a, M.C(av, 64)));
        // find any object accessed legally: use slot of av if object exists
        int64_t i = idFrom(av);
        if (i >= 0 && (uint64_t)i < s.mem.size() && s.mem[i].p && s.mem[i].p->size >= n)
        {
            uint64_t base = addrOf(i);
            E in = M.Ule(M.Sub(a, M.C(base, 64)), M.C(s.mem[i].p->size - n, 64));
            ModelP mm;
            if (feasible(s, in, mm) == Res::Sat)
            {
                addPC(s, in);
                s.model = mm;
                return resolve(s, a, n, write);
            }
        }
        (void)bad;
        throw PathEnd{"memory", true};
    }
    Obj *o = s.mem[L.id].p;
    uint64_t base = addrOf(L.id);
    E in = M.Ule(M.Sub(a, M.C(base, 64)), M.C(o->size - n, 64));
    ModelP mo;
    E notin = M.Not(in);
    Res r = feasible(s, notin, mo);
    if (r != Res::Unsat)
    {
        State *t = cloneState(s); // re-executes this access outside the object
        addPC(*t, notin);
        t->model = r == Res::Sat ? mo : nullptr;
        if (r == Res::Unknown) t->approx = true;
        work.push_back(t);
        addPC(s, in);
    }
    // is the address unique?
    ModelP mu;
    if (feasible(s, M.Not(M.Eq(a, M.C(av, 64))), mu) == Res::Unsat)
    {
        L.conc = true;
        if (write && o->ro) die(s, "memory", "write to constant");
        return L;
    }
    if (o->size > 2048 || write)
    {
        // fork per address value
        E eq = M.Eq(a, M.C(av, 64));
        State *t = cloneState(s);
        addPC(*t, M.Not(eq));
        t->model = mu;
        work.push_back(t);
        addPC(s, eq);
        L.conc = true;
        if (write && o->ro) die(s, "memory", "write to constant");
        return L;
    }
    L.conc = false;
    L.offE = M.Sub(a, M.C(base, 64));
    return L;
}
static unsigned tzBits(E e)
{
    if (e->op == Op::Const)
    {
        if (!e->c) return 64;
        unsigned k = 0;
        while (!((e->c >> k) & 1)) k++;
        return k;
    }
    if (e->op == Op::Concat) { unsigned l = tzBits(e->k[1]); return l >= e->k[1]->w ? e->k[1]->w : l; }
    if (e->op == Op::Add || e->op == Op::Sub || e->op == Op::Or) return std::min(tzBits(e->k[0]), tzBits(e->k[1]));
    if (e->op == Op::Mul) return std::min(63u, tzBits(e->k[0]) + tzBits(e->k[1]));
    if (e->op == Op::ZExt || e->op == Op::SExt) return std::min<unsigned>(tzBits(e->k[0]), e->k[0]->w);
    if (e->op == Op::Ite) return std::min(tzBits(e->k[1]), tzBits(e->k[2]));
    return 0;
}
static E loadN(State &s, E a, unsigned n)
{
    Loc L = resolve(s, a, n, false);
    Obj *o = s.mem[L.id].p;
    if (L.conc) return loadBytes(o, L.off, n);
    unsigned tz = tzBits(L.offE);
    uint32_t step = tz >= 12 ? 4096 : (1u << tz);
    E r = nullptr;
    for (uint32_t i = 0; i + n <= o->size; i += step)
    {
        E v = loadBytes(o, i, n);
        r = r ? M.Ite(M.Eq(L.offE, M.C(i, 64)), v, r) : v;
    }
    return r;
}
static void storeN(State &s, E a, E v)
{
    unsigned n = (v->w + 7) / 8;
    Loc L = resolve(s, a, n, true);
    storeBytes(writable(s, L.id), L.off, v);
}
static std::string readCStr(State &s, E a)
{
    uint64_t p = (uint64_t)a->c;
    uint32_t id, off;
    std::string why, r;
    while (inBounds(s, p, 1, id, off, why) && s.mem[id].p->data[off]) r += (char)s.mem[id].p->data[off], p++;
    return r;
}

// ------------------------------------------------------------------ constants
static unsigned widthOf(Type *t)
{
    if (t->isPointerTy()) return 64;
    return t->getPrimitiveSizeInBits();
}
static E constExpr(const Constant *c);
static E zeroOf(Type *t, uint8_t)
{
    if (auto *st = dyn_cast<StructType>(t))
    {
        std::vector<E> v;
        for (auto *e : st->elements()) v.push_back(zeroOf(e, 0));
        return M.tuple(v);
    }
    if (auto *at = dyn_cast<ArrayType>(t))
    {
        std::vector<E> v(at->getNumElements(), zeroOf(at->getElementType(), 0));
        return M.tuple(v);
    }
    if (auto *vt = dyn_cast<FixedVectorType>(t))
    {
        std::vector<E> v(vt->getNumElements(), zeroOf(vt->getElementType(), 0));
        return M.tuple(v);
    }
    return M.C(0, widthOf(t));
}
static u128 apint(const APInt &v)
{
    u128 r = 0;
    for (unsigned i = 0; i < v.getNumWords() && i < 2; i++) r |= (u128)v.getRawData()[i] << (64 * i);
    return r;
}
static uint64_t gepConst(const GEPOperator *g, uint64_t base, bool &ok)
{
    APInt off(64, 0);
    ok = g->accumulateConstantOffset(*DL, off);
    return base + off.getSExtValue();
}
static E constExpr(const Constant *c)
{
    if (auto *i = dyn_cast<ConstantInt>(c)) return M.C(apint(i->getValue()), i->getBitWidth());
    if (auto *f = dyn_cast<ConstantFP>(c)) return M.C(apint(f->getValueAPF().bitcastToAPInt()), widthOf(c->getType()));
    if (isa<ConstantPointerNull>(c)) return M.C(0, 64);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType(), 0);
    if (auto *gv = dyn_cast<GlobalAlias>(c)) return constExpr(gv->getAliasee());
    if (auto *gv = dyn_cast<GlobalValue>(c))
    {
        auto it = gaddr.find(gv);
        if (it == gaddr.end())
        {
            fprintf(stderr, "no address for %s\n", gv->getName().str().c_str());
            exit(3);
        }
        return M.C(it->second, 64);
    }
    if (auto *ca = dyn_cast<ConstantAggregate>(c))
    {
        std::vector<E> v;
        for (auto &o : ca->operands()) v.push_back(constExpr(cast<Constant>(&o)));
        return M.tuple(v);
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c))
    {
        std::vector<E> v;
        for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constExpr(cd->getElementAsConstant(i)));
        return M.tuple(v);
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c))
    {
        switch (ce->getOpcode())
        {
        case Instruction::GetElementPtr:
        {
            E b = constExpr(cast<Constant>(ce->getOperand(0)));
            bool ok;
            uint64_t r = gepConst(cast<GEPOperator>(ce), (uint64_t)b->c, ok);
            if (!ok) break;
            return M.C(r, 64);
        }
        case Instruction::BitCast:
        case Instruction::AddrSpaceCast: return constExpr(cast<Constant>(ce->getOperand(0)));
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
        case Instruction::ZExt:
        case Instruction::Trunc: return M.ZExt(constExpr(cast<Constant>(ce->getOperand(0))), widthOf(ce->getType()));
        case Instruction::Sub:
        case Instruction::Add:
        case Instruction::Mul:
        case Instruction::And:
        case Instruction::Or:
        case Instruction::Xor:
        case Instruction::Shl:
        case Instruction::LShr:
        {
            E a = constExpr(cast<Constant>(ce->getOperand(0))), b = constExpr(cast<Constant>(ce->getOperand(1)));
            switch (ce->getOpcode())
            {
            case Instruction::Sub: return M.Sub(a, b);
            case Instruction::Add: return M.Add(a, b);
            case Instruction::Mul: return M.Mul(a, b);
            case Instruction::And: return M.And(a, b);
            case Instruction::Or: return M.Or(a, b);
            case Instruction::Xor: return M.Xor(a, b);
            case Instruction::Shl: return M.Shl(a, b);
            default: return M.LShr(a, b);
            }
        }
        case Instruction::ICmp:
        {
            E a = constExpr(cast<Constant>(ce->getOperand(0))), b = constExpr(cast<Constant>(ce->getOperand(1)));
            if (ce->getPredicate() == CmpInst::ICMP_EQ) return M.Eq(a, b);
            if (ce->getPredicate() == CmpInst::ICMP_NE) return M.Not(M.Eq(a, b));
            break;
        }
        default: break;
        }
    }
    std::string s;
    raw_string_ostream os(s);
    c->print(os);
    fprintf(stderr, "unsupported constant: %s\n", os.str().c_str());
    exit(3);
}
static void storeConst(Obj *o, uint32_t off, E v, Type *t)
{
    if (v->op == Op::Tuple)
    {
        if (auto *st = dyn_cast<StructType>(t))
        {
            auto *sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++)
                storeConst(o, off + (uint32_t)sl->getElementOffset(i), (*v->tuple)[i], st->getElementType(i));
        }
        else
        {
            Type *et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType();
            uint64_t es = DL->getTypeAllocSize(et);
            for (unsigned i = 0; i < v->tuple->size(); i++) storeConst(o, off + i * es, (*v->tuple)[i], et);
        }
        return;
    }
    storeBytes(o, off, v);
}
static E loadT(State &s, E a, Type *t)
{
    if (auto *st = dyn_cast<StructType>(t))
    {
        auto *sl = DL->getStructLayout(st);
        std::vector<E> v;
        for (unsigned i = 0; i < st->getNumElements(); i++)
            v.push_back(loadT(s, M.Add(a, M.C((uint64_t)sl->getElementOffset(i), 64)), st->getElementType(i)));
        return M.tuple(v);
    }
    if (isa<ArrayType>(t) || isa<FixedVectorType>(t))
    {
        Type *et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType();
        uint64_t n = isa<ArrayType>(t) ? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements();
        uint64_t es = DL->getTypeAllocSize(et);
        std::vector<E> v;
        for (uint64_t i = 0; i < n; i++) v.push_back(loadT(s, M.Add(a, M.C(i * es, 64)), et));
        return M.tuple(v);
    }
    unsigned w = widthOf(t), n = (w + 7) / 8;
    E v = loadN(s, a, n);
    return w == n * 8 ? v : M.Extract(v, 0, w);
}
static void storeT(State &s, E a, E v, Type *t)
{
    if (v->op == Op::Tuple)
    {
        if (auto *st = dyn_cast<StructType>(t))
        {
            auto *sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++)
                storeT(s, M.Add(a, M.C((uint64_t)sl->getElementOffset(i), 64)), (*v->tuple)[i], st->getElementType(i));
        }
        else
        {
            Type *et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType();
            uint64_t es = DL->getTypeAllocSize(et);
            for (unsigned i = 0; i < v->tuple->size(); i++) storeT(s, M.Add(a, M.C(i * es, 64)), (*v->tuple)[i], et);
        }
        return;
    }
    storeN(s, a, v);
}

// ------------------------------------------------------------------ lowering
static bool isRepoFn(Function *F)
{
    if (auto *sp = F->getSubprogram())
    {
        std::string fn = sp->getFilename().str(), dir = sp->getDirectory().str();
        std::string full = (!fn.empty() && fn[0] == '/') ? fn : dir + "/" + fn;
        return full.find(optRepo) == 0;
    }
    return false;
}
static FnInfo *getFn(Function *F)
{
    auto it = fnInfo.find(F);
    if (it != fnInfo.end() && it->second->lowered) return it->second;
    FnInfo *fi = it == fnInfo.end() ? (fnInfo[F] = new FnInfo) : it->second;
    fi->F = F;
    fi->lowered = true;
    fi->fromRepo = isRepoFn(F);
    if (auto *sp = F->getSubprogram()) fi->nice = sp->getName().str();
    DenseMap<const Value *, int> slot;
    int n = 0;
    for (auto &a : F->args()) slot[&a] = n++;
    for (auto &bb : *F)
    {
        fi->bbIdx[&bb] = (int)fi->bbs.size();
        fi->bbs.emplace_back();
        fi->bbs.back().bb = &bb;
        for (auto &I : bb)
            if (!I.getType()->isVoidTy()) slot[&I] = n++;
    }
    fi->nslots = n;
    for (auto &B : fi->bbs)
        for (auto &I : *B.bb)
        {
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            Ins x;
            x.I = &I;
            x.op = I.getOpcode();
            if (!I.getType()->isVoidTy()) x.dst = slot[&I];
            for (auto &u : I.operands())
            {
                Opnd o;
                Value *v = u.get();
                if (slot.count(v)) o.slot = slot[v];
                else if (isa<BasicBlock>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) {}
                else if (auto *c = dyn_cast<Constant>(v)) o.c = constExpr(c);
                x.o.push_back(o);
            }
            B.ins.push_back(x);
        }
    return fi;
}
static inline E val(Frame &f, const Opnd &o) { return o.slot >= 0 ? f.regs[o.slot] : o.c; }
static inline void setReg(Frame &f, const Ins &x, E v)
{
    if (x.dst >= 0) f.regs[x.dst] = v;
}

// ------------------------------------------------------------------ type info graph
struct TI
{
    std::vector<std::pair<const GlobalVariable *, std::pair<int64_t, bool>>> bases; // base, (offset, virtual)
};
static TI tiOf(const GlobalVariable *g)
{
    TI t;
    if (!g || !g->hasInitializer()) return t;
    auto *cs = dyn_cast<ConstantStruct>(g->getInitializer());
    if (!cs) return t;
    std::string vt;
    {
        const Value *v = cs->getOperand(0)->stripPointerCasts();
        APInt off(64, 0);
        v = cs->getOperand(0)->stripAndAccumulateConstantOffsets(*DL, off, true);
        vt = v->getName().str();
    }
    if (vt.find("__si_class_type_info") != std::string::npos)
    {
        if (auto *b = dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts())) t.bases.push_back({b, {0, false}});
    }
    else if (vt.find("__vmi_class_type_info") != std::string::npos)
    {
        for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2)
        {
            auto *b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts());
            int64_t fl = cast<ConstantInt>(cs->getOperand(i + 1))->getSExtValue();
            if (b) t.bases.push_back({b, {fl >> 8, (fl & 1) != 0}});
        }
    }
    return t;
}
static std::unordered_map<uint64_t, const GlobalVariable *> gvAt;
static uint64_t rdPtr(State &s, uint64_t a)
{
    E v = loadN(s, M.C(a, 64), 8);
    if (v->op != Op::Const) unsupp(s, "symbolic pointer in vtable walk");
    return (uint64_t)v->c;
}
// collect addresses of subobjects of type `dst` within object of type `ti` at addr
static void subobjs(State &s, const GlobalVariable *ti, uint64_t addr, const GlobalVariable *dst, std::set<uint64_t> &out, bool haveObj)
{
    if (ti == dst || ti->getName() == dst->getName()) { out.insert(addr); return; }
    for (auto &b : tiOf(ti).bases)
    {
        uint64_t a = addr;
        if (b.second.second)
        {
            if (!haveObj) continue;
            uint64_t vp = rdPtr(s, addr);
            a = addr + (int64_t)rdPtr(s, vp + b.second.first);
        }
        else
            a = addr + b.second.first;
        subobjs(s, b.first, a, dst, out, haveObj);
    }
}

// ------------------------------------------------------------------ calls and unwinding
static void pushFrame(State &s, Function *F, const std::vector<E> &args)
{
    FnInfo *fi = getFn(F);
    if (s.stk.size() > optMaxDepth) die(s, "recursion", "call depth limit");
    s.stk.emplace_back();
    Frame &f = s.stk.back();
    f.f = fi;
    f.regs.assign(fi->nslots, nullptr);
    unsigned na = F->arg_size();
    for (unsigned i = 0; i < na; i++) f.regs[i] = i < args.size() ? args[i] : M.C(0, 64);
    for (unsigned i = na; i < args.size(); i++) f.varargs.push_back(args[i]);
    if (fi->fromRepo) { repoFns.insert(fi); repoBBs.insert(fi->bbs[0].bb); }
}
static void popFrame(State &s)
{
    for (uint32_t a : s.stk.back().allocas) s.mem[a] = ObjP();
    s.stk.pop_back();
}
static void gotoBB(State &s, BasicBlock *to)
{
    Frame &f = s.stk.back();
    f.prev = f.bb;
    f.bb = f.f->bbIdx[to];
    f.pc = 0;
    if (f.f->fromRepo) repoBBs.insert(to);
    // phis, evaluated simultaneously
    auto &ins = f.f->bbs[f.bb].ins;
    std::vector<std::pair<int, E>> upd;
    BasicBlock *from = f.f->bbs[f.prev].bb;
    unsigned i = 0;
    for (; i < ins.size() && ins[i].op == Instruction::PHI; i++)
    {
        auto *p = cast<PHINode>(ins[i].I);
        int k = p->getBasicBlockIndex(from);
        upd.push_back({ins[i].dst, val(f, ins[i].o[k])});
    }
    for (auto &u : upd) f.regs[u.first] = u.second;
    f.pc = i;
}
// unwind from the current top frame (whose current instruction is a call/throw) with exception object `obj` of typeinfo ti
static void unwind(State &s, uint64_t obj, uint64_t tiAddr)
{
    const GlobalVariable *ti = gvAt.count(tiAddr) ? gvAt[tiAddr] : nullptr;
    while (!s.stk.empty())
    {
        Frame &f = s.stk.back();
        // f.pc points after the call instruction
        auto &ins = f.f->bbs[f.bb].ins;
        Ins &ci = ins[f.pc - 1];
        if (auto *inv = dyn_cast<InvokeInst>(ci.I))
        {
            BasicBlock *lpb = inv->getUnwindDest();
            LandingPadInst *lp = lpb->getLandingPadInst();
            bool enter = lp->isCleanup();
            uint64_t sel = 0;
            for (unsigned i = 0; i < lp->getNumClauses(); i++)
            {
                Constant *c = lp->getClause(i);
                if (lp->isFilter(i)) { unsupp(s, "landingpad filter"); }
                if (isa<ConstantPointerNull>(c)) { sel = 0x7fffffff; enter = true; break; } // catch (...)
                uint64_t ca = (uint64_t)constExpr(c)->c;
                const GlobalVariable *cg = gvAt.count(ca) ? gvAt[ca] : nullptr;
                bool match = ca == tiAddr;
                if (!match && ti && cg)
                {
                    std::set<uint64_t> o;
                    subobjs(s, ti, obj, cg, o, true);
                    match = o.size() == 1;
                }
                if (match) { sel = (ca >> SLOT_BITS) & 0x7fffffff; enter = true; break; }
            }
            if (enter)
            {
                gotoBB(s, lpb);
                s.stk.back().lp = M.tuple({M.C(obj, 64), M.C(sel, 32)});
                return;
            }
        }
        else if (cast<CallBase>(ci.I)->doesNotThrow())
        {
            die(s, "terminate", "exception escapes noexcept call");
        }
        if (f.f->F->doesNotThrow()) die(s, "terminate", "exception escapes noexcept function " + f.f->F->getName().str());
        popFrame(s);
    }
    report(s, "terminate", "uncaught exception", s.model);
    throw PathEnd{"uncaught", true};
}

static Function *F_(const char *n) { return Mod->getFunction(n); }

static E pow2E(E n32) // exact 2^n for a signed integer expression (any width)
{
    E n = M.SExt(n32, 64);
    auto c = [](int64_t v) { return M.C((uint64_t)v, 64); };
    E normal = M.Shl(M.Add(n, c(1023)), c(52));
    E sub = M.Shl(c(1), M.Add(n, c(1074)));
    E r = M.Ite(M.Slt(n, c(-1074)), c(0), M.Ite(M.Slt(n, c(-1022)), sub, M.Ite(M.Slt(c(1023), n), c(0x7ff0000000000000ll), normal)));
    return r;
}
// integer expression i such that e == (double)i exactly, or null
static E intOf(E e)
{
    if (e->op == Op::SIToFP && e->k[0]->w <= 53) return e->k[0];
    if (e->op == Op::UIToFP && e->k[0]->w <= 52) return M.ZExt(e->k[0], e->k[0]->w + 1);
    if (e->op == Op::SIToFP && e->k[0]->op == Op::SExt && e->k[0]->k[0]->w <= 53) return e->k[0]->k[0];
    return nullptr;
}
static E fneg(E a) { return M.Xor(a, M.C((u128)1 << (a->w - 1), a->w)); }
static E fabsE(E a)
{
    // |a-b| == |b-a|
    if (a->op == Op::FSub && !ExprMgr::isC(a->k[0]) && !ExprMgr::isC(a->k[1]) && a->k[0]->id > a->k[1]->id) a = M.fbin(Op::FSub, a->k[1], a->k[0]);
    return M.And(a, M.C(maskW(a->w - 1), a->w));
}

static void memCopy(State &s, E d, E src, uint64_t n)
{
    if (!n) return;
    Loc a = resolve(s, src, n, false);
    if (!a.conc) unsupp(s, "memcpy from symbolic address");
    Loc b = resolve(s, d, n, true);
    Obj *so = s.mem[a.id].p;
    ObjP keep(so);
    Obj *dob = writable(s, b.id);
    if (so->sym && !dob->sym) dob->sym = (SymB *)calloc(dob->size ? dob->size : 1, sizeof(SymB));
    memmove(dob->data + b.off, so->data + a.off, n);
    if (dob->sym)
    {
        if (so->sym) memmove(dob->sym + b.off, so->sym + a.off, n * sizeof(SymB));
        else memset(dob->sym + b.off, 0, n * sizeof(SymB));
    }
}

static E mkSym(State &s, const std::string &name, unsigned w)
{
    unsigned k = s.nameCnt[name]++;
    E e = M.sym(name + "#" + std::to_string(k), w);
    s.symsUsed.push_back(e->aux);
    return e;
}

static void doAssert(State &s, E c, const std::string &label)
{
    assertCnt[label]++;
    nAsserts++;
    if (c->op == Op::Const)
    {
        if (!c->c) { report(s, "assert", label, s.model); throw PathEnd{"assert " + label, true}; }
        return;
    }
    ModelP m;
    nAssertQ++;
    Res r = feasible(s, M.Not(c), m);
    if (r == Res::Sat)
    {
        report(s, "assert", label, m);
        ModelP mt;
        Res rt = feasible(s, c, mt);
        if (rt == Res::Unsat) throw PathEnd{"assert " + label, true};
        addPC(s, c);
        s.model = rt == Res::Sat ? mt : nullptr;
        return;
    }
    if (r == Res::Unknown)
    {
        nAssertUnknown++;
        unkAsserts[label]++;
    }
    else
        addPC(s, M.T());
    // the assertion holds on this path; no need to add it
}

typedef bool (*Builtin)(State &, const Ins &, CallBase *, std::vector<E> &, E &ret);
static std::unordered_map<std::string, int> builtinIds;
enum
{
    B_NONE = 0, B_MALLOC, B_CALLOC, B_FREE, B_NEW, B_DELETE, B_MEMCPY, B_MEMSET, B_MEMCMP, B_MEMEQ, B_STRLEN, B_POW, B_LDEXP, B_EXP2, B_ROUND, B_FLOOR, B_CEIL,
    B_TRUNC, B_RINT, B_SQRT, B_FABS, B_LROUND, B_FMAX, B_FMIN, B_ABORT, B_EXIT, B_NOP, B_UNWIND, B_DYNCAST, B_SYMU, B_SYMBYTES, B_ASSUME, B_ASSERT,
    B_REACH, B_OBS, B_PARAM, B_CHOOSE, B_CONC, B_FILL, B_ISSYM, B_ADJUST, B_ZERO, B_TERM, B_LOG2, B_MEMCHR, B_FMOD, B_REALLOC, B_FRESH, B_PATHS, B_ITE, B_NEWA, B_DELETEA, B_ISCONST, B_MATH1, B_MATH2,
};
static void initBuiltins()
{
    auto add = [](std::initializer_list<const char *> l, int id) { for (auto n : l) builtinIds[n] = id; };
    add({"malloc"}, B_MALLOC);
    add({"calloc"}, B_CALLOC);
    add({"realloc"}, B_REALLOC);
    add({"free"}, B_FREE);
    add({"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t"}, B_NEW);
    add({"_Znam", "_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_t"}, B_NEWA);
    add({"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}, B_DELETE);
    add({"_ZdaPv", "_ZdaPvm"}, B_DELETEA);
    add({"memcpy", "memmove", "__memcpy_chk"}, B_MEMCPY);
    add({"memset"}, B_MEMSET);
    add({"memcmp", "bcmp"}, B_MEMCMP);
    add({"strlen"}, B_STRLEN);
    add({"pow"}, B_POW);
    add({"ldexp", "scalbn", "scalbln"}, B_LDEXP);
    add({"exp2"}, B_EXP2);
    add({"round", "roundf"}, B_ROUND);
    add({"floor", "floorf"}, B_FLOOR);
    add({"ceil", "ceilf"}, B_CEIL);
    add({"trunc", "truncf"}, B_TRUNC);
    add({"rint", "rintf", "nearbyint", "nearbyintf"}, B_RINT);
    add({"sqrt", "sqrtf"}, B_SQRT);
    add({"fabs", "fabsf"}, B_FABS);
    add({"fmod"}, B_FMOD);
    add({"lround", "llround", "lroundf"}, B_LROUND);
    add({"fmax"}, B_FMAX);
    add({"fmin"}, B_FMIN);
    add({"log2"}, B_LOG2);
    add({"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "exp", "expm1", "log", "log10", "log1p", "cbrt"}, B_MATH1);
    add({"hypot", "atan2", "remainder", "fdim", "nextafter"}, B_MATH2);
    add({"abort", "__assert_fail", "__cxa_pure_virtual", "_ZSt21__glibcxx_assert_failPKciS0_S0_"}, B_ABORT);
    add({"_ZSt9terminatev"}, B_TERM);
    add({"exit", "_exit", "_Exit"}, B_EXIT);
    add({"__cxa_atexit", "__cxa_guard_abort", "fflush", "puts", "printf", "fprintf", "putchar", "fputs", "fputc", "__cxa_thread_atexit"}, B_ZERO);
    add({"symex_unwind"}, B_UNWIND);
    add({"symex_adjust"}, B_ADJUST);
    add({"__dynamic_cast"}, B_DYNCAST);
    add({"sym_u"}, B_SYMU);
    add({"sym_bytes"}, B_SYMBYTES);
    add({"sym_assume_"}, B_ASSUME);
    add({"sym_assert_"}, B_ASSERT);
    add({"sym_reach"}, B_REACH);
    add({"sym_observe"}, B_OBS);
    add({"sym_param"}, B_PARAM);
    add({"sym_choose"}, B_CHOOSE);
    add({"sym_concretize"}, B_CONC);
    add({"sym_fill"}, B_FILL);
    add({"sym_symbolic"}, B_ISSYM);
    add({"sym_ite"}, B_ITE);
    add({"sym_memeq"}, B_MEMEQ);
    add({"sym_is_const"}, B_ISCONST);
}
static E needConc(State &s, E e, const char *what) { return M.C(concretize(s, e, what), e->w); }

static E doAlloc(State &s, E n, int kind)
{
    uint64_t sz = concretize(s, n, "allocation size");
    if (sz > (1ull << 23)) // treated as bad_alloc / length error by the caller's model: out of scope
        unsupp(s, "allocation of " + std::to_string(sz) + " bytes");
    uint32_t id = allocObj(s, sz, kind, s.fill < 0 ? 0xBE : s.fill, "heap");
    return M.C(addrOf(id), 64);
}
static void doFree(State &s, E p, int kind)
{
    uint64_t a = concretize(s, p, "freed pointer");
    if (!a) return;
    int64_t id = idFrom(a);
    if (id < 0 || (uint64_t)id >= s.mem.size()) die(s, "memory", "free of wild pointer");
    Obj *o = s.mem[id].p;
    if (!o) die(s, "memory", "double free");
    if ((o->kind != 1 && o->kind != 4 && o->kind != 5) || a != addrOf(id)) die(s, "memory", "free of non-heap pointer");
    if (o->kind != kind) die(s, "memory", "mismatched allocation and release");
    s.mem[id] = ObjP();
}

// returns true if handled; may throw PathEnd
static bool callBuiltin(State &s, int b, const Ins &x, CallBase *cb, std::vector<E> &a, E &ret)
{
    Type *rt = cb->getType();
    auto num = [&](int i) { return concretize(s, a[i], "argument"); };
    switch (b)
    {
    case B_MALLOC: ret = doAlloc(s, a[0], 1); return true;
    case B_NEW: ret = doAlloc(s, a[0], 4); return true;
    case B_NEWA: ret = doAlloc(s, a[0], 5); return true;
    case B_CALLOC:
    {
        uint64_t n = num(0) * num(1);
        uint32_t id = allocObj(s, n, 1, 0, "heap");
        ret = M.C(addrOf(id), 64);
        return true;
    }
    case B_REALLOC: unsupp(s, "realloc");
    case B_ISCONST: ret = M.C(a[0]->op == Op::Const, 32); return true;
    case B_FREE: doFree(s, a[0], 1); return true;
    case B_DELETE: doFree(s, a[0], 4); return true;
    case B_DELETEA: doFree(s, a[0], 5); return true;
    case B_MEMCPY: memCopy(s, a[0], a[1], num(2)); ret = a[0]; return true;
    case B_MEMSET:
    {
        uint64_t n = num(2);
        if (n)
        {
            Loc L = resolve(s, a[0], n, true);
            Obj *o = writable(s, L.id);
            E v = M.Extract(a[1], 0, 8);
            for (uint64_t i = 0; i < n; i++) storeBytes(o, L.off + i, v);
        }
        ret = a[0];
        return true;
    }
    case B_MEMCMP:
    {
        uint64_t n = num(2);
        E r = M.C(0, 32);
        if (n)
        {
            Loc p = resolve(s, a[0], n, false), q = resolve(s, a[1], n, false);
            if (!p.conc || !q.conc) unsupp(s, "memcmp symbolic address");
            for (int64_t i = (int64_t)n - 1; i >= 0; i--)
            {
                E u = loadBytes(s.mem[p.id].p, p.off + i, 1), v = loadBytes(s.mem[q.id].p, q.off + i, 1);
                r = M.Ite(M.Eq(u, v), r, M.Ite(M.Ult(u, v), M.C(0xffffffffu, 32), M.C(1, 32)));
            }
        }
        ret = r;
        return true;
    }
    case B_MEMEQ:
    {
        uint64_t n = num(2);
        E r = M.T();
        if (n)
        {
            Loc p = resolve(s, a[0], n, false), q = resolve(s, a[1], n, false);
            if (!p.conc || !q.conc) unsupp(s, "memeq symbolic address");
            for (uint64_t i = 0; i < n; i++)
            {
                E u = loadBytes(s.mem[p.id].p, p.off + i, 1), v = loadBytes(s.mem[q.id].p, q.off + i, 1);
                if (u != v) r = M.And(r, M.Eq(u, v));
            }
        }
        ret = M.Ite(r, M.C(1, 32), M.C(0, 32));
        return true;
    }
    case B_STRLEN:
    {
        // forks on each possibly-zero byte
        uint64_t p = num(0), n = 0;
        for (;; n++)
        {
            E c = loadN(s, M.C(p + n, 64), 1);
            if (branch(s, M.Eq(c, M.C(0, 8)))) break;
        }
        ret = M.C(n, 64);
        return true;
    }
    case B_POW:
        if (ExprMgr::isC(a[0]) && ExprMgr::isC(a[1])) { ret = M.C(fromD(pow(asD(a[0]->c), asD(a[1]->c))), 64); return true; }
        if (ExprMgr::isC(a[0]) && asD(a[0]->c) == 2.0)
            if (E i = intOf(a[1])) { ret = pow2E(i); return true; }
        if (ExprMgr::isC(a[0]) && asD(a[0]->c) == 0.5)
            if (E i = intOf(a[1])) { ret = pow2E(M.Sub(M.C(0, 64), M.SExt(i, 64))); return true; }
        if (ExprMgr::isC(a[1]) && asD(a[1]->c) == 2.0) { ret = M.fbin(Op::FMul, a[0], a[0]); return true; }
        unsupp(s, "pow of symbolic arguments");
    case B_EXP2:
        if (ExprMgr::isC(a[0])) { ret = M.C(fromD(exp2(asD(a[0]->c))), 64); return true; }
        if (E i = intOf(a[0])) { ret = pow2E(i); return true; }
        unsupp(s, "exp2 of symbolic argument");
    case B_LOG2:
        if (ExprMgr::isC(a[0])) { ret = M.C(fromD(log2(asD(a[0]->c))), 64); return true; }
        unsupp(s, "log2 of symbolic argument");
    case B_MATH1:
    case B_MATH2:
    {
        std::string n = cb->getCalledFunction() ? cb->getCalledFunction()->getName().str() : "";
        if (!ExprMgr::isC(a[0]) || (b == B_MATH2 && !ExprMgr::isC(a[1]))) unsupp(s, n + " of symbolic argument");
        double u = asD(a[0]->c), v = b == B_MATH2 ? asD(a[1]->c) : 0;
        static const std::map<std::string, double (*)(double)> one{{"sin", sin}, {"cos", cos}, {"tan", tan}, {"asin", asin}, {"acos", acos}, {"atan", atan}, {"sinh", sinh}, {"cosh", cosh}, {"tanh", tanh}, {"exp", exp}, {"expm1", expm1}, {"log", log}, {"log10", log10}, {"log1p", log1p}, {"cbrt", cbrt}};
        static const std::map<std::string, double (*)(double, double)> two{{"hypot", hypot}, {"atan2", atan2}, {"remainder", remainder}, {"fdim", fdim}, {"nextafter", nextafter}};
        if (n.empty()) unsupp(s, "math function through a pointer");
        ret = M.C(fromD(b == B_MATH1 ? one.at(n)(u) : two.at(n)(u, v)), 64);
        return true;
    }
    case B_LDEXP:
        if (ExprMgr::isC(a[0]) && ExprMgr::isC(a[1])) { ret = M.C(fromD(ldexp(asD(a[0]->c), (int)(int64_t)sextW(a[1]->c, a[1]->w))), 64); return true; }
        ret = M.fbin(Op::FMul, a[0], pow2E(a[1])); // exact for exponents in the normal range
        return true;
    case B_ROUND: ret = M.fun1(Op::FRnd, a[0]->w, a[0], RND_RNA); return true;
    case B_FLOOR: ret = M.fun1(Op::FRnd, a[0]->w, a[0], RND_FLOOR); return true;
    case B_CEIL: ret = M.fun1(Op::FRnd, a[0]->w, a[0], RND_CEIL); return true;
    case B_TRUNC: ret = M.fun1(Op::FRnd, a[0]->w, a[0], RND_TRUNC); return true;
    case B_RINT: ret = M.fun1(Op::FRnd, a[0]->w, a[0], RND_RNE); return true;
    case B_LROUND: ret = M.fun1(Op::FPToSI, 64, M.fun1(Op::FRnd, a[0]->w, a[0], RND_RNA)); return true;
    case B_SQRT: ret = M.fun1(Op::FSqrt, a[0]->w, a[0]); return true;
    case B_FMOD:
        if (ExprMgr::isC(a[0]) && ExprMgr::isC(a[1])) { ret = M.fbin(Op::FRem, a[0], a[1]); return true; }
        unsupp(s, "fmod");
    case B_FABS: ret = fabsE(a[0]); return true;
    case B_FMAX:
    case B_FMIN:
    {
        E lt = b == B_FMAX ? M.fcmp(Op::FLt, a[0], a[1]) : M.fcmp(Op::FLt, a[1], a[0]);
        E n0 = M.fcmp(Op::FUno, a[0], a[0]);
        ret = M.Ite(M.Or(lt, n0), a[1], a[0]);
        return true;
    }
    case B_ABORT: die(s, "abort", cb->getCalledFunction() ? cb->getCalledFunction()->getName().str() : "abort");
    case B_TERM: die(s, "terminate", "std::terminate");
    case B_EXIT: throw PathEnd{"exit", false};
    case B_ZERO:
        if (!rt->isVoidTy()) ret = M.C(0, widthOf(rt));
        return true;
    case B_UNWIND:
    {
        uint64_t o = num(0), t = num(1);
        // pop the rt frames (the caller of symex_unwind) like any other frame
        unwind(s, o, t);
        return true;
    }
    case B_ADJUST:
    {
        // symex_adjust(obj, thrown ti, catch ti) -> adjusted pointer
        ret = a[0];
        return true;
    }
    case B_DYNCAST:
    {
        uint64_t p = num(0), dst = num(2);
        ret = M.C(0, 64);
        if (!p) return true;
        uint64_t vp = rdPtr(s, p);
        int64_t top = (int64_t)rdPtr(s, vp - 16);
        uint64_t ti = rdPtr(s, vp - 8);
        if (!gvAt.count(ti) || !gvAt.count(dst)) unsupp(s, "dynamic_cast typeinfo");
        std::set<uint64_t> o;
        subobjs(s, gvAt[ti], p + top, gvAt[dst], o, true);
        if (o.size() == 1) ret = M.C(*o.begin(), 64);
        return true;
    }
    case B_SYMU:
    {
        std::string n = readCStr(s, a[0]);
        unsigned w = (unsigned)num(1);
        ret = M.ZExt(mkSym(s, n, w), 64);
        return true;
    }
    case B_SYMBYTES:
    {
        uint64_t n = num(1);
        std::string nm = readCStr(s, a[2]);
        if (n)
        {
            Loc L = resolve(s, a[0], n, true);
            Obj *o = writable(s, L.id);
            for (uint64_t i = 0; i < n; i++) storeBytes(o, L.off + i, mkSym(s, nm, 8));
        }
        return true;
    }
    case B_ASSUME:
    {
        E c = M.Not(M.Eq(a[0], M.C(0, a[0]->w)));
        if (c->op == Op::Const)
        {
            if (!c->c) throw PathEnd{"assume", false};
            return true;
        }
        ModelP m;
        Res r = feasible(s, c, m);
        if (r == Res::Unsat) throw PathEnd{"assume", false};
        addPC(s, c);
        s.model = r == Res::Sat ? m : nullptr;
        return true;
    }
    case B_ASSERT:
    {
        std::string l = readCStr(s, a[1]);
        doAssert(s, M.Not(M.Eq(a[0], M.C(0, a[0]->w))), l);
        return true;
    }
    case B_REACH: s.reached.push_back(readCStr(s, a[0])); return true;
    case B_OBS: s.obs.push_back({readCStr(s, a[0]), a[1]}); return true;
    case B_PARAM:
    {
        std::string n = readCStr(s, a[0]);
        auto it = params.find(n);
        ret = it == params.end() ? a[1] : M.C((uint64_t)it->second, a[1]->w);
        return true;
    }
    case B_CHOOSE:
    {
        // sym_choose(name, n): concrete value in [0,n), one path per value
        std::string nm = readCStr(s, a[0]);
        uint64_t n = num(1);
        E e = mkSym(s, nm, 32);
        E c = M.Ult(e, M.C(n, 32));
        ModelP m;
        if (n == 0 || feasible(s, c, m) == Res::Unsat) throw PathEnd{"assume", false};
        addPC(s, c);
        s.model = m;
        for (uint64_t v = n - 1; v > 0; v--)
        {
            State *t = cloneState(s);
            E eq = M.Eq(e, M.C(v, 32));
            addPC(*t, eq);
            auto nm2 = std::make_shared<Model>();
            if (s.model) nm2->v = s.model->v;
            nm2->v[e->aux] = v;
            t->model = s.model ? nm2 : nullptr;
            setReg(t->stk.back(), x, M.C(v, 32));
            if (auto *inv = dyn_cast<InvokeInst>(cb)) gotoBB(*t, inv->getNormalDest());
            work.push_back(t);
        }
        addPC(s, M.Eq(e, M.C(0, 32)));
        if (s.model)
        {
            auto nm2 = std::make_shared<Model>();
            nm2->v = s.model->v;
            nm2->v[e->aux] = 0;
            s.model = nm2;
        }
        ret = M.C(0, 32);
        return true;
    }
    case B_CONC: ret = M.C(concretize(s, a[0], "sym_concretize"), 64); return true;
    case B_FILL: s.fill = (int)(int32_t)num(0); return true;
    case B_ISSYM: ret = M.C(1, 32); return true;
    case B_ITE: ret = M.Ite(M.Not(M.Eq(a[0], M.C(0, a[0]->w))), a[1], a[2]); return true;
    default: return false;
    }
}

static bool callIntrinsic(State &s, const Ins &x, IntrinsicInst *ii, std::vector<E> &a, E &ret)
{
    Type *rt = ii->getType();
    unsigned w = rt->isVoidTy() || rt->isStructTy() ? 0 : widthOf(rt);
    auto ovf = [&](Op op, bool sgn)
    {
        unsigned n = a[0]->w;
        E r = M.bin(op, a[0], a[1]);
        unsigned ww = op == Op::Mul ? 2 * n : n + 1;
        if (ww > 128) ww = 128;
        E A = sgn ? M.SExt(a[0], ww) : M.ZExt(a[0], ww), B = sgn ? M.SExt(a[1], ww) : M.ZExt(a[1], ww);
        E wide = M.bin(op, A, B);
        E o = M.Not(M.Eq(wide, sgn ? M.SExt(r, ww) : M.ZExt(r, ww)));
        ret = M.tuple({r, o});
        return true;
    };
    auto num = [&](int i) { return concretize(s, a[i], "intrinsic argument"); };
    switch (ii->getIntrinsicID())
    {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch:
    case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::var_annotation:
    case Intrinsic::vaend: case Intrinsic::stackrestore: return true;
    case Intrinsic::vastart: // every variable argument in the overflow area, one 8-byte slot each
    {
        auto va = s.stk.back().varargs;
        uint32_t id = allocObj(s, va.size() * 8 + 8, 2, 0xAA, "stack");
        s.stk.back().allocas.push_back(id);
        for (size_t i = 0; i < va.size(); i++)
        {
            if (va[i]->w > 64) die(s, "unsupported", "variable argument");
            storeN(s, M.C(addrOf(id) + 8 * i, 64), va[i]->w < 64 ? M.ZExt(va[i], 64) : va[i]);
        }
        storeN(s, a[0], M.C(48, 32));
        storeN(s, M.Add(a[0], M.C(4, 64)), M.C(176, 32));
        storeN(s, M.Add(a[0], M.C(8, 64)), M.C(addrOf(id), 64));
        storeN(s, M.Add(a[0], M.C(16, 64)), M.C(0, 64));
        return true;
    }
    case Intrinsic::vacopy:
        for (int i = 0; i < 24; i += 8) storeN(s, M.Add(a[0], M.C(i, 64)), loadN(s, M.Add(a[1], M.C(i, 64)), 8));
        return true;
    case Intrinsic::stacksave: ret = M.C(0, 64); return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return callBuiltin(s, B_MEMCPY, x, ii, a, ret);
    case Intrinsic::memset: case Intrinsic::memset_inline: return callBuiltin(s, B_MEMSET, x, ii, a, ret);
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::annotation:
    case Intrinsic::threadlocal_address: ret = a[0]; return true;
    case Intrinsic::is_constant: ret = M.C(0, 1); return true;
    case Intrinsic::objectsize: ret = M.C(maskW(w), w); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: die(s, "trap", "llvm.trap");
    case Intrinsic::uadd_with_overflow: return ovf(Op::Add, false);
    case Intrinsic::sadd_with_overflow: return ovf(Op::Add, true);
    case Intrinsic::usub_with_overflow: return ovf(Op::Sub, false);
    case Intrinsic::ssub_with_overflow: return ovf(Op::Sub, true);
    case Intrinsic::umul_with_overflow: return ovf(Op::Mul, false);
    case Intrinsic::smul_with_overflow: return ovf(Op::Mul, true);
    case Intrinsic::umax: ret = M.Ite(M.Ult(a[0], a[1]), a[1], a[0]); return true;
    case Intrinsic::umin: ret = M.Ite(M.Ult(a[0], a[1]), a[0], a[1]); return true;
    case Intrinsic::smax: ret = M.Ite(M.Slt(a[0], a[1]), a[1], a[0]); return true;
    case Intrinsic::smin: ret = M.Ite(M.Slt(a[0], a[1]), a[0], a[1]); return true;
    case Intrinsic::abs: ret = M.Ite(M.Slt(a[0], M.C(0, w)), M.Sub(M.C(0, w), a[0]), a[0]); return true;
    case Intrinsic::usub_sat: ret = M.Ite(M.Ult(a[0], a[1]), M.C(0, w), M.Sub(a[0], a[1])); return true;
    case Intrinsic::uadd_sat: { E r = M.Add(a[0], a[1]); ret = M.Ite(M.Ult(r, a[0]), M.C(maskW(w), w), r); return true; }
    case Intrinsic::bswap:
    {
        E r = nullptr;
        for (unsigned i = 0; i < w / 8; i++) { E b = M.Extract(a[0], i * 8, 8); r = r ? M.Concat(r, b) : b; }
        ret = r;
        return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr:
    {
        E sh = M.bin(Op::URem, a[2], M.C(w, w));
        E c = M.Concat(a[0], a[1]);
        E s2 = M.ZExt(sh, 2 * w);
        ret = ii->getIntrinsicID() == Intrinsic::fshl ? M.Extract(M.Shl(c, s2), w, w) : M.Extract(M.LShr(c, s2), 0, w);
        return true;
    }
    case Intrinsic::ctpop:
    {
        E r = M.C(0, w);
        for (unsigned i = 0; i < w; i++) r = M.Add(r, M.ZExt(M.Extract(a[0], i, 1), w));
        ret = r;
        return true;
    }
    case Intrinsic::ctlz:
    {
        E r = M.C(w, w);
        for (unsigned i = 0; i < w; i++) r = M.Ite(M.Eq(M.Extract(a[0], i, 1), M.C(1, 1)), M.C(w - 1 - i, w), r);
        ret = r;
        return true;
    }
    case Intrinsic::cttz:
    {
        E r = M.C(w, w);
        for (int i = w - 1; i >= 0; i--) r = M.Ite(M.Eq(M.Extract(a[0], i, 1), M.C(1, 1)), M.C(i, w), r);
        ret = r;
        return true;
    }
    case Intrinsic::fabs: ret = fabsE(a[0]); return true;
    case Intrinsic::copysign:
        ret = M.Or(fabsE(a[0]), M.And(a[1], M.C((u128)1 << (w - 1), w)));
        return true;
    case Intrinsic::round: ret = M.fun1(Op::FRnd, w, a[0], RND_RNA); return true;
    case Intrinsic::floor: ret = M.fun1(Op::FRnd, w, a[0], RND_FLOOR); return true;
    case Intrinsic::ceil: ret = M.fun1(Op::FRnd, w, a[0], RND_CEIL); return true;
    case Intrinsic::trunc: ret = M.fun1(Op::FRnd, w, a[0], RND_TRUNC); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: ret = M.fun1(Op::FRnd, w, a[0], RND_RNE); return true;
    case Intrinsic::lround: case Intrinsic::llround: ret = M.fun1(Op::FPToSI, w, M.fun1(Op::FRnd, a[0]->w, a[0], RND_RNA)); return true;
    case Intrinsic::sqrt: ret = M.fun1(Op::FSqrt, w, a[0]); return true;
    case Intrinsic::fmuladd: ret = M.fbin(Op::FAdd, M.fbin(Op::FMul, a[0], a[1]), a[2]); return true;
    case Intrinsic::maxnum: return callBuiltin(s, B_FMAX, x, ii, a, ret);
    case Intrinsic::minnum: return callBuiltin(s, B_FMIN, x, ii, a, ret);
    case Intrinsic::pow: return callBuiltin(s, B_POW, x, ii, a, ret);
    case Intrinsic::exp2: return callBuiltin(s, B_EXP2, x, ii, a, ret);
    case Intrinsic::ldexp: return callBuiltin(s, B_LDEXP, x, ii, a, ret);
    case Intrinsic::is_fpclass:
    {
        unsigned mask = (unsigned)num(1);
        unsigned eb = a[0]->w == 64 ? 11 : 8, mb = a[0]->w == 64 ? 52 : 23;
        E mant = M.Extract(a[0], 0, mb), ex = M.Extract(a[0], mb, eb), sg = M.Extract(a[0], mb + eb, 1);
        E m0 = M.Eq(mant, M.C(0, mb)), e0 = M.Eq(ex, M.C(0, eb)), e1 = M.Eq(ex, M.C(maskW(eb), eb));
        E neg = M.Eq(sg, M.C(1, 1)), pos = M.Not(neg);
        E q = M.Eq(M.Extract(a[0], mb - 1, 1), M.C(1, 1));
        E nan = M.And(e1, M.Not(m0)), inf = M.And(e1, m0), zero = M.And(e0, m0), sub = M.And(e0, M.Not(m0)), nrm = M.And(M.Not(e0), M.Not(e1));
        E cls[10] = {M.And(nan, M.Not(q)), M.And(nan, q), M.And(inf, neg), M.And(nrm, neg), M.And(sub, neg), M.And(zero, neg), M.And(zero, pos), M.And(sub, pos),
                     M.And(nrm, pos), M.And(inf, pos)};
        E r = M.F();
        for (int i = 0; i < 10; i++)
            if (mask >> i & 1) r = M.Or(r, cls[i]);
        ret = r;
        return true;
    }
    case Intrinsic::eh_typeid_for: ret = M.C(((uint64_t)a[0]->c >> SLOT_BITS) & 0x7fffffff, 32); return true;
    case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: unsupp(s, "fpto*i.sat");
    default: unsupp(s, "intrinsic " + Intrinsic::getBaseName(ii->getIntrinsicID()).str());
    }
}

static void doReturn(State &s, E v)
{
    popFrame(s);
    if (s.stk.empty()) throw PathEnd{"return", false};
    Frame &f = s.stk.back();
    auto &ins = f.f->bbs[f.bb].ins;
    Ins &ci = ins[f.pc - 1];
    if (v) setReg(f, ci, v);
    if (auto *inv = dyn_cast<InvokeInst>(ci.I)) gotoBB(s, inv->getNormalDest());
}

static void doCall(State &s, const Ins &x)
{
    Frame &f = s.stk.back();
    auto *cb = cast<CallBase>(x.I);
    std::vector<E> a;
    for (unsigned i = 0; i < cb->arg_size(); i++) a.push_back(val(f, x.o[i]));
    if (auto *ii = dyn_cast<IntrinsicInst>(x.I))
    {
        E ret = nullptr;
        callIntrinsic(s, x, ii, a, ret);
        if (ret) setReg(s.stk.back(), x, ret);
        return;
    }
    Function *F = cb->getCalledFunction();
    if (!F)
    {
        Value *cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto *al = dyn_cast<GlobalAlias>(cv)) F = dyn_cast<Function>(al->getAliaseeObject());
        else F = dyn_cast<Function>(cv);
        if (!F && isa<InlineAsm>(cv)) { if (!cb->getType()->isVoidTy()) unsupp(s, "inline asm"); return; }
    }
    if (!F)
    {
        // callee operand is the last operand (call) / before the dests (invoke)
        E fp = val(f, x.o[cb->getCalledOperandUse().getOperandNo()]);
        uint64_t addr = concretize(s, fp, "function pointer");
        auto it = fnAtId.find(addr);
        if (it == fnAtId.end()) die(s, "memory", "call through bad function pointer");
        F = it->second;
    }
    auto bi = builtinIds.find(F->getName().str());
    if (bi != builtinIds.end())
    {
        E ret = nullptr;
        size_t depth = s.stk.size();
        int bb0 = s.stk.back().bb;
        callBuiltin(s, bi->second, x, cb, a, ret);
        if (bi->second == B_UNWIND) return; // control has moved
        (void)depth;
        (void)bb0;
        Frame &g = s.stk.back();
        if (ret) setReg(g, x, ret);
        if (auto *inv = dyn_cast<InvokeInst>(x.I)) gotoBB(s, inv->getNormalDest());
        return;
    }
    if (F->isDeclaration()) unsupp(s, "external function " + F->getName().str());
    pushFrame(s, F, a);
}


// ------------------------------------------------------------------ merging of short-circuit conditions
// A branch into blocks without side effects (a && b && c, comparisons written as nested ifs) is evaluated as one
// condition instead of forking at each operand.
static bool optMerge = true, optProfile = false;
static uint64_t nMerged = 0;
struct MEdge { int from, to; E g; };
static bool pureIns(State &s, Frame &f, const Ins &x)
{
    switch (x.op)
    {
    case Instruction::Load:
    {
        if (cast<LoadInst>(x.I)->isVolatile()) return false;
        Type *t = x.I->getType();
        if (t->isAggregateType() || t->isVectorTy()) return false;
        E a = val(f, x.o[0]);
        if (!a || a->op != Op::Const) return false;
        uint32_t id, off;
        std::string why;
        return inBounds(s, (uint64_t)a->c, (widthOf(t) + 7) / 8, id, off, why);
    }
    case Instruction::GetElementPtr: case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or:
    case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::ICmp: case Instruction::FCmp:
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Freeze:
    case Instruction::FNeg: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::SIToFP: case Instruction::UIToFP:
        if (x.I->getType()->isVectorTy()) return false;
        for (auto &o : x.o) { E v = val(f, o); if (!v || v->op == Op::Tuple) return false; }
        return true;
    case Instruction::Select:
        if (x.I->getType()->isVectorTy()) return false;
        for (auto &o : x.o) { E v = val(f, o); if (!v || v->op == Op::Tuple) return false; }
        if (x.I->getType()->isPointerTy()) return val(f, x.o[0])->op == Op::Const;
        return true;
    default: return false;
    }
}
// values of the phis of block `to` over the given edges; false when they cannot be merged
static bool mergePhis(Frame &f, int to, const std::vector<MEdge> &es, std::vector<std::pair<int, E>> &upd)
{
    auto &ins = f.f->bbs[to].ins;
    for (unsigned i = 0; i < ins.size() && ins[i].op == Instruction::PHI; i++)
    {
        auto *p = cast<PHINode>(ins[i].I);
        E r = nullptr;
        for (auto &e : es)
        {
            if (e.to != to) continue;
            E v = val(f, ins[i].o[p->getBasicBlockIndex(f.f->bbs[e.from].bb)]);
            if (!v) return false;
            if (!r || r == v) r = v;
            else if (v->w != 1 || v->op == Op::Tuple) return false;
            else r = M.Ite(e.g, v, r);
        }
        upd.push_back({ins[i].dst, r});
    }
    return true;
}
static void enterMerged(State &s, int from, int to, const std::vector<std::pair<int, E>> &upd)
{
    Frame &f = s.stk.back();
    f.prev = from;
    f.bb = to;
    for (auto &u : upd) f.regs[u.first] = u.second;
    auto &ins = f.f->bbs[to].ins;
    unsigned i = 0;
    while (i < ins.size() && ins[i].op == Instruction::PHI) i++;
    f.pc = i;
    if (f.f->fromRepo) repoBBs.insert(f.f->bbs[to].bb);
}
static void step(State &s);
static bool mergeBranch(State &s, BranchInst *b, E c)
{
    FnInfo *fi = s.stk.back().f;
    int B0 = s.stk.back().bb;
    std::vector<E> saved = s.stk.back().regs;
    unsigned savedPc = s.stk.back().pc;
    int savedPrev = s.stk.back().prev;
    std::vector<MEdge> pend{{B0, fi->bbIdx[b->getSuccessor(0)], c}, {B0, fi->bbIdx[b->getSuccessor(1)], M.Not(c)}}, best;
    if (pend[0].to == pend[1].to) return false;
    std::set<int> done{B0}, bad;
    std::vector<const BasicBlock *> visited;
    bool any = false;
    for (int n = 0; n < 40; n++)
    {
        int X = -1;
        for (auto &e : pend)
        {
            if (bad.count(e.to) || done.count(e.to)) continue;
            bool ok = true;
            for (auto *pb : predecessors(fi->bbs[e.to].bb))
                if (!done.count(fi->bbIdx[pb])) { ok = false; break; }
            if (ok) { X = e.to; break; }
        }
        if (X < 0) break;
        Frame &f = s.stk.back();
        auto &ins = fi->bbs[X].ins;
        auto *br = dyn_cast<BranchInst>(ins.back().I);
        std::vector<std::pair<int, E>> upd;
        if (!br || ins.size() > 48 || !mergePhis(f, X, pend, upd)) { bad.insert(X); continue; }
        for (auto &u : upd) f.regs[u.first] = u.second;
        bool ok = true;
        for (unsigned i = 0; i + 1 < ins.size() && ok; i++)
        {
            if (ins[i].op == Instruction::PHI) continue;
            if (isa<IntrinsicInst>(ins[i].I) && cast<IntrinsicInst>(ins[i].I)->isAssumeLikeIntrinsic()) continue;
            if (!pureIns(s, f, ins[i])) { ok = false; break; }
            f.bb = X;
            f.pc = i;
            step(s);
        }
        f.bb = B0;
        f.pc = savedPc;
        f.prev = savedPrev;
        E c2 = nullptr;
        if (ok && br->isConditional() && !(c2 = val(f, ins.back().o[0]))) ok = false;
        if (!ok) { bad.insert(X); continue; }
        E g = M.F();
        std::vector<MEdge> np;
        for (auto &e : pend)
            if (e.to == X) g = M.Or(g, e.g);
            else np.push_back(e);
        if (!br->isConditional()) np.push_back({X, fi->bbIdx[br->getSuccessor(0)], g});
        else
        {
            E gt = M.And(g, c2), gf = M.And(g, M.Not(c2));
            if (!(gt->op == Op::Const && !gt->c)) np.push_back({X, fi->bbIdx[br->getSuccessor(0)], gt});
            if (!(gf->op == Op::Const && !gf->c)) np.push_back({X, fi->bbIdx[br->getSuccessor(1)], gf});
        }
        pend.swap(np);
        done.insert(X);
        visited.push_back(fi->bbs[X].bb);
        std::set<int> ex;
        for (auto &e : pend) ex.insert(e.to);
        bool self = false;
        for (int t : ex) self |= done.count(t) > 0;
        if (ex.size() <= 2 && !self)
        {
            bool mo = true;
            for (int t : ex) { std::vector<std::pair<int, E>> u; mo &= mergePhis(f, t, pend, u); }
            if (mo) { best = pend; any = true; }
        }
    }
    if (!any)
    {
        s.stk.back().regs.swap(saved);
        return false;
    }
    Frame &f = s.stk.back();
    nMerged++;
    if (fi->fromRepo) for (auto *v : visited) repoBBs.insert(v);
    int t0 = best[0].to, t1 = -1, f0 = best[0].from, f1 = -1;
    E g0 = M.F(), g1 = M.F();
    for (auto &e : best)
        if (e.to == t0) g0 = M.Or(g0, e.g);
        else { t1 = e.to; f1 = e.from; g1 = M.Or(g1, e.g); }
    std::vector<std::pair<int, E>> u0, u1;
    mergePhis(f, t0, best, u0);
    if (t1 < 0) { enterMerged(s, f0, t0, u0); return true; }
    mergePhis(f, t1, best, u1);
    // the guards are complementary; branch on the conjunctive one
    State *o;
    if (g0->op != Op::And && (g1->op == Op::And || g0->op == Op::Or))
    {
        std::swap(g0, g1); std::swap(t0, t1); std::swap(f0, f1); std::swap(u0, u1);
    }
    bool t = branch(s, g0, &o);
    if (o) enterMerged(*o, f1, t1, u1);
    if (t) enterMerged(s, f0, t0, u0);
    else enterMerged(s, f1, t1, u1);
    return true;
}
static void step(State &s)
{
    Frame &f = s.stk.back();
    const Ins &x = f.f->bbs[f.bb].ins[f.pc];
    f.pc++;
    s.steps++;
    nSteps++;
    if (optProfile) const_cast<FnInfo *>(f.f)->prof++;
    auto V = [&](int i) { return val(f, x.o[i]); };
    switch (x.op)
    {
    case Instruction::Ret: doReturn(s, x.o.empty() ? nullptr : V(0)); return;
    case Instruction::Br:
    {
        auto *b = cast<BranchInst>(x.I);
        if (b->isUnconditional()) { gotoBB(s, b->getSuccessor(0)); return; }
        E c = V(0);
        if (optMerge && c->op != Op::Const)
        {
            bool known = false;
            E nc = M.Not(c);
            for (E y : s.pc) known |= y == c || y == nc;
            if (!known && mergeBranch(s, b, c)) return;
        }
        State *o;
        bool t = branch(s, c, &o);
        if (o) gotoBB(*o, b->getSuccessor(1));
        gotoBB(s, b->getSuccessor(t ? 0 : 1));
        return;
    }
    case Instruction::Switch:
    {
        auto *sw = cast<SwitchInst>(x.I);
        E c = V(0);
        if (c->op == Op::Const)
        {
            auto *ci = ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), (uint64_t)c->c);
            gotoBB(s, sw->findCaseValue(ci)->getCaseSuccessor());
            return;
        }
        std::map<BasicBlock *, E> conds;
        std::vector<BasicBlock *> order;
        E any = M.F();
        for (auto &cs : sw->cases())
        {
            E eq = M.Eq(c, M.C(apint(cs.getCaseValue()->getValue()), c->w));
            BasicBlock *t = cs.getCaseSuccessor();
            if (!conds.count(t)) { conds[t] = M.F(); order.push_back(t); }
            conds[t] = M.Or(conds[t], eq);
            any = M.Or(any, eq);
        }
        BasicBlock *d = sw->getDefaultDest();
        if (!conds.count(d)) { conds[d] = M.F(); order.push_back(d); }
        conds[d] = M.Or(conds[d], M.Not(any));
        // follow each feasible target
        std::vector<std::pair<BasicBlock *, ModelP>> feas;
        std::vector<bool> unk;
        for (auto *t : order)
        {
            ModelP m;
            Res r = feasible(s, conds[t], m);
            if (r != Res::Unsat) { feas.push_back({t, m}); unk.push_back(r == Res::Unknown); }
        }
        if (feas.empty()) { nInfeasible++; throw PathEnd{"infeasible", false}; }
        for (size_t i = 1; i < feas.size(); i++)
        {
            State *o = cloneState(s);
            addPC(*o, conds[feas[i].first]);
            o->model = unk[i] ? nullptr : feas[i].second;
            gotoBB(*o, feas[i].first);
            work.push_back(o);
        }
        addPC(s, conds[feas[0].first]);
        s.model = unk[0] ? nullptr : feas[0].second;
        gotoBB(s, feas[0].first);
        return;
    }
    case Instruction::Unreachable: die(s, "unreachable", "unreachable executed");
    case Instruction::Resume:
    {
        E t = V(0);
        uint64_t obj = (uint64_t)(*t->tuple)[0]->c;
        // typeinfo is stored in the exception header by rt
        E ti = loadN(s, M.C(obj - 32, 64), 8);
        // continue unwinding from the caller
        popFrame(s);
        if (s.stk.empty()) { report(s, "terminate", "uncaught exception", s.model); throw PathEnd{"uncaught", true}; }
        unwind(s, obj, (uint64_t)ti->c);
        return;
    }
    case Instruction::LandingPad: setReg(f, x, f.lp); return;
    case Instruction::Call:
    case Instruction::Invoke: doCall(s, x); return;
    case Instruction::Alloca:
    {
        auto *ai = cast<AllocaInst>(x.I);
        uint64_t n = DL->getTypeAllocSize(ai->getAllocatedType());
        n *= concretize(s, V(0), "alloca count");
        uint32_t id = allocObj(s, n, 2, s.fill < 0 ? 0xAA : s.fill, "stack");
        s.stk.back().allocas.push_back(id);
        setReg(s.stk.back(), x, M.C(addrOf(id), 64));
        return;
    }
    case Instruction::Load: { E r = loadT(s, V(0), x.I->getType()); setReg(s.stk.back(), x, r); return; }
    case Instruction::Store: storeT(s, V(1), V(0), cast<StoreInst>(x.I)->getValueOperand()->getType()); return;
    case Instruction::GetElementPtr:
    {
        auto *g = cast<GetElementPtrInst>(x.I);
        E r = V(0);
        int i = 1;
        for (auto gt = gep_type_begin(g), e = gep_type_end(g); gt != e; ++gt, ++i)
        {
            E idx = V(i);
            if (auto *st = gt.getStructTypeOrNull())
                r = M.Add(r, M.C((uint64_t)DL->getStructLayout(st)->getElementOffset((unsigned)idx->c), 64));
            else
            {
                uint64_t es = DL->getTypeAllocSize(gt.getIndexedType());
                r = M.Add(r, M.Mul(M.SExt(idx, 64), M.C(es, 64)));
            }
        }
        setReg(f, x, r);
        return;
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    {
        static const std::map<unsigned, Op> mp = {{Instruction::Add, Op::Add}, {Instruction::Sub, Op::Sub}, {Instruction::Mul, Op::Mul}, {Instruction::And, Op::And},
                                                  {Instruction::Or, Op::Or}, {Instruction::Xor, Op::Xor}, {Instruction::Shl, Op::Shl}, {Instruction::LShr, Op::LShr},
                                                  {Instruction::AShr, Op::AShr}};
        E a = V(0), b = V(1);
        Op op;
        switch (x.op)
        {
        case Instruction::Add: op = Op::Add; break;
        case Instruction::Sub: op = Op::Sub; break;
        case Instruction::Mul: op = Op::Mul; break;
        case Instruction::And: op = Op::And; break;
        case Instruction::Or: op = Op::Or; break;
        case Instruction::Xor: op = Op::Xor; break;
        case Instruction::Shl: op = Op::Shl; break;
        case Instruction::LShr: op = Op::LShr; break;
        default: op = Op::AShr;
        }
        // the processor takes the amount modulo the register width (in LLVM a larger amount is undefined)
        if ((op == Op::Shl || op == Op::LShr || op == Op::AShr) && b->w <= 64 && !(b->op == Op::Const && b->c < b->w)) b = M.And(b, M.C(b->w <= 32 ? 31 : 63, b->w));
        setReg(f, x, M.bin(op, a, b));
        return;
    }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    {
        E a = V(0), b = V(1);
        E z = M.Eq(b, M.C(0, b->w));
        if (z->op == Op::Const ? z->c != 0 : true)
        {
            if (z->op == Op::Const) die(s, "arith", "division by zero");
            ModelP m;
            Res r = feasible(s, z, m);
            if (r == Res::Sat)
            {
                report(s, "arith", "division by zero", m);
                ModelP m2;
                if (feasible(s, M.Not(z), m2) == Res::Unsat) throw PathEnd{"div0", true};
                addPC(s, M.Not(z));
                s.model = m2;
            }
        }
        Op op = x.op == Instruction::UDiv ? Op::UDiv : x.op == Instruction::SDiv ? Op::SDiv : x.op == Instruction::URem ? Op::URem : Op::SRem;
        setReg(f, x, M.bin(op, a, b));
        return;
    }
    case Instruction::ICmp:
    {
        E a = V(0), b = V(1), r;
        switch (cast<ICmpInst>(x.I)->getPredicate())
        {
        case CmpInst::ICMP_EQ: r = M.Eq(a, b); break;
        case CmpInst::ICMP_NE: r = M.Not(M.Eq(a, b)); break;
        case CmpInst::ICMP_ULT: r = M.Ult(a, b); break;
        case CmpInst::ICMP_ULE: r = M.Ule(a, b); break;
        case CmpInst::ICMP_UGT: r = M.Ult(b, a); break;
        case CmpInst::ICMP_UGE: r = M.Ule(b, a); break;
        case CmpInst::ICMP_SLT: r = M.Slt(a, b); break;
        case CmpInst::ICMP_SLE: r = M.Sle(a, b); break;
        case CmpInst::ICMP_SGT: r = M.Slt(b, a); break;
        default: r = M.Sle(b, a); break;
        }
        setReg(f, x, r);
        return;
    }
    case Instruction::FCmp:
    {
        E a = V(0), b = V(1), r;
        auto uno = [&] { return M.fcmp(Op::FUno, a, b); };
        switch (cast<FCmpInst>(x.I)->getPredicate())
        {
        case CmpInst::FCMP_FALSE: r = M.F(); break;
        case CmpInst::FCMP_TRUE: r = M.T(); break;
        case CmpInst::FCMP_OEQ: r = M.fcmp(Op::FEq, a, b); break;
        case CmpInst::FCMP_OLT: r = M.fcmp(Op::FLt, a, b); break;
        case CmpInst::FCMP_OLE: r = M.fcmp(Op::FLe, a, b); break;
        case CmpInst::FCMP_OGT: r = M.fcmp(Op::FLt, b, a); break;
        case CmpInst::FCMP_OGE: r = M.fcmp(Op::FLe, b, a); break;
        case CmpInst::FCMP_ONE: r = M.Or(M.fcmp(Op::FLt, a, b), M.fcmp(Op::FLt, b, a)); break;
        case CmpInst::FCMP_ORD: r = M.Not(uno()); break;
        case CmpInst::FCMP_UNO: r = uno(); break;
        case CmpInst::FCMP_UEQ: r = M.Not(M.Or(M.fcmp(Op::FLt, a, b), M.fcmp(Op::FLt, b, a))); break;
        case CmpInst::FCMP_UNE: r = M.Not(M.fcmp(Op::FEq, a, b)); break;
        case CmpInst::FCMP_ULT: r = M.Not(M.fcmp(Op::FLe, b, a)); break;
        case CmpInst::FCMP_ULE: r = M.Not(M.fcmp(Op::FLt, b, a)); break;
        case CmpInst::FCMP_UGT: r = M.Not(M.fcmp(Op::FLe, a, b)); break;
        default: r = M.Not(M.fcmp(Op::FLt, a, b)); break;
        }
        setReg(f, x, r);
        return;
    }
    case Instruction::Trunc: setReg(f, x, M.Extract(V(0), 0, widthOf(x.I->getType()))); return;
    case Instruction::ZExt: setReg(f, x, M.ZExt(V(0), widthOf(x.I->getType()))); return;
    case Instruction::SExt: setReg(f, x, M.SExt(V(0), widthOf(x.I->getType()))); return;
    case Instruction::PtrToInt: case Instruction::IntToPtr: setReg(f, x, M.ZExt(V(0), widthOf(x.I->getType()))); return;
    case Instruction::BitCast:
    {
        E v = V(0);
        if (v->op == Op::Tuple || x.I->getType()->isVectorTy())
        {
            if (v->op == Op::Tuple && !x.I->getType()->isVectorTy())
            {
                E r = nullptr;
                for (E k : *v->tuple) r = r ? M.Concat(k, r) : k;
                v = r;
            }
            else if (x.I->getType()->isVectorTy())
            {
                if (v->op == Op::Tuple)
                {
                    E r = nullptr;
                    for (E k : *v->tuple) r = r ? M.Concat(k, r) : k;
                    v = r;
                }
                auto *vt = cast<FixedVectorType>(x.I->getType());
                unsigned ew = widthOf(vt->getElementType());
                std::vector<E> t;
                for (unsigned i = 0; i < vt->getNumElements(); i++) t.push_back(M.Extract(v, i * ew, ew));
                v = M.tuple(t);
            }
        }
        setReg(f, x, v);
        return;
    }
    case Instruction::Freeze: setReg(f, x, V(0)); return;
    case Instruction::FNeg: setReg(f, x, fneg(V(0))); return;
    case Instruction::FAdd: setReg(f, x, M.fbin(Op::FAdd, V(0), V(1))); return;
    case Instruction::FSub: setReg(f, x, M.fbin(Op::FSub, V(0), V(1))); return;
    case Instruction::FMul: setReg(f, x, M.fbin(Op::FMul, V(0), V(1))); return;
    case Instruction::FDiv: setReg(f, x, M.fbin(Op::FDiv, V(0), V(1))); return;
    case Instruction::FRem: setReg(f, x, M.fbin(Op::FRem, V(0), V(1))); return;
    case Instruction::SIToFP: setReg(f, x, M.fun1(Op::SIToFP, widthOf(x.I->getType()), V(0))); return;
    case Instruction::UIToFP: setReg(f, x, M.fun1(Op::UIToFP, widthOf(x.I->getType()), V(0))); return;
    case Instruction::FPToSI: setReg(f, x, M.fun1(Op::FPToSI, widthOf(x.I->getType()), V(0))); return;
    case Instruction::FPToUI: setReg(f, x, M.fun1(Op::FPToUI, widthOf(x.I->getType()), V(0))); return;
    case Instruction::FPExt: setReg(f, x, M.fun1(Op::FExt, widthOf(x.I->getType()), V(0))); return;
    case Instruction::FPTrunc: setReg(f, x, M.fun1(Op::FTrunc, widthOf(x.I->getType()), V(0))); return;
    case Instruction::Select:
    {
        E c = V(0), a = V(1), b = V(2);
        if (c->op == Op::Const) { setReg(f, x, c->c ? a : b); return; }
        if (a == b) { setReg(f, x, a); return; }
        if (a->op == Op::Tuple || b->op == Op::Tuple || x.I->getType()->isPointerTy())
        {
            State *o;
            bool t = branch(s, c, &o);
            if (o) setReg(o->stk.back(), x, b);
            setReg(s.stk.back(), x, t ? a : b);
            return;
        }
        setReg(f, x, M.Ite(c, a, b));
        return;
    }
    case Instruction::ExtractValue:
    {
        E v = V(0);
        for (unsigned i : cast<ExtractValueInst>(x.I)->indices()) v = (*v->tuple)[i];
        setReg(f, x, v);
        return;
    }
    case Instruction::InsertValue:
    {
        auto *iv = cast<InsertValueInst>(x.I);
        std::function<E(E, unsigned)> ins = [&](E agg, unsigned k) -> E
        {
            if (k == iv->getNumIndices()) return V(1);
            std::vector<E> t = *agg->tuple;
            t[iv->getIndices()[k]] = ins(t[iv->getIndices()[k]], k + 1);
            return M.tuple(t);
        };
        setReg(f, x, ins(V(0), 0));
        return;
    }
    case Instruction::ExtractElement:
        setReg(f, x, (*V(0)->tuple)[(unsigned)V(1)->c]);
        return;
    case Instruction::InsertElement:
    {
        std::vector<E> t = *V(0)->tuple;
        t[(unsigned)V(2)->c] = V(1);
        setReg(f, x, M.tuple(t));
        return;
    }
    case Instruction::ShuffleVector:
    {
        auto *sv = cast<ShuffleVectorInst>(x.I);
        E a = V(0), b = V(1);
        std::vector<E> t;
        unsigned n = a->tuple->size();
        for (int m : sv->getShuffleMask()) t.push_back(m < 0 ? (*a->tuple)[0] : (unsigned)m < n ? (*a->tuple)[m] : (*b->tuple)[m - n]);
        setReg(f, x, M.tuple(t));
        return;
    }
    case Instruction::AtomicRMW:
    {
        auto *r = cast<AtomicRMWInst>(x.I);
        E p = V(0), v = V(1);
        E old = loadN(s, p, v->w / 8), nv;
        switch (r->getOperation())
        {
        case AtomicRMWInst::Add: nv = M.Add(old, v); break;
        case AtomicRMWInst::Sub: nv = M.Sub(old, v); break;
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Or: nv = M.Or(old, v); break;
        case AtomicRMWInst::And: nv = M.And(old, v); break;
        default: unsupp(s, "atomicrmw");
        }
        storeN(s, p, nv);
        setReg(s.stk.back(), x, old);
        return;
    }
    case Instruction::AtomicCmpXchg:
    {
        E p = V(0), c = V(1), n = V(2);
        E old = loadN(s, p, c->w / 8);
        E eq = M.Eq(old, c);
        storeN(s, p, M.Ite(eq, n, old));
        setReg(s.stk.back(), x, M.tuple({old, eq}));
        return;
    }
    case Instruction::Fence: return;
    default: unsupp(s, std::string("instruction ") + x.I->getOpcodeName());
    }
}

// ------------------------------------------------------------------ setup
static void initGlobals()
{
    initMem.push_back(ObjP()); // slot 0 = null
    auto newGlobal = [&](uint64_t n, const char *what, int kind)
    {
        Obj *o = new Obj(n);
        o->kind = kind;
        o->what = what;
        memset(o->data, 0, n);
        initMem.push_back(ObjP(o));
        return initMem.size() - 1;
    };
    for (auto &F : *Mod)
    {

        uint32_t id = newGlobal(0, "function", 3);
        gaddr[&F] = addrOf(id);
        fnAtId[addrOf(id)] = &F;
    }
    for (auto &G : Mod->globals())
    {
        uint64_t n = G.hasInitializer() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 256;
        uint32_t id = newGlobal(n, "global", 0);
        gaddr[&G] = addrOf(id);
        gvAt[addrOf(id)] = &G;
    }
    for (auto &A : Mod->aliases())
    {
        E e = constExpr(A.getAliasee());
        gaddr[&A] = (uint64_t)e->c;
    }
    for (auto &G : Mod->globals())
        if (G.hasInitializer() && !isa<ConstantAggregateZero>(G.getInitializer()) && !isa<UndefValue>(G.getInitializer()))
        {
            if (G.getName().starts_with("llvm.")) continue;
            Obj *o = initMem[idFrom(gaddr[&G])].p;
            storeConst(o, 0, constExpr(G.getInitializer()), G.getValueType());
            if (G.isConstant()) o->ro = true;
        }
}

static std::string jesc(const std::string &s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}
template <class V> static void jmodel(std::ostream &o, const V &m)
{
    o << "[";
    bool first = true;
    for (auto &x : m)
    {
        if (!first) o << ",";
        first = false;
        o << "[\"" << jesc(x.first) << "\"," << x.second.first << ",\"" << std::hex << x.second.second << std::dec << "\"]";
    }
    o << "]";
}

// a random point of the path (used for the native cross-check), found by local changes to the path's model
static uint64_t rngState = 88172645463325252ull;
static uint64_t rnd()
{
    rngState ^= rngState << 13;
    rngState ^= rngState >> 7;
    rngState ^= rngState << 17;
    return rngState * 0x2545F4914F6CDD1Dull;
}
static ModelP randomModel(State &s)
{
    auto cur = std::make_shared<Model>();
    cur->v = s.model->v;
    std::unordered_map<uint32_t, std::vector<E>> uses;
    for (E c : s.pc)
        for (uint32_t x : M.symsOf(c)) uses[x].push_back(c);
    unsigned budget = 4000;
    for (uint32_t id : s.symsUsed)
    {
        unsigned w = M.syms[id].w;
        for (int t = 0; t < 3 && budget; t++, budget--)
        {
            uint64_t r = rnd();
            uint64_t v = (t == 2 || (r & 7) == 0) ? (r >> 8) % 5 : rnd();
            if (w < 64) v &= (1ull << w) - 1;
            Model tr;
            tr.v = cur->v;
            tr.v[id] = v;
            bool ok = true;
            for (E c : uses[id])
                if (!tr.eval(c)) { ok = false; break; }
            if (!ok) continue;
            cur->v[id] = v;
            break;
        }
    }
    return cur;
}

static void runLoop(State *init)
{
    work.push_back(init);
    while (!work.empty())
    {
        State *s = work.back();
        work.pop_back();
        cur = s;
        std::string end;
        bool err = false;
        try
        {
            for (;;)
            {
                // on re-execution of a forked instruction the frame pc must point at it again
                unsigned pc0 = s->stk.back().pc;
                size_t w0 = work.size();
                Frame *fr = &s->stk.back();
                (void)fr;
                const Ins &x = s->stk.back().f->bbs[s->stk.back().bb].ins[pc0];
                bool own = x.op == Instruction::Br || x.op == Instruction::Switch || x.op == Instruction::Select;
                bool choose = false;
                if (x.op == Instruction::Call || x.op == Instruction::Invoke)
                {
                    Function *F = cast<CallBase>(x.I)->getCalledFunction();
                    if (F && F->getName() == "sym_choose") choose = true;
                }
                size_t depth = s->stk.size();
                try
                {
                    step(*s);
                }
                catch (PathEnd &)
                {
                    if (!own && !choose)
                        for (size_t i = w0; i < work.size(); i++) if (work[i]->stk.size() == depth) work[i]->stk.back().pc = pc0;
                    throw;
                }
                if (!own && !choose)
                    for (size_t i = w0; i < work.size(); i++) if (work[i]->stk.size() == depth) work[i]->stk.back().pc = pc0;
                if ((nSteps & 0x3ff) == 0)
                {
                    if (elapsedMs() > optTime * 1000)
                    {
                        incomplete = true;
                        if (incompleteWhy.empty()) incompleteWhy = "time limit";
                        throw PathEnd{"time", false};
                    }
                    if ((nSteps & 0xfffff) == 0)
                    {
                        long rss = 0;
                        FILE *fp = fopen("/proc/self/statm", "r");
                        if (fp) { long a; if (fscanf(fp, "%ld %ld", &a, &rss) != 2) rss = 0; fclose(fp); }
                        if ((uint64_t)rss * 4096 > (uint64_t)optMemMB << 20)
                        {
                            incomplete = true;
                            if (incompleteWhy.empty()) incompleteWhy = "memory limit";
                            throw PathEnd{"memlimit", false};
                        }
                    }
                }
                if (s->steps > optMaxSteps) die(*s, "hang", "step limit");
            }
        }
        catch (PathEnd &e)
        {
            end = e.why;
            err = e.err;
        }
        if (end == "infeasible" || end == "assume") nInfeasible += end == "assume";
        else
        {
            nPaths++;
            if (err) nErrPaths++;
            else if (end == "return" || end == "exit")
            {
                nExit++;
                for (auto &r : s->reached) reachCnt[r]++;
                // reservoir-free sampling: keep first few and then sparse ones
                if (!s->approx && s->model && (samples.size() < optSamples / 2 + 1 || ((nPaths & (nPaths - 1)) == 0 && samples.size() < optSamples)))
                {
                    Sample sm;
                    ModelP rm = randomModel(*s);
                    sm.model = dumpModel(*s, *rm);
                    for (auto &o : s->obs) sm.obs.push_back({o.first, (uint64_t)rm->eval(o.second)});
                    sm.end = end;
                    samples.push_back(sm);
                }
            }
            else nKilled++;
        }
        bool stop = end == "time" || end == "memlimit" || nPaths >= optMaxPaths;
        delete s;
        if (stop)
        {
            if (nPaths >= optMaxPaths && !work.empty()) { incomplete = true; if (incompleteWhy.empty()) incompleteWhy = "path limit"; }
            nKilled += work.size();
            for (auto *w : work) delete w;
            work.clear();
        }
    }
}

// let the optimiser inline the C++ library's small functions (clang -O0 marks everything noinline)
static int prep(const char *in, const char *out)
{
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(in, err, ctx);
    if (!m) { fprintf(stderr, "cannot parse %s\n", in); return 2; }
    initBuiltins();
    for (auto &F : *m)
    {
        StringRef n = F.getName();
        if (F.isDeclaration() || builtinIds.count(n.str())) continue;
        if (!n.starts_with("_ZN4copc") && !n.starts_with("_ZNK4copc") && !n.starts_with("_ZN7lazperfeq"))
            F.removeFnAttr(Attribute::NoInline);
    }
    std::error_code ec;
    raw_fd_ostream o(out, ec);
    if (ec) return 2;
    WriteBitcodeToFile(*m, o);
    return 0;
}
int main(int argc, char **argv)
{
    if (argc == 4 && !strcmp(argv[1], "--prep")) return prep(argv[2], argv[3]);
    T0 = std::chrono::steady_clock::now();
    std::string bc;
    unsigned tmo = 10000, fptmo = 20000;
    bool lra = false;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--entry") optEntry = nx();
        else if (a == "--out") optOut = nx();
        else if (a == "--repo") optRepo = nx();
        else if (a == "--time") optTime = std::stod(nx());
        else if (a == "--profile") optProfile = true;
        else if (a == "--max-steps") optMaxSteps = std::stoull(nx());
        else if (a == "--max-paths") optMaxPaths = std::stoull(nx());
        else if (a == "--samples") optSamples = std::stoul(nx());
        else if (a == "--max-err") optMaxErr = std::stoul(nx());
        else if (a == "--depth") optMaxDepth = std::stoul(nx());
        else if (a == "--mem") optMemMB = std::stoul(nx());
        else if (a == "--timeout") tmo = std::stoul(nx());
        else if (a == "--fp-timeout") fptmo = std::stoul(nx());
        else if (a == "--lra") lra = true;
        else if (a == "--no-merge") optMerge = false;
        else if (a == "--addr-desc") addrDesc = true;
        else if (a == "-v") optVerbose = true;
        else if (a == "--seed") rngState ^= std::stoull(nx()) * 0x9E3779B97F4A7C15ull;
        else if (a == "--param")
        {
            std::string p = nx();
            auto e = p.find('=');
            params[p.substr(0, e)] = std::stol(p.substr(e + 1));
        }
        else bc = a;
    }
    Solver solver(M);
    S = &solver;
    solver.timeoutMs = tmo;
    solver.fpTimeoutMs = fptmo;
    solver.useLra = lra;
    LLVMContext C;
    SMDiagnostic d;
    std::unique_ptr<Module> mod = parseIRFile(bc, d, C);
    if (!mod) { fprintf(stderr, "cannot parse %s: %s\n", bc.c_str(), d.getMessage().str().c_str()); return 3; }
    Mod = mod.get();
    DL = &Mod->getDataLayout();
    initBuiltins();
    initGlobals();
    Function *entry = Mod->getFunction(optEntry);
    if (!entry) { fprintf(stderr, "no function %s\n", optEntry.c_str()); return 3; }

    // static constructors, then the harness
    State *st = new State;
    st->mem = initMem;
    initMem.clear();
    st->model = std::make_shared<Model>();
    std::vector<std::pair<unsigned, Function *>> ctors;
    if (auto *g = Mod->getGlobalVariable("llvm.global_ctors"))
        if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer()))
            for (auto &o : ca->operands())
            {
                auto *cs = cast<ConstantStruct>(o);
                if (auto *F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
                    ctors.push_back({(unsigned)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F});
            }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &c : ctors)
    {
        pushFrame(*st, c.second, {});
        try
        {
            for (;;) step(*st);
        }
        catch (PathEnd &e)
        {
            if (e.why != "return") { fprintf(stderr, "static constructor %s: %s\n", c.second->getName().str().c_str(), e.why.c_str()); for (auto &u : unsupported) fprintf(stderr, "  %s\n", u.first.c_str()); return 3; }
        }
        if (!work.empty()) { fprintf(stderr, "static constructor forked\n"); return 3; }
    }
    nSteps = 0;
    st->steps = 0;
    pushFrame(*st, entry, {});
    runLoop(st);

    // results
    std::ofstream fo;
    if (optProfile)
    {
        std::vector<std::pair<uint64_t, std::string>> pv;
        for (auto &kv : fnInfo) pv.push_back({kv.second->prof, kv.first->getName().str()});
        std::sort(pv.rbegin(), pv.rend());
        for (size_t i = 0; i < pv.size() && i < 25; i++) fprintf(stderr, "%6.2f%% %s\n", 100.0 * pv[i].first / (nSteps + 1), pv[i].second.c_str());
    }
    std::ostream *po = &std::cout;
    if (!optOut.empty()) { fo.open(optOut); po = &fo; }
    std::ostream &o = *po;
    auto mapj = [&](const std::map<std::string, uint64_t> &m)
    {
        o << "{";
        bool f = true;
        for (auto &kv : m) { if (!f) o << ","; f = false; o << "\"" << jesc(kv.first) << "\":" << kv.second; }
        o << "}";
    };
    o << "{\"entry\":\"" << optEntry << "\",\"paths\":" << nPaths << ",\"completed\":" << nExit << ",\"error_paths\":" << nErrPaths << ",\"killed\":" << nKilled
      << ",\"forks\":" << nForks << ",\"steps\":" << nSteps << ",\"assume_pruned\":" << nInfeasible << ",\"asserts\":" << nAsserts << ",\"assert_queries\":" << nAssertQ
      << ",\"assert_unknown\":" << nAssertUnknown << ",\"branch_unknown\":" << nBranchUnknown << ",\"complete\":" << (incomplete ? "false" : "true") << ",\"why\":\""
      << jesc(incompleteWhy) << "\",\"wall\":" << elapsedMs() / 1000.0 << ",\n\"solver\":{\"queries\":" << solver.st.queries << ",\"sat\":" << solver.st.sat << ",\"unsat\":" << solver.st.unsat
      << ",\"unknown\":" << solver.st.unknown << ",\"cache\":" << solver.st.cacheHits << ",\"model_hits\":" << solver.st.modelHits << ",\"uf_unsat\":" << solver.st.ufUnsat
      << ",\"lra_unsat\":" << solver.st.lraUnsat << ",\"fpa\":" << solver.st.fpaQueries << ",\"seconds\":" << solver.st.seconds << ",\"max\":" << solver.st.maxq << "},\n\"assert_counts\":";
    mapj(assertCnt);
    o << ",\n\"reach\":";
    mapj(reachCnt);
    o << ",\n\"unknown_asserts\":";
    mapj(unkAsserts);
    o << ",\n\"unsupported\":";
    mapj(unsupported);
    o << ",\n\"repo_functions\":[";
    bool first = true;
    size_t totBB = 0;
    std::set<std::string> names;
    for (auto *f : repoFns)
    {
        totBB += f->bbs.size();
        names.insert(f->F->getName().str());
    }
    for (auto &n : names) { if (!first) o << ","; first = false; o << "\"" << jesc(n) << "\""; }
    o << "],\"repo_blocks_covered\":" << repoBBs.size() << ",\"repo_blocks_total\":" << totBB << ",\n\"errors\":[";
    first = true;
    for (auto &e : errors)
    {
        if (!first) o << ",\n";
        first = false;
        o << "{\"kind\":\"" << jesc(e.kind) << "\",\"label\":\"" << jesc(e.label) << "\",\"where\":\"" << jesc(e.where) << "\",\"model\":";
        jmodel(o, e.model);
        o << "}";
    }
    o << "],\n\"samples\":[";
    first = true;
    for (auto &e : samples)
    {
        if (!first) o << ",\n";
        first = false;
        o << "{\"end\":\"" << e.end << "\",\"model\":";
        jmodel(o, e.model);
        o << ",\"obs\":[";
        bool f2 = true;
        for (auto &x : e.obs) { if (!f2) o << ","; f2 = false; o << "[\"" << jesc(x.first) << "\",\"" << std::hex << x.second << std::dec << "\"]"; }
        o << "]}";
    }
    o << "]}\n";
    o.flush();
    _exit(0);
}
