// Runtime for the symbolic build: the parts of libstdc++/libsupc++ whose bodies are not in headers.
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <functional>
#include <optional>
#include <fstream>
#include "sym.h"

extern "C"
{
    void symex_unwind(void *obj, void *tinfo);
    int sym_is_const(uint64_t);
    char __libc_single_threaded = 1;
    void *__dso_handle = nullptr;

    // ---- exceptions: header of 64 bytes before the object; [obj-32] typeinfo, [obj-40] dtor, [obj-48] refcount, [obj-56] prev
    void *__cxa_allocate_exception(size_t n)
    {
        char *p = (char *)malloc(n + 64);
        memset(p, 0, 64);
        return p + 64;
    }
    void __cxa_free_exception(void *o) { free((char *)o - 64); }
    static void *vp_caught = nullptr; // stack of caught exceptions
    static int vp_uncaught = 0;
    void __cxa_throw(void *o, void *ti, void (*dtor)(void *))
    {
        *(void **)((char *)o - 32) = ti;
        *(void (**)(void *))((char *)o - 40) = dtor;
        *(long *)((char *)o - 16) = 1; // in flight
        vp_uncaught++;
        symex_unwind(o, ti);
    }
    void *__cxa_begin_catch(void *o)
    {
        long *cnt = (long *)((char *)o - 48);
        if (*cnt < 0) *cnt = -*cnt + 1; // rethrown
        else ++*cnt;
        *(long *)((char *)o - 16) = 0;
        vp_uncaught--;
        if (vp_caught != o)
        {
            *(void **)((char *)o - 56) = vp_caught;
            vp_caught = o;
        }
        return o;
    }
    // the object goes when no handler, no exception_ptr and no unwinding needs it
    static void vp_drop(char *o)
    {
        if (*(long *)(o - 48) != 0 || *(long *)(o - 24) != 0 || *(long *)(o - 16) != 0) return;
        void (*d)(void *) = *(void (**)(void *))(o - 40);
        if (d) d(o);
        __cxa_free_exception(o);
    }
    __cxxabiv1::__cxa_refcounted_exception *__cxa_init_primary_exception(void *o, std::type_info *ti, void (*dtor)(void *)) noexcept
    {
        *(void **)((char *)o - 32) = ti;
        *(void (**)(void *))((char *)o - 40) = dtor;
        return (__cxxabiv1::__cxa_refcounted_exception *)o;
    }
    void __cxa_end_catch()
    {
        char *o = (char *)vp_caught;
        if (!o) return;
        long *cnt = (long *)(o - 48);
        if (*cnt < 0)
        {
            if (++*cnt == 0) vp_caught = *(void **)(o - 56);
        }
        else if (--*cnt == 0)
        {
            vp_caught = *(void **)(o - 56);
            vp_drop(o);
        }
    }
    void __cxa_rethrow()
    {
        char *o = (char *)vp_caught;
        if (!o) std::terminate();
        long *cnt = (long *)(o - 48);
        *cnt = -*cnt;
        vp_uncaught++;
        symex_unwind(o, *(void **)(o - 32));
    }
    void *__cxa_get_exception_ptr(void *o) { return o; }
    int __cxa_guard_acquire(char *g) { return !*g; }
    void __cxa_guard_release(char *g) { *g = 1; }
    void __clang_call_terminate_vp() { std::terminate(); }
    int vsnprintf(char *s, size_t n, const char *f, va_list ap)
    {
        size_t k = 0;
        auto put = [&](char c) { if (k + 1 < n) s[k] = c; k++; };
        for (; *f; f++)
        {
            if (*f != '%') { put(*f); continue; }
            f++;
            bool left = false, zero = false, plus = false, space = false, alt = false;
            for (;; f++)
                if (*f == '-') left = true;
                else if (*f == '0') zero = true;
                else if (*f == '+') plus = true;
                else if (*f == ' ') space = true;
                else if (*f == '#') alt = true;
                else break;
            long width = 0, prec = -1;
            if (*f == '*') { width = va_arg(ap, int); f++; }
            else for (; *f >= '0' && *f <= '9'; f++) width = width * 10 + *f - '0';
            if (*f == '.')
            {
                prec = 0;
                if (*++f == '*') { prec = va_arg(ap, int); f++; }
                else for (; *f >= '0' && *f <= '9'; f++) prec = prec * 10 + *f - '0';
            }
            int size = 0;
            for (; *f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'q'; f++) size += *f == 'h' ? -1 : *f == 'l' ? 1 : 2;
            char b[32];
            const char *t = b;
            long len = 0;
            if (*f == '%') { put('%'); continue; }
            if (*f == 'c') b[0] = (char)va_arg(ap, int), len = 1;
            else if (*f == 's')
            {
                t = va_arg(ap, const char *);
                if (!t) t = "(null)";
                while ((prec < 0 || len < prec) && t[len]) len++;
            }
            else if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X' || *f == 'o' || *f == 'p')
            {
                bool sig = *f == 'd' || *f == 'i';
                uint64_t v = *f == 'p' || size > 0 ? va_arg(ap, uint64_t) : sig ? (uint64_t)(int64_t)va_arg(ap, int) : (uint64_t)va_arg(ap, unsigned);
                if (size == -1) v = sig ? (uint64_t)(int64_t)(short)v : (unsigned short)v;
                if (size == -2) v = sig ? (uint64_t)(int64_t)(signed char)v : (unsigned char)v;
                if (!sym_is_const(v)) b[0] = '?', len = 1;
                else
                {
                    unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10;
                    bool neg = sig && (int64_t)v < 0;
                    if (neg) v = 0 - v;
                    char r[24];
                    int m = 0;
                    do
                    {
                        unsigned d = (unsigned)(v % base);
                        r[m++] = (char)(d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10);
                        v /= base;
                    } while (v);
                    while (m < prec && m < 24) r[m++] = '0';
                    if (neg) b[len++] = '-';
                    else if (sig && plus) b[len++] = '+';
                    else if (sig && space) b[len++] = ' ';
                    if (*f == 'p' || (alt && base == 16)) b[len++] = '0', b[len++] = 'x';
                    if (zero && !left && prec < 0)
                        while (m + len < width && m < 24) r[m++] = '0';
                    while (m) b[len++] = r[--m];
                }
            }
            else
            {
                va_arg(ap, double);
                b[0] = '?';
                len = 1;
            }
            if (!left) for (long i = len; i < width; i++) put(' ');
            for (long i = 0; i < len; i++) put(t[i]);
            if (left) for (long i = len; i < width; i++) put(' ');
        }
        if (n) s[k < n ? k : n - 1] = 0;
        return (int)k;
    }
    int snprintf(char *s, size_t n, const char *f, ...)
    {
        va_list ap;
        va_start(ap, f);
        int r = vsnprintf(s, n, f, ap);
        va_end(ap);
        return r;
    }
    int sprintf(char *s, const char *f, ...)
    {
        va_list ap;
        va_start(ap, f);
        int r = vsnprintf(s, ~(size_t)0 >> 1, f, ap);
        va_end(ap);
        return r;
    }
    int *__errno_location()
    {
        static int e;
        return &e;
    }
}

namespace std
{
int uncaught_exceptions() noexcept { return vp_uncaught; }
bool uncaught_exception() noexcept { return vp_uncaught != 0; }
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
const nothrow_t nothrow{};

static const char *vp_dup(const char *s, size_t n)
{
    char *p = (char *)malloc(n + 1);
    memcpy(p, s, n);
    p[n] = 0;
    return p;
}
static size_t vp_len(const char *s)
{
    size_t n = 0;
    while (s[n]) n++;
    return n;
}
__cow_string::__cow_string() { _M_p = vp_dup("", 0); }
__cow_string::__cow_string(const std::string &s) { _M_p = vp_dup(s.data(), s.size()); }
__cow_string::__cow_string(const char *s, size_t n) { _M_p = vp_dup(s, n); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = vp_dup(o._M_p, vp_len(o._M_p)); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept
{
    if (this != &o)
    {
        free((void *)_M_p);
        _M_p = vp_dup(o._M_p, vp_len(o._M_p));
    }
    return *this;
}
__cow_string::~__cow_string() { free((void *)_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept
{
    _M_p = o._M_p;
    o._M_p = vp_dup("", 0);
}
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept
{
    auto t = _M_p;
    _M_p = o._M_p;
    o._M_p = t;
    return *this;
}
#define EXC(T) \
    T::T(const string &s) : _M_msg(s) {} \
    T::T(const char *s) : _M_msg(s, vp_len(s)) {} \
    T::T(const T &o) noexcept : exception(o), _M_msg(o._M_msg) {} \
    T &T::operator=(const T &o) noexcept { _M_msg = o._M_msg; return *this; } \
    T::T(T &&o) noexcept : _M_msg(std::move(o._M_msg)) {} \
    T &T::operator=(T &&o) noexcept { _M_msg = std::move(o._M_msg); return *this; } \
    T::~T() noexcept {} \
    const char *T::what() const noexcept { return _M_msg._M_p; }
EXC(logic_error)
EXC(runtime_error)
#define SUB(T, B) \
    T::T(const string &s) : B(s) {} \
    T::T(const char *s) : B(s) {} \
    T::~T() noexcept {}
SUB(out_of_range, logic_error)
SUB(invalid_argument, logic_error)
SUB(length_error, logic_error)
SUB(domain_error, logic_error)
SUB(range_error, runtime_error)
SUB(overflow_error, runtime_error)
SUB(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_ios_failure(const char *s) { throw runtime_error(s); }
void __throw_ios_failure(const char *s, int) { throw runtime_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }

// ---- red-black tree primitives (plain unbalanced-safe textbook implementation)
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw()
{
    if (x->_M_right)
    {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
    }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_right)
    {
        x = y;
        y = y->_M_parent;
    }
    if (x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left)
    {
        _Rb_tree_node_base *y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        return y;
    }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_left)
    {
        x = y;
        y = y->_M_parent;
    }
    return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
// The search-tree order is what the container semantics depends on; balancing only affects speed, so nodes are
// linked without rotations (every non-header node is black, the header red); a tree that gets deep is built anew.
static _Rb_tree_node_base *vpBuild(_Rb_tree_node_base **v, long n)
{
    if (!n) return nullptr;
    _Rb_tree_node_base *m = v[n / 2];
    m->_M_left = vpBuild(v, n / 2);
    m->_M_right = vpBuild(v + n / 2 + 1, n - n / 2 - 1);
    if (m->_M_left) m->_M_left->_M_parent = m;
    if (m->_M_right) m->_M_right->_M_parent = m;
    return m;
}
static void vpBalance(_Rb_tree_node_base &h)
{
    long n = 0, i = 0;
    for (_Rb_tree_node_base *q = h._M_left; q != &h; q = _Rb_tree_increment(q)) n++;
    _Rb_tree_node_base **v = new _Rb_tree_node_base *[n];
    for (_Rb_tree_node_base *q = h._M_left; q != &h; q = _Rb_tree_increment(q)) v[i++] = q;
    h._M_parent = vpBuild(v, n);
    h._M_parent->_M_parent = &h;
    delete[] v;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw()
{
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left)
    {
        p->_M_left = x;
        if (p == &h)
        {
            h._M_parent = x;
            h._M_right = x;
        }
        else if (p == h._M_left) h._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
    int depth = 0;
    for (_Rb_tree_node_base *q = x; q != &h; q = q->_M_parent) depth++;
    if (depth > 60) vpBalance(h);
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw()
{
    _Rb_tree_node_base *&root = h._M_parent;
    if (h._M_left == z) h._M_left = z->_M_right || z->_M_parent != &h || true ? (z->_M_right ? [&] { auto *m = z->_M_right; while (m->_M_left) m = m->_M_left; return m; }() : z->_M_parent) : nullptr;
    if (h._M_right == z) h._M_right = z->_M_left ? [&] { auto *m = z->_M_left; while (m->_M_right) m = m->_M_right; return m; }() : z->_M_parent;
    auto replace = [&](_Rb_tree_node_base *a, _Rb_tree_node_base *b)
    {
        if (a == root) root = b;
        else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
        else a->_M_parent->_M_right = b;
        if (b) b->_M_parent = a->_M_parent;
    };
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else
    {
        _Rb_tree_node_base *y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z)
        {
            replace(y, y->_M_right);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        replace(z, y);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
        y->_M_color = _S_black;
    }
    return z;
}
namespace __detail
{
void _List_node_base::_M_hook(_List_node_base *const p) noexcept
{
    _M_next = p;
    _M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    _M_prev->_M_next = _M_next;
    _M_next->_M_prev = _M_prev;
}
} // namespace __detail

// ---- locale / ios_base
locale::locale() noexcept : _M_impl(nullptr) {}
locale::locale(const locale &) noexcept : _M_impl(nullptr) {}
locale::~locale() noexcept {}
const locale &locale::operator=(const locale &) noexcept { return *this; }
ios_base::ios_base() noexcept
    : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale()
{
}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept
{
    _M_precision = 6;
    _M_width = 0;
    _M_flags = skipws | dec;
}
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
void ios_base::_M_move(ios_base &r) noexcept
{
    _M_precision = r._M_precision;
    _M_width = r._M_width;
    _M_flags = r._M_flags;
    _M_exception = r._M_exception;
    _M_streambuf_state = r._M_streambuf_state;
}
void ios_base::_M_swap(ios_base &r) noexcept
{
    std::swap(_M_precision, r._M_precision);
    std::swap(_M_width, r._M_width);
    std::swap(_M_flags, r._M_flags);
    std::swap(_M_exception, r._M_exception);
    std::swap(_M_streambuf_state, r._M_streambuf_state);
}
locale ios_base::imbue(const locale &) noexcept { return locale(); }
} // namespace std

extern "C" void *vp_put(void *os, const char *s, long n) { return &std::__ostream_insert(*(std::ostream *)os, s, n); }
extern "C" void vp_str(void *r, const char *s, long n) { ::new (r) std::string(s, n); }

// std::cout / std::cerr / std::clog / std::cin without a buffer: output is discarded
namespace
{
struct NullBuf : std::streambuf
{
    int_type overflow(int_type c) override { return traits_type::not_eof(c); }
    std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};
} // namespace
extern "C"
{
    alignas(std::ostream) char vp_cout[sizeof(std::ostream)] __asm__("_ZSt4cout");
    alignas(std::ostream) char vp_cerr[sizeof(std::ostream)] __asm__("_ZSt4cerr");
    alignas(std::ostream) char vp_clog[sizeof(std::ostream)] __asm__("_ZSt4clog");
    alignas(std::istream) char vp_cin[sizeof(std::istream)] __asm__("_ZSt3cin");
}
alignas(NullBuf) static char vp_null[sizeof(NullBuf)];
__attribute__((constructor(101))) static void vp_init()
{
    NullBuf *b = new (vp_null) NullBuf;
    new (vp_cout) std::ostream(b);
    new (vp_cerr) std::ostream(b);
    new (vp_clog) std::ostream(b);
    new (vp_cin) std::istream(b);
}

namespace vp
{
static MemFile *files = nullptr;
long fileLimit = 1l << 40;
int openFiles = 0;
int failFlush = 1 << 30, flushes = 0;
MemFile *findFile(const char *path, bool create)
{
    for (MemFile *f = files; f; f = f->next)
        if (f->path == path) return f;
    if (!create) return nullptr;
    for (const char *p = path; *p; p++)
        if (*p == '/') return nullptr; // there are no folders
    MemFile *f = new MemFile;
    f->path = path;
    f->size = 0;
    f->next = files;
    files = f;
    return f;
}
} // namespace vp
void std::ios_base::_M_call_callbacks(event) noexcept {}
void std::ios_base::_M_dispose_callbacks() noexcept {}
extern "C" void vp_ios_init() __asm__("_ZSt21ios_base_library_initv");
extern "C" void vp_ios_init() {}
bool std::type_info::__is_pointer_p() const { return false; }
bool std::type_info::__is_function_p() const { return false; }
bool std::type_info::__do_catch(const type_info *, void **, unsigned) const { return false; }
bool std::type_info::__do_upcast(const __cxxabiv1::__class_type_info *, void **) const { return false; }

// ---- exception_ptr, nested exceptions
namespace std
{
namespace __exception_ptr
{
exception_ptr::exception_ptr(void *o) noexcept : _M_exception_object(o) { _M_addref(); }
void exception_ptr::_M_addref() noexcept
{
    if (_M_exception_object) ++*(long *)((char *)_M_exception_object - 24);
}
void exception_ptr::_M_release() noexcept
{
    char *o = (char *)_M_exception_object;
    _M_exception_object = nullptr;
    if (o && --*(long *)(o - 24) == 0) vp_drop(o);
}
void *exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const type_info *exception_ptr::__cxa_exception_type() const noexcept { return *(const type_info **)((char *)_M_exception_object - 32); }
} // namespace __exception_ptr
exception_ptr current_exception() noexcept
{
    exception_ptr p;
    if (vp_caught) new (&p) exception_ptr(*(exception_ptr *)&vp_caught);
    return p;
}
void rethrow_exception(exception_ptr p)
{
    char *o = *(char **)&p;
    *(long *)(o - 16) = 1;
    p = nullptr;
    vp_uncaught++;
    symex_unwind(o, *(void **)(o - 32));
    __builtin_unreachable();
}
nested_exception::~nested_exception() noexcept {}

void __detail::_List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept
{
    if (this == last) return;
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base *const t = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = t;
}
void __detail::_List_node_base::_M_reverse() noexcept
{
    _List_node_base *t = this;
    do
    {
        std::swap(t->_M_next, t->_M_prev);
        t = t->_M_prev;
    } while (t != this);
}
void __detail::_List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept
{
    bool ex = x._M_next == &x, ey = y._M_next == &y;
    std::swap(x._M_next, y._M_next);
    std::swap(x._M_prev, y._M_prev);
    if (ey) x._M_next = x._M_prev = &x;
    else x._M_next->_M_prev = x._M_prev->_M_next = &x;
    if (ex) y._M_next = y._M_prev = &y;
    else y._M_next->_M_prev = y._M_prev->_M_next = &y;
}
size_t _Hash_bytes(const void *ptr, size_t len, size_t seed) // murmur, as in libstdc++
{
    const size_t mul = 0xc6a4a7935bd1e995ull;
    auto mix = [](size_t v) { return v ^ (v >> 47); };
    const unsigned char *b = (const unsigned char *)ptr;
    size_t h = seed ^ (len * mul);
    auto load = [&](size_t at, size_t n) { size_t r = 0; while (n--) r = (r << 8) + b[at + n]; return r; };
    size_t al = len & ~(size_t)7;
    for (size_t i = 0; i < al; i += 8) h = (h ^ (mix(load(i, 8) * mul) * mul)) * mul;
    if (len & 7) h = (h ^ load(al, len & 7)) * mul;
    return mix(mix(h) * mul);
}
size_t _Fnv_hash_bytes(const void *ptr, size_t len, size_t h)
{
    for (size_t i = 0; i < len; i++) h = (h ^ ((const unsigned char *)ptr)[i]) * 1099511628211ull;
    return h;
}
// ---- formatted input
template <> istream &istream::ignore(streamsize n) { return ignore(n, traits_type::eof()); }
template <> istream &istream::ignore(streamsize n, int_type d)
{
    _M_gcount = 0;
    sentry ok(*this, true);
    if (ok)
        while (n == std::numeric_limits<streamsize>::max() || _M_gcount < n)
        {
            int_type c = rdbuf()->sbumpc();
            if (traits_type::eq_int_type(c, traits_type::eof())) { setstate(eofbit); break; }
            _M_gcount++;
            if (traits_type::eq_int_type(c, d)) break;
        }
    return *this;
}
template <> istream &istream::getline(char *s, streamsize n, char d)
{
    _M_gcount = 0;
    ios_base::iostate st = ios_base::goodbit;
    streamsize k = 0;
    sentry ok(*this, true);
    if (ok)
        for (;;)
        {
            int_type c = rdbuf()->sgetc();
            if (traits_type::eq_int_type(c, traits_type::eof())) { st |= eofbit; break; }
            if (traits_type::to_char_type(c) == d) { rdbuf()->sbumpc(); _M_gcount++; break; }
            if (k + 1 >= n) { st |= failbit; break; }
            s[k++] = traits_type::to_char_type(c);
            rdbuf()->sbumpc();
            _M_gcount++;
        }
    if (n > 0) s[k] = 0;
    if (!_M_gcount) st |= failbit;
    if (st) setstate(st);
    return *this;
}
template <> istream &getline(istream &in, string &s, char d)
{
    ios_base::iostate st = ios_base::goodbit;
    bool any = false;
    istream::sentry ok(in, true);
    if (ok)
    {
        s.erase();
        for (;;)
        {
            int c = in.rdbuf()->sbumpc();
            if (c == EOF) { st |= ios_base::eofbit; break; }
            any = true;
            if ((char)c == d) break;
            s += (char)c;
        }
    }
    if (!any) st |= ios_base::failbit;
    if (st) in.setstate(st);
    return in;
}
static bool vp_space(int c) { return c == ' ' || (c >= 9 && c <= 13); }
template <> istream &operator>>(istream &in, string &s)
{
    ios_base::iostate st = ios_base::goodbit;
    bool any = false;
    istream::sentry ok(in, true);
    if (ok)
    {
        if (in.flags() & ios_base::skipws)
            while (in.rdbuf()->sgetc() != EOF && vp_space(in.rdbuf()->sgetc())) in.rdbuf()->sbumpc();
        s.erase();
        streamsize w = in.width(), n = w > 0 ? w : s.max_size();
        for (; (streamsize)s.size() < n;)
        {
            int c = in.rdbuf()->sgetc();
            if (c == EOF) { st |= ios_base::eofbit; break; }
            if (vp_space(c)) break;
            any = true;
            s += (char)c;
            in.rdbuf()->sbumpc();
        }
        in.width(0);
    }
    if (!any) st |= ios_base::failbit;
    if (st) in.setstate(st);
    return in;
}
template <> istream &ws(istream &in)
{
    for (;;)
    {
        int c = in.rdbuf()->sgetc();
        if (c == EOF) { in.setstate(ios_base::eofbit); break; }
        if (!vp_space(c)) break;
        in.rdbuf()->sbumpc();
    }
    return in;
}
// all of a buffer into another one
template <> streamsize __copy_streambufs_eof(streambuf *in, streambuf *out, bool &eof)
{
    streamsize n = 0;
    eof = true;
    for (int c = in->sgetc(); c != EOF; c = in->snextc())
    {
        if (out->sputc((char)c) == EOF) { eof = false; break; }
        n++;
    }
    return n;
}
} // namespace std
extern "C"
{
    double vp_todouble(const char *, const char **);
    // a number's characters; whitespace is skipped as the flags say
    static int vp_number(std::istream &in, char *b, bool real)
    {
        int n = 0;
        std::ios_base::iostate st = std::ios_base::goodbit;
        std::istream::sentry ok(in, true);
        if (ok)
        {
            if (in.flags() & std::ios_base::skipws)
                while (in.rdbuf()->sgetc() != EOF && std::vp_space(in.rdbuf()->sgetc())) in.rdbuf()->sbumpc();
            bool hex = !real && (in.flags() & std::ios_base::basefield) == std::ios_base::hex;
            for (; n < 40;)
            {
                int c = in.rdbuf()->sgetc();
                if (c == EOF) { st |= std::ios_base::eofbit; break; }
                bool good = (c >= '0' && c <= '9') || (!n && (c == '-' || c == '+')) || (hex && ((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))) ||
                            (real && (c == '.' || c == 'e' || c == 'E' || ((c == '-' || c == '+') && (b[n - 1] == 'e' || b[n - 1] == 'E'))));
                if (!good) break;
                b[n++] = (char)c;
                in.rdbuf()->sbumpc();
            }
        }
        b[n] = 0;
        if (!n || (n == 1 && (b[0] == '-' || b[0] == '+'))) st |= std::ios_base::failbit, n = 0;
        if (st) in.setstate(st);
        return n;
    }
    long long strtoll(const char *, char **, int) noexcept;
    unsigned long long strtoull(const char *, char **, int) noexcept;
#define VP_GETI(N, SYM, T) \
    std::istream &N(std::istream &in, T &v) __asm__(SYM); \
    std::istream &N(std::istream &in, T &v) \
    { \
        char b[44]; \
        int base = (in.flags() & std::ios_base::basefield) == std::ios_base::hex ? 16 : (in.flags() & std::ios_base::basefield) == std::ios_base::oct ? 8 : 10; \
        if (!vp_number(in, b, false)) { v = 0; return in; } \
        if (std::is_signed<T>::value) \
        { \
            long long r = strtoll(b, nullptr, base); \
            if (r < (long long)std::numeric_limits<T>::min()) v = std::numeric_limits<T>::min(), in.setstate(std::ios_base::failbit); \
            else if (r > (long long)std::numeric_limits<T>::max()) v = std::numeric_limits<T>::max(), in.setstate(std::ios_base::failbit); \
            else v = (T)r; \
        } \
        else \
        { \
            unsigned long long r = strtoull(b, nullptr, base); \
            if (r > std::numeric_limits<T>::max() && b[0] != '-') v = std::numeric_limits<T>::max(), in.setstate(std::ios_base::failbit); \
            else v = (T)r; \
        } \
        return in; \
    }
    VP_GETI(vp_gi, "_ZNSirsERi", int)
    VP_GETI(vp_gs, "_ZNSirsERs", short)
    VP_GETI(vp_gj, "_ZNSi10_M_extractIjEERSiRT_", unsigned)
    VP_GETI(vp_gt, "_ZNSi10_M_extractItEERSiRT_", unsigned short)
    VP_GETI(vp_gl, "_ZNSi10_M_extractIlEERSiRT_", long)
    VP_GETI(vp_gm, "_ZNSi10_M_extractImEERSiRT_", unsigned long)
    VP_GETI(vp_gx, "_ZNSi10_M_extractIxEERSiRT_", long long)
    VP_GETI(vp_gy, "_ZNSi10_M_extractIyEERSiRT_", unsigned long long)
#define VP_GETF(N, SYM, T) \
    std::istream &N(std::istream &in, T &v) __asm__(SYM); \
    std::istream &N(std::istream &in, T &v) \
    { \
        char b[44]; \
        v = vp_number(in, b, true) ? (T)vp_todouble(b, nullptr) : 0; \
        return in; \
    }
    VP_GETF(vp_gd, "_ZNSi10_M_extractIdEERSiRT_", double)
    VP_GETF(vp_gf, "_ZNSi10_M_extractIfEERSiRT_", float)
    int vp_prec(void *os)
    {
        auto &o = *(std::ostream *)os;
        return o.flags() & std::ios_base::floatfield ? -1 : (int)o.precision();
    }
    int vp_base(void *os)
    {
        auto f = ((std::ostream *)os)->flags() & std::ios_base::basefield;
        return f == std::ios_base::hex ? 16 : f == std::ios_base::oct ? 8 : 10;
    }
}
