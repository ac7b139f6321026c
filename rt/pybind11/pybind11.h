// Stand-in for pybind11 (absent here): class/function registry with pybind11's conversion and overload rules on
// a small model of Python values. Written from pybind11's documentation; see DESIGN.md.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <sys/types.h>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "../sym.h"

namespace pybind11
{
struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct cast_error : std::runtime_error { cast_error() : std::runtime_error("cast") {} cast_error(const char *s) : std::runtime_error(s) {} };
struct index_error : std::runtime_error { index_error(const char *s = "index") : std::runtime_error(s) {} };
struct value_error : std::runtime_error { value_error(const char *s = "value") : std::runtime_error(s) {} };
struct key_error : std::runtime_error { key_error(const char *s = "key") : std::runtime_error(s) {} };
struct stop_iteration : std::runtime_error { stop_iteration(const char *s = "stop") : std::runtime_error(s) {} };
struct error_already_set : std::runtime_error { error_already_set() : std::runtime_error("python error") {} error_already_set(const char *s) : std::runtime_error(s) {} };

enum class return_value_policy { automatic, automatic_reference, copy, move, reference, reference_internal, take_ownership };
enum class K { None, Bool, Int, Float, Str, Bytes, List, Tuple, Inst, Slice };
struct type_rec;
struct value;
class object
{
  public:
    std::shared_ptr<value> v;
    object() {}
    explicit object(std::shared_ptr<value> p) : v(std::move(p)) {}
    explicit operator bool() const { return (bool)v; }
    bool is_none() const;
    template <class T> T cast() const;
};
using handle = object;
struct value
{
    K k = K::None;
    uint64_t i = 0;   // two's complement; big: a value of 2^63 and above
    bool big = false;
    bool borrows = false; // an iterator into another object
    std::vector<std::shared_ptr<value>> keeps;
    double f = 0;
    std::string s;
    std::vector<object> items;
    type_rec *type = nullptr;
    std::shared_ptr<void> holder;
    bool shared = false;
    void *ptr = nullptr;
    object parent;
};
inline bool object::is_none() const { return v && v->k == K::None; }
inline object mk(K k) { object o(std::make_shared<value>()); o.v->k = k; return o; }

// --- registry -------------------------------------------------------------------------------------------------
template <class T> struct tid { static char c; };
template <class T> char tid<T>::c = 0;
struct argrec { std::string name; object dflt; };
using call_t = std::function<object(std::vector<object> &, bool)>;
struct overload { call_t f; size_t n; std::vector<argrec> args; };
struct func { std::string name; std::vector<overload> o; };
struct prop { std::string name; call_t get, set; };
struct type_rec
{
    std::string name;
    void *id;
    bool shared = false;
    std::vector<func> methods;
    std::vector<prop> props;
    std::vector<std::function<bool(const object &)>> implicit;
    std::function<object(const object &)> getstate;
    std::function<object(const object &)> setstate;
};
struct registry
{
    std::vector<type_rec *> types;
    type_rec module;
    type_rec *byId(void *id)
    {
        for (auto *t : types)
            if (t->id == id) return t;
        return nullptr;
    }
    type_rec *byName(const char *n)
    {
        for (auto *t : types)
            if (t->name == n) return t;
        return nullptr;
    }
};
inline registry &reg()
{
    static registry *r = new registry;
    return *r;
}
inline func *findf(type_rec &t, const char *n)
{
    for (auto &f : t.methods)
        if (f.name == n) return &f;
    return nullptr;
}
using kwargs_t = std::vector<std::pair<std::string, object>>;
inline object dispatch(func &f, const std::vector<object> &args, const kwargs_t &kw = {})
{
    for (int pass = f.o.size() > 1 ? 0 : 1; pass < 2; pass++)
        for (auto &o : f.o)
        {
            if (args.size() > o.n) continue;
            std::vector<object> a = args;
            size_t used = 0, off = o.n - o.args.size(); // (self has no argument record)
            bool ok = true;
            for (size_t i = a.size(); i < o.n && ok; i++)
            {
                object x;
                if (i >= off)
                {
                    argrec &r = o.args[i - off];
                    for (auto &p : kw)
                        if (p.first == r.name) { x = p.second; used++; }
                    if (!x) x = r.dflt;
                }
                if (!x) ok = false;
                a.push_back(x);
            }
            if (!ok || used != kw.size()) continue;
            object r = o.f(a, pass == 1);
            if (r) return r;
        }
    throw type_error("incompatible function arguments");
}

// --- conversions ----------------------------------------------------------------------------------------------
struct opaque_none {};
template <class T> struct is_opaque : std::false_type {};
template <class T, class = void> struct caster;
template <class T> object to_py(T &&, int policy = 0, const object &parent = object()); // policy 1: reference_internal

inline bool tryImplicit(type_rec *t, const object &o, object &out)
{
    for (auto &c : t->implicit)
        if (c(o))
        {
            func *f = findf(*t, "__init__");
            if (!f) return false;
            try
            {
                out = dispatch(*f, {o});
            }
            catch (std::exception &) { continue; } // an error while converting only means no conversion
            return true;
        }
    return false;
}
// a registered class
template <class T, class> struct caster
{
    T *p = nullptr;
    object keep;
    bool load(const object &o, bool convert)
    {
        type_rec *t = reg().byId(&tid<T>::c);
        if (!t || !o) return false;
        if (o.v->k == K::Inst && o.v->type == t) keep = o;
        else if (!convert || !tryImplicit(t, o, keep)) return false;
        p = (T *)keep.v->ptr;
        return true;
    }
    T &ref() { return *p; }
};
template <class T> struct caster<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool> && !std::is_same_v<T, char>>>
{
    T x{};
    bool load(const object &o, bool)
    {
        if (!o || (o.v->k != K::Int && o.v->k != K::Bool)) return false;
        uint64_t i = o.v->i;
        if (std::is_unsigned_v<T>)
        {
            if (!o.v->big && (int64_t)i < 0) return false;
            if (sizeof(T) < 8 && i != (uint64_t)(T)i) return false;
        }
        else if (o.v->big || (sizeof(T) < 8 && (int64_t)i != (int64_t)(T)i)) return false;
        x = (T)i;
        return true;
    }
    T &ref() { return x; }
};
template <class T> struct caster<T, std::enable_if_t<std::is_floating_point_v<T>>>
{
    T x{};
    bool load(const object &o, bool convert)
    {
        if (!o) return false;
        if (o.v->k == K::Float) x = (T)o.v->f;
        else if (convert && (o.v->k == K::Int || o.v->k == K::Bool)) x = (T)(o.v->big ? (double)o.v->i : (double)(int64_t)o.v->i);
        else return false;
        return true;
    }
    T &ref() { return x; }
};
template <> struct caster<bool>
{
    bool x = false;
    bool load(const object &o, bool convert)
    {
        if (!o) return false;
        if (o.v->k == K::Bool) x = o.v->i & 1;
        else if (!convert) return false;
        else if (o.v->k == K::None) x = false;
        else if (o.v->k == K::Int) x = o.v->i != 0;
        else if (o.v->k == K::Float) x = o.v->f != 0;
        else return false;
        return true;
    }
    bool &ref() { return x; }
};
template <> struct caster<std::string>
{
    std::string x;
    bool load(const object &o, bool)
    {
        if (!o || (o.v->k != K::Str && o.v->k != K::Bytes)) return false;
        x = o.v->s;
        return true;
    }
    std::string &ref() { return x; }
};
template <class T> struct caster<std::optional<T>>
{
    std::optional<T> x;
    bool load(const object &o, bool convert)
    {
        if (!o) return false;
        if (o.is_none()) return true;
        caster<T> c;
        if (!c.load(o, convert)) return false;
        x = c.ref();
        return true;
    }
    std::optional<T> &ref() { return x; }
};
template <class T> struct elem
{
    static bool load(const object &o, bool convert, T &out)
    {
        caster<T> c;
        if (!c.load(o, convert)) return false;
        out = c.ref();
        return true;
    }
};
template <class T> struct caster<std::vector<T>, std::enable_if_t<!is_opaque<std::vector<T>>::value>>
{
    std::vector<T> x;
    bool load(const object &o, bool convert)
    {
        if (!o || (o.v->k != K::List && o.v->k != K::Tuple)) return false;
        for (auto &e : o.v->items)
        {
            caster<T> c;
            if (!c.load(e, convert)) return false;
            x.push_back(c.ref());
        }
        return true;
    }
    std::vector<T> &ref() { return x; }
};
template <class T, size_t N> struct caster<std::array<T, N>>
{
    std::array<T, N> x{};
    bool load(const object &o, bool convert)
    {
        if (!o || (o.v->k != K::List && o.v->k != K::Tuple) || o.v->items.size() != N) return false;
        for (size_t i = 0; i < N; i++)
            if (!elem<T>::load(o.v->items[i], convert, x[i])) return false;
        return true;
    }
    std::array<T, N> &ref() { return x; }
};
template <class T> struct caster<std::shared_ptr<T>>
{
    std::shared_ptr<T> x;
    bool load(const object &o, bool convert)
    {
        caster<T> c;
        if (!c.load(o, convert)) return false;
        if (!c.keep.v->shared) throw cast_error("holder");
        x = std::shared_ptr<T>(c.keep.v->holder, c.p);
        return true;
    }
    std::shared_ptr<T> &ref() { return x; }
};
template <class T> struct caster<T, std::enable_if_t<std::is_base_of_v<object, T>>>
{
    T x;
    bool load(const object &o, bool)
    {
        if (!o || !T::check(o)) return false;
        x.v = o.v;
        return true;
    }
    T &ref() { return x; }
};
template <class T> T object::cast() const
{
    caster<std::decay_t<T>> c;
    if (!c.load(*this, true)) throw cast_error();
    return c.ref();
}

struct none : object { none() : object(mk(K::None)) {} };
struct none_t {};
using size_t = std::size_t;
using ssize_t = ::ssize_t;
// an element of a sequence: reading gives the object, assigning replaces it
struct item : object
{
    object *slot;
    explicit item(object &o) : object(o), slot(&o) {}
    item(const item &) = default;
    template <class X> item &operator=(X &&x)
    {
        *slot = to_py(std::forward<X>(x));
        v = slot->v;
        return *this;
    }
    item &operator=(const item &x) { *slot = object(x.v); v = x.v; return *this; }
};
class tuple : public object
{
  public:
    static bool check(const object &o) { return o.v->k == K::Tuple; }
    tuple() {}
    explicit tuple(size_t n) { v = mk(K::Tuple).v; while (n--) v->items.push_back(none()); }
    size_t size() const { return v->items.size(); }
    bool empty() const { return !size(); }
    const object *begin() const { return v->items.data(); }
    const object *end() const { return v->items.data() + size(); }
    item operator[](size_t i) const
    {
        if (i >= size()) throw error_already_set("tuple index");
        return item(v->items[i]);
    }
};
class list : public object
{
  public:
    static bool check(const object &o) { return o.v->k == K::List; }
    list() { v = mk(K::List).v; }
    explicit list(size_t n) : list() { while (n--) v->items.push_back(none()); }
    template <class X> void insert(size_t i, const X &x) { v->items.insert(v->items.begin() + i, to_py(x)); }
    size_t size() const { return v->items.size(); }
    bool empty() const { return !size(); }
    const object *begin() const { return v->items.data(); }
    const object *end() const { return v->items.data() + size(); }
    template <class X> void append(const X &x) { v->items.push_back(to_py(x)); }
    item operator[](size_t i) const
    {
        if (i >= size()) throw error_already_set("list index");
        return item(v->items[i]);
    }
};
// any list or tuple
class sequence : public object
{
  public:
    static bool check(const object &o) { return o.v->k == K::List || o.v->k == K::Tuple; }
    size_t size() const { return v->items.size(); }
    bool empty() const { return !size(); }
    const object *begin() const { return v->items.data(); }
    const object *end() const { return v->items.data() + size(); }
    item operator[](size_t i) const
    {
        if (i >= size()) throw error_already_set("index");
        return item(v->items[i]);
    }
};
using iterable = sequence;
class bytes : public object
{
  public:
    static bool check(const object &o) { return o.v->k == K::Bytes; }
    bytes() {}
    bytes(const std::string &s) { v = mk(K::Bytes).v; v->s = s; }
    operator std::string() const { return v->s; }
};
class str : public object
{
  public:
    static bool check(const object &o) { return o.v->k == K::Str; }
    str() { v = mk(K::Str).v; }
    str(const std::string &s) { v = mk(K::Str).v; v->s = s; }
    operator std::string() const { return v->s; }
};
class int_ : public object
{
  public:
    static bool check(const object &o) { return o.v->k == K::Int || o.v->k == K::Bool; }
    int_() : int_(0) {}
    template <class X, std::enable_if_t<std::is_integral_v<X>, int> = 0> int_(X x) { v = to_py(x).v; }
    template <class X, std::enable_if_t<std::is_integral_v<X>, int> = 0> operator X() const { return cast<X>(); }
};
class float_ : public object
{
  public:
    static bool check(const object &o) { return o.v->k == K::Float; }
    float_() : float_(0.0) {}
    float_(double x) { v = to_py(x).v; }
    operator double() const { return cast<double>(); }
};
class bool_ : public object
{
  public:
    static bool check(const object &o) { return o.v->k == K::Bool; }
    bool_(bool x = false) { v = to_py(x).v; }
    operator bool() const { return v->i != 0; }
};
template <class T> T reinterpret_borrow(const object &o) { T t; t.v = o.v; return t; }
template <class T> T reinterpret_steal(const object &o) { T t; t.v = o.v; return t; }
inline size_t len(const object &o) { return o.v->items.size(); }
template <class T> T cast(const object &o) { return o.template cast<T>(); }
template <class T, std::enable_if_t<!std::is_base_of_v<object, T>, int> = 0> object cast(const T &x) { return to_py(x); }
template <class T> bool isinstance(const object &o)
{
    caster<T> c;
    return c.load(o, false);
}
// slice(start, stop, step) with None for an absent part
class slice : public object
{
  public:
    static bool check(const object &o) { return o.v->k == K::Slice; }
    bool compute(size_t length, size_t *start, size_t *stop, size_t *step, size_t *slicelength) const
    {
        auto &p = v->items;
        int64_t n = (int64_t)length, st = p[2].is_none() ? 1 : (int64_t)p[2].v->i;
        if (st == 0) return false;
        int64_t lo = st < 0 ? -1 : 0, hi = st < 0 ? n - 1 : n;
        auto clip = [&](const object &o, int64_t d) {
            if (o.is_none()) return d;
            int64_t x = (int64_t)o.v->i;
            if (x < 0)
            {
                x += n;
                if (x < lo) x = lo;
            }
            else if (x > hi) x = hi;
            return x;
        };
        int64_t a = clip(p[0], st < 0 ? hi : lo), b = clip(p[1], st < 0 ? lo : hi), len = 0;
        if (st < 0 && b < a) len = (a - b - 1) / -st + 1;
        if (st > 0 && a < b) len = (b - a - 1) / st + 1;
        *start = (size_t)a; *stop = (size_t)b; *step = (size_t)st; *slicelength = (size_t)len;
        return true;
    }
    bool compute(ssize_t length, ssize_t *start, ssize_t *stop, ssize_t *step, ssize_t *slicelength) const
    {
        return compute((size_t)length, (size_t *)start, (size_t *)stop, (size_t *)step, (size_t *)slicelength);
    }
};

// strict UTF-8, without branching on the bytes
inline bool utf8(const std::string &s)
{
    uint32_t need = 0, lo = 0x80, hi = 0xbf, ok = 1;
    for (size_t i = 0; i < s.size(); i++)
    {
        uint32_t c = (uint8_t)s[i];
        uint32_t start = need == 0;
        uint32_t two = (c >= 0xc2) & (c <= 0xdf), three = (c >= 0xe0) & (c <= 0xef), four = (c >= 0xf0) & (c <= 0xf4), one = c < 0x80;
        uint32_t good = (uint32_t)sym_ite(start, one | two | three | four, (c >= lo) & (c <= hi));
        ok &= good;
        need = (uint32_t)sym_ite(start, two + 2 * three + 3 * four, need - 1);
        lo = (uint32_t)sym_ite(start & (c == 0xe0), 0xa0, sym_ite(start & (c == 0xf0), 0x90, 0x80));
        hi = (uint32_t)sym_ite(start & (c == 0xed), 0x9f, sym_ite(start & (c == 0xf4), 0x8f, 0xbf));
    }
    return ok & (need == 0);
}

template <class T> struct is_vec : std::false_type {};
template <class T> struct is_vec<std::vector<T>> : std::bool_constant<!is_opaque<std::vector<T>>::value> {};
template <class T, size_t N> struct is_vec<std::array<T, N>> : std::true_type {};
template <class T> struct is_sp : std::false_type {};
template <class T> struct is_sp<std::shared_ptr<T>> : std::true_type { using type = T; };
template <class T> struct is_opt : std::false_type {};
template <class T> struct is_opt<std::optional<T>> : std::true_type {};

inline object inst(type_rec *t, std::shared_ptr<void> h, void *p, bool shared)
{
    object o = mk(K::Inst);
    o.v->type = t; o.v->holder = std::move(h); o.v->ptr = p; o.v->shared = shared;
    return o;
}
template <class T> type_rec *need()
{
    type_rec *t = reg().byId(&tid<T>::c);
    if (!t) throw type_error("unregistered type");
    return t;
}
template <class T> object to_py(T &&x, int policy, const object &parent)
{
    using D = std::decay_t<T>;
    if constexpr (std::is_base_of_v<object, D>) return x;
    else if constexpr (std::is_same_v<D, bool>) { object o = mk(K::Bool); o.v->i = x ? 1 : 0; return o; }
    else if constexpr (std::is_same_v<D, std::nullptr_t>) return none();
    else if constexpr (std::is_enum_v<D>) { object o = mk(K::Int); o.v->i = (uint64_t)(int64_t)x; return o; }
    else if constexpr (std::is_integral_v<D>)
    {
        object o = mk(K::Int);
        o.v->i = std::is_signed_v<D> ? (uint64_t)(int64_t)x : (uint64_t)x;
        if (std::is_unsigned_v<D> && sizeof(D) == 8) o.v->big = o.v->i >> 63;
        return o;
    }
    else if constexpr (std::is_floating_point_v<D>) { object o = mk(K::Float); o.v->f = x; return o; }
    else if constexpr (std::is_same_v<D, std::string>)
    {
        if (!utf8(x)) throw error_already_set("UnicodeDecodeError");
        object o = mk(K::Str);
        o.v->s = x;
        return o;
    }
    else if constexpr (std::is_same_v<D, const char *> || std::is_same_v<D, char *>)
    {
        object o = mk(K::Str);
        o.v->s = x;
        return o;
    }
    else if constexpr (is_opt<D>::value) return x ? to_py(*x, policy, parent) : none();
    else if constexpr (is_vec<D>::value)
    {
        object o = mk(K::List);
        for (auto &e : x) o.v->items.push_back(to_py(e, 0, parent));
        return o;
    }
    else if constexpr (is_sp<D>::value)
    {
        if (!x) return none();
        using U = typename is_sp<D>::type;
        return inst(need<std::remove_const_t<U>>(), x, (void *)x.get(), true);
    }
    else if constexpr (std::is_pointer_v<D>)
    {
        using U = std::remove_cv_t<std::remove_pointer_t<D>>;
        if (!x) return none();
        if (policy == 1)
        {
            object o = inst(need<U>(), parent.v, (void *)x, false);
            return o;
        }
        std::shared_ptr<U> h((U *)x);
        return inst(need<U>(), h, h.get(), need<U>()->shared);
    }
    else
    {
        type_rec *t = need<D>();
        if (policy == 1 && std::is_lvalue_reference_v<T>) return inst(t, parent.v, (void *)&x, false);
        auto h = std::make_shared<D>(std::forward<T>(x));
        return inst(t, h, h.get(), t->shared);
    }
}
template <class... A> tuple make_tuple(A &&...a)
{
    tuple t;
    t.v = mk(K::Tuple).v;
    (t.v->items.push_back(to_py(std::forward<A>(a))), ...);
    return t;
}
template <return_value_policy P = return_value_policy::reference_internal, class I, class... X> object make_iterator(I b, I e, X &&...)
{
    object o = mk(K::List);
    for (; b != e; ++b) o.v->items.push_back(to_py(*b));
    o.v->borrows = true;
    return o;
}

// --- functions ------------------------------------------------------------------------------------------------
struct arg_v { std::string name; object value; };
struct arg
{
    std::string name;
    explicit arg(const char *n) : name(n) {}
    template <class T> arg_v operator=(T &&x) const { return {name, to_py(std::forward<T>(x))}; }
};
struct is_operator {};
// without effect here
struct gil_scoped_release {};
struct gil_scoped_acquire {};
template <class... G> struct call_guard {};
struct doc { doc(const char *) {} };
struct name { name(const char *) {} };
struct module_local {};
struct dynamic_attr {};
template <int A, int B> struct keep_alive {};
namespace literals
{
inline arg operator""_a(const char *n, size_t) { return arg(n); }
}
// the policy among the extra arguments
inline void polOf(int &p, return_value_policy r) { p = r == return_value_policy::reference || r == return_value_policy::reference_internal ? 1 : r == return_value_policy::automatic || r == return_value_policy::automatic_reference ? p : 0; }
template <class X> void polOf(int &, const X &) {}
template <class X> struct keepsIt : std::false_type {};
template <int A, int B> struct keepsIt<keep_alive<A, B>> : std::true_type
{
    static call_t wrap(call_t c)
    {
        return [c](std::vector<object> &a, bool convert) {
            object r = c(a, convert);
            object n = A ? a[A - 1] : r, p = B ? a[B - 1] : r;
            if (n.v && p.v && n.v->k != K::None) n.v->keeps.push_back(p.v);
            return r;
        };
    }
};
template <class X> call_t keeping(call_t c)
{
    if constexpr (keepsIt<X>::value) return keepsIt<X>::wrap(c);
    else return c;
}
template <class... X> int policy(int dflt, const X &...x)
{
    (polOf(dflt, x), ...);
    return dflt;
}
static constexpr auto const_ = std::true_type{};
template <class... A> struct overload_cast_t
{
    template <class R> constexpr auto operator()(R (*f)(A...)) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const { return f; }
};
template <class... A> static constexpr overload_cast_t<A...> overload_cast = {};

template <class T> struct sig;
template <class R, class... A> struct sig<R (*)(A...)> { using ret = R; using args = std::tuple<A...>; };
template <class R, class C, class... A> struct sig<R (C::*)(A...) const> { using ret = R; using args = std::tuple<A...>; };
template <class R, class C, class... A> struct sig<R (C::*)(A...)> { using ret = R; using args = std::tuple<A...>; };

template <class A, class C> decltype(auto) pass(C &c)
{
    using P = std::remove_reference_t<A>;
    if constexpr (std::is_pointer_v<P>) return &c.ref();
    else if constexpr (std::is_lvalue_reference_v<A>) return (c.ref());
    else return std::remove_cv_t<P>(c.ref());
}
template <class A> using caster_of = caster<std::remove_cv_t<std::remove_pointer_t<std::remove_cv_t<std::remove_reference_t<A>>>>>;

template <class R, class F, class... A, size_t... I>
object invoke_(F &f, std::vector<object> &a, bool convert, int policy, std::tuple<A...> *, std::index_sequence<I...>)
{
    std::tuple<caster_of<A>...> c;
    bool ok = true;
    ((ok = ok && std::get<I>(c).load(a[I], convert)), ...);
    if (!ok) return object();
    object parent = a.empty() ? object() : a[0];
    if constexpr (std::is_void_v<R>)
    {
        f(pass<A>(std::get<I>(c))...);
        return none();
    }
    else return to_py<R>(f(pass<A>(std::get<I>(c))...), policy, parent);
}
template <class F, class S> call_t wrap(F f, S *, int policy)
{
    using T = typename S::args;
    return [f, policy](std::vector<object> &a, bool convert) mutable {
        return invoke_<typename S::ret>(f, a, convert, policy, (T *)nullptr, std::make_index_sequence<std::tuple_size_v<T>>{});
    };
}
template <class X> struct made { call_t f; size_t n; };
// free functions and lambdas
template <class F> call_t make_fn(F f, size_t &n, int policy = 0)
{
    if constexpr (std::is_pointer_v<F>)
    {
        n = std::tuple_size_v<typename sig<F>::args>;
        return wrap(f, (sig<F> *)nullptr, policy);
    }
    else
    {
        using S = sig<decltype(&F::operator())>;
        n = std::tuple_size_v<typename S::args>;
        return wrap(f, (S *)nullptr, policy);
    }
}
// members, called on the bound class T
template <class T, class R, class C, class... A> call_t make_m(R (C::*f)(A...), size_t &n, int policy = 0)
{
    return make_fn([f](T &t, A... a) -> R { return (t.*f)(std::forward<A>(a)...); }, n, policy);
}
template <class T, class R, class C, class... A> call_t make_m(R (C::*f)(A...) const, size_t &n, int policy = 0)
{
    return make_fn([f](const T &t, A... a) -> R { return (t.*f)(std::forward<A>(a)...); }, n, policy);
}
template <class T, class F, std::enable_if_t<!std::is_member_pointer_v<F>, int> = 0> call_t make_m(F f, size_t &n, int policy = 0)
{
    return make_fn(f, n, policy);
}

inline void extra(std::vector<argrec> &v, const arg &a) { v.push_back({a.name, object()}); }
inline void extra(std::vector<argrec> &v, const arg_v &a) { v.push_back({a.name, a.value}); }
template <class X> void extra(std::vector<argrec> &, const X &) {}
inline void addf(type_rec &t, const char *name, call_t f, size_t n, std::vector<argrec> args)
{
    func *g = findf(t, name);
    if (!g)
    {
        t.methods.push_back({name, {}});
        g = &t.methods.back();
    }
    g->o.push_back({std::move(f), n, std::move(args)});
}

template <class... A> struct ctor_t
{
    template <class T> static call_t make(size_t &n)
    {
        return make_fn(+[](A... a) -> T * {
            if constexpr (std::is_constructible_v<T, A...>) return new T(std::forward<A>(a)...);
            else return new T{std::forward<A>(a)...};
        }, n);
    }
};
template <class F> struct factory_t { F f; };
template <class... A> ctor_t<A...> init() { return {}; }
template <class F> factory_t<F> init(F f) { return {f}; }
struct self_t {};
static const self_t self;
struct op_eq {};
struct op_ne {};
struct op_hash {};
inline op_eq operator==(self_t, self_t) { return {}; }
inline op_ne operator!=(self_t, self_t) { return {}; }
inline op_hash hash(self_t) { return {}; }
template <class G, class S> struct pickle_t { G g; S s; };
template <class G, class S> pickle_t<G, S> pickle(G g, S s) { return {g, s}; }

template <class T, class... Opt> class class_
{
  public:
    type_rec *t;
    template <class M, class... X> class_(M &, const char *name, const X &...)
    {
        t = new type_rec;
        t->name = name;
        t->id = &tid<T>::c;
        t->shared = (is_sp<Opt>::value || ...);
        reg().types.push_back(t);
    }
    template <class F, class... X> class_ &def(factory_t<F> y, const X &...x) { return def("__init__", y.f, x...); }
    template <class... A, class... X> class_ &def(ctor_t<A...>, const X &...x)
    {
        size_t n;
        call_t f = ctor_t<A...>::template make<T>(n);
        std::vector<argrec> r;
        (extra(r, x), ...);
        addf(*t, "__init__", f, n, r);
        return *this;
    }
    template <class F, class... X> class_ &def(const char *name, F f, const X &...x)
    {
        size_t n;
        call_t c = make_m<T>(f, n, policy(0, x...));
        ((c = keeping<X>(c)), ...);
        std::vector<argrec> r;
        (extra(r, x), ...);
        addf(*t, name, c, n, r);
        return *this;
    }
    template <class F, class... X> class_ &def_static(const char *name, F f, const X &...x) { return def(name, f, x...); }
    template <class... X> class_ &def(op_eq, const X &...) { return def("__eq__", [](const T &a, const T &b) { return a == b; }); }
    template <class... X> class_ &def(op_ne, const X &...) { return def("__ne__", [](const T &a, const T &b) { return a != b; }); }
    template <class... X> class_ &def(op_hash, const X &...) { return def("__hash__", [](const T &a) { return (size_t)std::hash<T>()(a); }); }
    template <class G, class S> class_ &def(pickle_t<G, S> p)
    {
        size_t n;
        call_t g = make_fn(p.g, n), s = make_fn(p.s, n);
        t->getstate = [g](const object &o) { std::vector<object> a{o}; return g(a, true); };
        t->setstate = [s](const object &o) { std::vector<object> a{o}; return s(a, true); };
        return *this;
    }
    template <class C, class D, class... X> class_ &def_readwrite(const char *name, D C::*pm, const X &...x)
    {
        size_t n;
        t->props.push_back({name, make_fn([pm](T &o) -> D & { return o.*pm; }, n, policy(1, x...)), make_fn([pm](T &o, const D &v) { o.*pm = v; }, n)});
        return *this;
    }
    template <class C, class D, class... X> class_ &def_readonly(const char *name, D C::*pm, const X &...x)
    {
        size_t n;
        t->props.push_back({name, make_fn([pm](T &o) -> D & { return o.*pm; }, n, policy(1, x...)), call_t()});
        return *this;
    }
    template <class G, class S, class... X> class_ &def_property(const char *name, G g, S s, const X &...x)
    {
        size_t n;
        call_t gc;
        if constexpr (!std::is_same_v<G, std::nullptr_t>) gc = make_m<T>(g, n, policy(1, x...));
        t->props.push_back({name, gc, make_m<T>(s, n)});
        return *this;
    }
    template <class G, class... X> class_ &def_property_readonly(const char *name, G g, const X &...x)
    {
        size_t n;
        t->props.push_back({name, make_m<T>(g, n, policy(1, x...)), call_t()});
        return *this;
    }
    object attr_;
    item attr(const char *) { return item(attr_); }
    template <class X> class_ &doc(const X &) { return *this; }
};
class module_
{
  public:
    object attr_;
    std::string doc_;
    item attr(const char *) { return item(attr_); }
    std::string &doc() { return doc_; }
    template <class F, class... X> module_ &def(const char *name, F f, const X &...x)
    {
        size_t n;
        call_t c = make_fn(f, n);
        std::vector<argrec> r;
        (extra(r, x), ...);
        addf(reg().module, name, c, n, r);
        return *this;
    }
};
template <class From, class To> void implicitly_convertible()
{
    type_rec *t = need<To>();
    t->implicit.push_back([](const object &o) { caster<From> c; return c.load(o, false); });
}
struct buffer_protocol {};
template <class V, class... X> class_<V> bind_vector(module_ &m, const char *name, const X &...)
{
    class_<V> c(m, name);
    c.def(init<>());
    c.def(init<const V &>());
    c.def("__len__", [](const V &v) { return v.size(); });
    c.def("append", [](V &v, int x) { v.push_back((char)x); });
    c.def("__eq__", [](const V &a, const V &b) { return a == b; });
    return c;
}

// --- what Python code does ------------------------------------------------------------------------------------
inline object I(int64_t x) { return to_py(x); }
inline object U(uint64_t x) { return to_py(x); }
inline object F(double x) { return to_py(x); }
inline object B(bool x) { return to_py(x); }
inline object S(const std::string &x) { object o = mk(K::Str); o.v->s = x; return o; }
inline object L(std::vector<object> v) { object o = mk(K::List); o.v->items = std::move(v); return o; }
inline object T(std::vector<object> v) { object o = mk(K::Tuple); o.v->items = std::move(v); return o; }
inline object N() { return none(); }
inline object SL(object a, object b, object c) { object o = mk(K::Slice); o.v->items = {a, b, c}; return o; }
inline object call(const char *f, const std::vector<object> &a, const kwargs_t &kw = {})
{
    if (type_rec *t = reg().byName(f))
    {
        func *g = findf(*t, "__init__");
        if (!g) throw type_error("no constructor");
        return dispatch(*g, a, kw);
    }
    func *g = findf(reg().module, f);
    if (!g) throw type_error("no such function");
    return dispatch(*g, a, kw);
}
inline object scall(const char *cls, const char *m, const std::vector<object> &a, const kwargs_t &kw = {})
{
    type_rec *t = reg().byName(cls);
    func *g = t ? findf(*t, m) : nullptr;
    if (!g) throw type_error("no such method");
    return dispatch(*g, a, kw);
}
inline object mcall(const object &o, const char *m, std::vector<object> a = {}, const kwargs_t &kw = {})
{
    func *g = o.v->type ? findf(*o.v->type, m) : nullptr;
    if (!g) throw type_error("no such method");
    a.insert(a.begin(), o);
    return dispatch(*g, a, kw);
}
inline prop *findp(const object &o, const char *n)
{
    if (o.v->type)
        for (auto &p : o.v->type->props)
            if (p.name == n) return &p;
    throw type_error("no such attribute");
}
inline object get(const object &o, const char *n)
{
    prop *p = findp(o, n);
    if (!p->get) throw type_error("unreadable attribute");
    std::vector<object> a{o};
    object r = p->get(a, true);
    if (!r) throw type_error("getter");
    return r;
}
inline void set(const object &o, const char *n, const object &x)
{
    prop *p = findp(o, n);
    if (!p->set) throw type_error("can't set attribute");
    std::vector<object> a{o, x};
    if (!p->set(a, true)) throw type_error("setter");
}
template <class X> X &as(const object &o)
{
    caster<X> c;
    if (!c.load(o, false)) throw type_error("as");
    return *(X *)o.v->ptr;
}
// pickle.loads(pickle.dumps(o)): the state is copied, instances in it likewise
inline object repickle(const object &o)
{
    if (o.v->k == K::Inst)
    {
        if (!o.v->type->getstate) throw type_error("cannot pickle");
        return o.v->type->setstate(repickle(o.v->type->getstate(o)));
    }
    object r = mk(o.v->k);
    *r.v = *o.v;
    for (auto &x : r.v->items) x = repickle(x);
    return r;
}
} // namespace pybind11
#define PYBIND11_MAKE_OPAQUE(...) namespace pybind11 { template <> struct is_opaque<__VA_ARGS__> : std::true_type {}; }
#define PYBIND11_MODULE(name, m) static void pybind11_init_##name(pybind11::module_ &m)
