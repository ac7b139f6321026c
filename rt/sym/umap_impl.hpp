// Verification model of the unordered associative containers: same interface, iteration order is insertion order or
// its reverse (parameter "umap_order"), node addresses are stable, lookups compare hash codes and then keys.
#pragma once
#include <bits/functional_hash.h>
#include <bits/stl_function.h>
#include <bits/stl_pair.h>
#include <bits/stl_iterator_base_types.h>
#include <bits/allocator.h>
#include <bits/functexcept.h>
#include <initializer_list>
#include <tuple>
#include <string>
extern "C" long sym_param(const char *, long);
extern "C" int sym_is_const(unsigned long);
namespace vp
{
template <class Val> struct UNode
{
    UNode *prev, *next, *same = nullptr; // same: the next one in the index's bucket
    Val v;
    template <class... A> UNode(A &&...a) : prev(nullptr), next(nullptr), v(std::forward<A>(a)...) {}
};
template <class Val, bool Const> struct UIter
{
    typedef std::forward_iterator_tag iterator_category;
    typedef Val value_type;
    typedef std::ptrdiff_t difference_type;
    typedef typename std::conditional<Const, const Val *, Val *>::type pointer;
    typedef typename std::conditional<Const, const Val &, Val &>::type reference;
    UNode<Val> *n;
    UIter(UNode<Val> *n = nullptr) : n(n) {}
    template <bool C2, class = typename std::enable_if<Const && !C2>::type> UIter(const UIter<Val, C2> &o) : n(o.n) {}
    reference operator*() const { return n->v; }
    pointer operator->() const { return &n->v; }
    UIter &operator++() { n = n->next; return *this; }
    UIter operator++(int) { UIter t = *this; n = n->next; return t; }
    template <bool C2> bool operator==(const UIter<Val, C2> &o) const { return n == o.n; }
    template <bool C2> bool operator!=(const UIter<Val, C2> &o) const { return n != o.n; }
};
template <class K, class Val, class H, class E, class KeyOf, bool Unique> struct UTable
{
    typedef K key_type;
    typedef Val value_type;
    typedef std::size_t size_type;
    typedef std::ptrdiff_t difference_type;
    typedef H hasher;
    typedef E key_equal;
    typedef Val &reference;
    typedef const Val &const_reference;
    typedef UIter<Val, false> iterator;
    typedef UIter<Val, true> const_iterator;
    typedef iterator local_iterator;
    typedef UNode<Val> N;
    N *head = nullptr, *tail = nullptr;
    std::size_t n_ = 0;
    mutable N **index_ = nullptr; // of large tables whose hash codes are all concrete
    mutable bool symbolic_ = false;
    H h_;
    E e_;
    UTable() {}
    explicit UTable(std::size_t, const H &h = H(), const E &e = E()) : h_(h), e_(e) {}
    UTable(const UTable &o) : h_(o.h_), e_(o.e_) { for (N *p = o.head; p; p = p->next) append(new N(p->v)); }
    UTable(UTable &&o) : h_(o.h_), e_(o.e_) { swap(o); }
    template <class It> UTable(It a, It b) { for (; a != b; ++a) insert(*a); }
    UTable(std::initializer_list<Val> l) { for (auto &v : l) insert(v); }
    UTable &operator=(const UTable &o)
    {
        if (this != &o)
        {
            clear();
            for (N *p = o.head; p; p = p->next) append(new N(p->v));
        }
        return *this;
    }
    UTable &operator=(UTable &&o)
    {
        if (this != &o) { clear(); swap(o); }
        return *this;
    }
    ~UTable() { clear(); }
    enum { Buckets = 512 };
    void enter(N *p) const
    {
        std::size_t hc = h_(KeyOf()(p->v));
        if (!sym_is_const(hc)) { symbolic_ = true; drop(); return; }
        p->same = index_[hc % Buckets];
        index_[hc % Buckets] = p;
    }
    void drop() const
    {
        delete[] index_;
        index_ = nullptr;
    }
    void swap(UTable &o)
    {
        std::swap(head, o.head);
        std::swap(tail, o.tail);
        std::swap(n_, o.n_);
        std::swap(index_, o.index_);
        std::swap(symbolic_, o.symbolic_);
    }
    void append(N *p)
    {
        p->prev = tail;
        p->next = nullptr;
        (tail ? tail->next : head) = p;
        tail = p;
        n_++;
        if (index_) enter(p);
    }
    void link(N *p)
    {
        if (!Unique)
            for (N *q = tail; q; q = q->prev) // equal keys are neighbours
                if (e_(KeyOf()(q->v), KeyOf()(p->v)))
                {
                    p->prev = q;
                    p->next = q->next;
                    (q->next ? q->next->prev : tail) = p;
                    q->next = p;
                    n_++;
                    drop();
                    return;
                }
        if (sym_param("umap_order", 0) == 0) { append(p); return; }
        p->next = head;
        p->prev = nullptr;
        (head ? head->prev : tail) = p;
        head = p;
        n_++;
        if (index_) enter(p);
    }
    void detach(N *p)
    {
        (p->prev ? p->prev->next : head) = p->next;
        (p->next ? p->next->prev : tail) = p->prev;
        n_--;
        if (index_) drop();
    }
    void unlink(N *p)
    {
        detach(p);
        delete p;
    }
    N *lookup(const K &k) const
    {
        std::size_t hc = h_(k);
        if (Unique && n_ > 40 && !symbolic_ && sym_is_const(hc))
        {
            if (!index_)
            {
                index_ = new N *[Buckets]();
                for (N *p = head; p && index_; p = p->next) enter(p);
            }
            if (index_)
            {
                for (N *p = index_[hc % Buckets]; p; p = p->same)
                    if (e_(KeyOf()(p->v), k) && h_(KeyOf()(p->v)) == hc) return p;
                return nullptr;
            }
        }
        for (N *p = head; p; p = p->next)
            if (e_(KeyOf()(p->v), k) && h_(KeyOf()(p->v)) == hc) return p;
        return nullptr;
    }
    iterator begin() { return iterator(head); }
    iterator end() { return iterator(nullptr); }
    const_iterator begin() const { return const_iterator(head); }
    const_iterator end() const { return const_iterator(nullptr); }
    const_iterator cbegin() const { return const_iterator(head); }
    const_iterator cend() const { return const_iterator(nullptr); }
    bool empty() const { return n_ == 0; }
    std::size_t size() const { return n_; }
    std::size_t max_size() const { return ~std::size_t(0) / sizeof(N); }
    void clear()
    {
        drop();
        while (head) unlink(head);
        symbolic_ = false;
    }
    iterator find(const K &k) { return iterator(lookup(k)); }
    const_iterator find(const K &k) const { return const_iterator(lookup(k)); }
    std::size_t count(const K &k) const
    {
        std::size_t c = 0;
        for (N *p = head; p; p = p->next) c += e_(KeyOf()(p->v), k);
        return c;
    }
    bool contains(const K &k) const { return lookup(k) != nullptr; }
    template <class V> std::pair<iterator, bool> put(V &&v)
    {
        N *q = new N(std::forward<V>(v));
        if (Unique)
            if (N *p = lookup(KeyOf()(q->v)))
            {
                delete q;
                return {iterator(p), false};
            }
        link(q);
        return {iterator(q), true};
    }
    std::pair<iterator, bool> insert(const Val &v) { return put(v); }
    std::pair<iterator, bool> insert(Val &&v) { return put(std::move(v)); }
    template <class P, class = typename std::enable_if<std::is_constructible<Val, P &&>::value>::type> std::pair<iterator, bool> insert(P &&v) { return put(std::forward<P>(v)); }
    iterator insert(const_iterator, const Val &v) { return put(v).first; }
    void insert(std::initializer_list<Val> l) { for (auto &v : l) put(v); }
    template <class It, class = typename std::enable_if<!std::is_convertible<It, const_iterator>::value || true>::type, class = decltype(*std::declval<It>())> void insert(It a, It b) { for (; a != b; ++a) put(*a); }
    template <class... A> std::pair<iterator, bool> emplace(A &&...a) { return put(Val(std::forward<A>(a)...)); }
    template <class... A> iterator emplace_hint(const_iterator, A &&...a) { return put(Val(std::forward<A>(a)...)).first; }
    std::size_t erase(const K &k)
    {
        std::size_t c = 0;
        while (N *p = lookup(k)) { unlink(p); c++; }
        return c;
    }
    iterator erase(const_iterator it)
    {
        N *x = it.n->next;
        unlink(it.n);
        return iterator(x);
    }
    iterator erase(iterator it) { return erase(const_iterator(it)); }
    iterator erase(const_iterator a, const_iterator b)
    {
        while (a != b) a = const_iterator(erase(a));
        return iterator(b.n);
    }
    std::pair<iterator, iterator> equal_range(const K &k)
    {
        N *p = lookup(k), *q = p;
        while (q && e_(KeyOf()(q->v), k)) q = q->next;
        return {iterator(p), iterator(q)};
    }
    std::pair<const_iterator, const_iterator> equal_range(const K &k) const
    {
        auto r = const_cast<UTable *>(this)->equal_range(k);
        return {r.first, r.second};
    }
    struct node_type
    {
        N *p = nullptr;
        node_type() {}
        explicit node_type(N *p) : p(p) {}
        node_type(node_type &&o) : p(o.p) { o.p = nullptr; }
        node_type &operator=(node_type &&o) { std::swap(p, o.p); return *this; }
        ~node_type() { delete p; }
        bool empty() const { return !p; }
        explicit operator bool() const { return p != nullptr; }
        K &key() const { return const_cast<K &>(KeyOf()(p->v)); }
        auto &mapped() const { return p->v.second; }
        Val &value() const { return p->v; }
    };
    struct insert_return_type
    {
        iterator position;
        bool inserted;
        node_type node;
    };
    node_type extract(const_iterator it)
    {
        detach(it.n);
        return node_type(it.n);
    }
    node_type extract(const K &k)
    {
        N *p = lookup(k);
        if (p) detach(p);
        return node_type(p);
    }
    auto insert(node_type &&n)
    {
        N *q = n.p, *p = q && Unique ? lookup(KeyOf()(q->v)) : nullptr;
        if (q && !p)
        {
            link(q);
            n.p = nullptr;
        }
        if constexpr (Unique) return insert_return_type{iterator(p ? p : q), q && !p, std::move(n)};
        else return iterator(q);
    }
    template <class O> void merge(O &&o)
    {
        for (N *p = o.head; p;)
        {
            N *x = p->next;
            if (!Unique || !lookup(KeyOf()(p->v)))
            {
                o.detach(p);
                link(p);
            }
            p = x;
        }
    }
    std::size_t max_bucket_count() const { return max_size(); }
    std::size_t bucket(const K &k) const { return h_(k) % bucket_count(); }
    bool same(const UTable &o) const
    {
        if (n_ != o.n_) return false;
        for (N *p = head; p; p = p->next)
        {
            std::size_t a = 0, b = 0;
            for (N *q = head; q; q = q->next) a += q->v == p->v;
            for (N *q = o.head; q; q = q->next) b += q->v == p->v;
            if (a != b) return false;
        }
        return true;
    }
    void reserve(std::size_t) {}
    void rehash(std::size_t) {}
    std::size_t bucket_count() const { return n_ + 1; }
    float load_factor() const { return 1; }
    float max_load_factor() const { return 1; }
    void max_load_factor(float) {}
    H hash_function() const { return h_; }
    E key_eq() const { return e_; }
};
struct First
{
    template <class P> const auto &operator()(const P &p) const { return p.first; }
};
struct Self
{
    template <class P> const P &operator()(const P &p) const { return p; }
};
} // namespace vp
