// Model of the unordered containers: association lists with the same interface, so that keys may be symbolic.
#pragma once
#include <cstddef>
#include <bits/stl_function.h>
#include <bits/stl_iterator_base_types.h>
#include <bits/range_access.h>
#include <initializer_list>
#include <stdexcept>
#include <utility>
#include <vector>
#include <bits/stl_pair.h>
#include <bits/hash_bytes.h>
#include <bits/functional_hash.h>
#include <bits/unique_ptr.h>
namespace std {
template <class V> struct sxnode { V v; sxnode *next, *prev; template <class... A> sxnode(A&&... a) : v((A&&)a...), next(nullptr), prev(nullptr) {} };
template <class V, bool Const> struct sxit {
    typedef forward_iterator_tag iterator_category;
    typedef V value_type;
    typedef ptrdiff_t difference_type;
    typedef std::conditional_t<Const, const V, V>* pointer;
    typedef std::conditional_t<Const, const V, V>& reference;
    sxnode<V>* n = nullptr;
    sxit() {}
    explicit sxit(sxnode<V>* p) : n(p) {}
    template <bool C2, class = std::enable_if_t<Const && !C2>> sxit(const sxit<V, C2>& o) : n(o.n) {}
    reference operator*() const { return n->v; }
    pointer operator->() const { return &n->v; }
    sxit& operator++() { n = n->next; return *this; }
    sxit operator++(int) { sxit t(*this); n = n->next; return t; }
    friend bool operator==(const sxit& a, const sxit& b) { return a.n == b.n; }
    friend bool operator!=(const sxit& a, const sxit& b) { return a.n != b.n; }
};
template <class K, class V, class KeyOf> class sxassoc
{
protected:
    sxnode<V>*m_head = nullptr, *m_tail = nullptr;
    size_t m_n = 0;
    sxnode<V>* link(sxnode<V>* x)
    {
        x->prev = m_tail;
        if (m_tail) m_tail->next = x; else m_head = x;
        m_tail = x;
        m_n++;
        return x;
    }
    void unlink(sxnode<V>* x)
    {
        if (x->prev) x->prev->next = x->next; else m_head = x->next;
        if (x->next) x->next->prev = x->prev; else m_tail = x->prev;
        m_n--;
        delete x;
    }
    sxnode<V>* look(const K& k) const
    {
        for (sxnode<V>* x = m_head; x; x = x->next) if (KeyOf()(x->v) == k) return x;
        return nullptr;
    }
public:
    typedef K key_type;
    typedef V value_type;
    typedef size_t size_type;
    typedef V& reference;
    typedef const V& const_reference;
    typedef sxit<V, false> iterator;
    typedef sxit<V, true> const_iterator;
    sxassoc() {}
    sxassoc(const sxassoc& o) { for (sxnode<V>* x = o.m_head; x; x = x->next) link(new sxnode<V>(x->v)); }
    sxassoc(sxassoc&& o) noexcept { std::swap(m_head, o.m_head); std::swap(m_tail, o.m_tail); std::swap(m_n, o.m_n); }
    sxassoc& operator=(const sxassoc& o) { if (this != &o) { clear(); for (sxnode<V>* x = o.m_head; x; x = x->next) link(new sxnode<V>(x->v)); } return *this; }
    sxassoc& operator=(sxassoc&& o) noexcept { clear(); std::swap(m_head, o.m_head); std::swap(m_tail, o.m_tail); std::swap(m_n, o.m_n); return *this; }
    ~sxassoc() { clear(); }
    void clear() { while (m_head) unlink(m_head); }
    size_t size() const { return m_n; }
    bool empty() const { return m_n == 0; }
    iterator begin() { return iterator(m_head); }
    iterator end() { return iterator(nullptr); }
    const_iterator begin() const { return const_iterator(m_head); }
    const_iterator end() const { return const_iterator(nullptr); }
    const_iterator cbegin() const { return begin(); }
    const_iterator cend() const { return end(); }
    iterator find(const K& k) { return iterator(look(k)); }
    const_iterator find(const K& k) const { return const_iterator(look(k)); }
    size_t count(const K& k) const { return look(k) ? 1 : 0; }
    bool contains(const K& k) const { return look(k); }
    size_t erase(const K& k) { sxnode<V>* x = look(k); if (!x) return 0; unlink(x); return 1; }
    iterator erase(iterator i) { iterator r(i.n->next); unlink(i.n); return r; }
    iterator erase(const_iterator i) { iterator r(i.n->next); unlink(i.n); return r; }
    iterator erase(const_iterator a, const_iterator b) { while (a != b) { const_iterator c = a; ++a; unlink(c.n); } return iterator(b.n); }
    void reserve(size_t) {}
    void rehash(size_t) {}
    float load_factor() const { return 1.0f; }
    size_t max_size() const { return size_t(-1) / sizeof(sxnode<V>); }
    size_t bucket(const K&) const { return 0; }
    pair<iterator, iterator> equal_range(const K& k) { sxnode<V>* x = look(k); return {iterator(x), iterator(x ? x->next : nullptr)}; }
    pair<const_iterator, const_iterator> equal_range(const K& k) const { sxnode<V>* x = look(k); return {const_iterator(x), const_iterator(x ? x->next : nullptr)}; }
    class node_type
    {
        friend class sxassoc;
        unique_ptr<sxnode<V>> p;
    public:
        bool empty() const { return !p; }
        explicit operator bool() const { return bool(p); }
        V& value() const { return p->v; }
        K& key() const { return const_cast<K&>(KeyOf()(p->v)); }
        template <class Z = V> auto& mapped() const { return ((Z&)p->v).second; }
    };
    node_type extract(const_iterator i)
    {
        node_type t;
        sxnode<V>* x = i.n;
        if (x->prev) x->prev->next = x->next; else m_head = x->next;
        if (x->next) x->next->prev = x->prev; else m_tail = x->prev;
        m_n--;
        x->next = x->prev = nullptr;
        t.p.reset(x);
        return t;
    }
    node_type extract(const K& k) { if (sxnode<V>* x = look(k)) return extract(const_iterator(x)); return node_type(); }
    struct insert_return_type { iterator position; bool inserted; node_type node; };
    insert_return_type insert(node_type&& t)
    {
        if (!t.p) return {end(), false, node_type()};
        if (sxnode<V>* x = look(KeyOf()(t.p->v))) return {iterator(x), false, (node_type&&)t};
        return {iterator(link(t.p.release())), true, node_type()};
    }
    void merge(sxassoc& o) { for (sxnode<V>* x = o.m_head; x;) { sxnode<V>* n = x->next; if (!look(KeyOf()(x->v))) insert(o.extract(const_iterator(x))); x = n; } }
    void merge(sxassoc&& o) { merge(o); }
    void insert(initializer_list<V> l) { for (auto& x : l) insert(x); }
    friend void swap(sxassoc& a, sxassoc& b) { a.swap(b); }
    float max_load_factor() const { return 1.0f; }
    void max_load_factor(float) {}
    size_t bucket_count() const { return m_n + 1; }
    void swap(sxassoc& o) { std::swap(m_head, o.m_head); std::swap(m_tail, o.m_tail); std::swap(m_n, o.m_n); }
    pair<iterator, bool> insert(const V& v) { if (sxnode<V>* x = look(KeyOf()(v))) return {iterator(x), false}; return {iterator(link(new sxnode<V>(v))), true}; }
    pair<iterator, bool> insert(V&& v) { if (sxnode<V>* x = look(KeyOf()(v))) return {iterator(x), false}; return {iterator(link(new sxnode<V>((V&&)v))), true}; }
    iterator insert(const_iterator, const V& v) { return insert(v).first; }
    template <class P, class = enable_if_t<is_constructible_v<V, P&&> && !is_same_v<decay_t<P>, V> && !is_same_v<decay_t<P>, node_type>>> pair<iterator, bool> insert(P&& v) { return emplace((P&&)v); }
    template <class... A> iterator emplace_hint(const_iterator, A&&... a) { return emplace((A&&)a...).first; }
    template <class It, class = typename iterator_traits<It>::iterator_category, class = enable_if_t<!is_same_v<It, const_iterator>>> void insert(It a, It b) { for (; a != b; ++a) insert(V(*a)); }
    template <class... A> pair<iterator, bool> emplace(A&&... a)
    {
        sxnode<V>* y = new sxnode<V>((A&&)a...);
        if (sxnode<V>* x = look(KeyOf()(y->v))) { delete y; return {iterator(x), false}; }
        return {iterator(link(y)), true};
    }
};
template <class V> struct sxfirst { template <class P> const auto& operator()(const P& p) const { return p.first; } };
template <class V> struct sxself { const V& operator()(const V& p) const { return p; } };

template <class K, class T, class H = hash<K>, class Eq = equal_to<K>, class Al = allocator<pair<const K, T>>>
class unordered_map : public sxassoc<K, pair<const K, T>, sxfirst<K>>
{
    typedef sxassoc<K, pair<const K, T>, sxfirst<K>> B;
public:
    typedef T mapped_type;
    typedef pair<const K, T> value_type;
    typedef typename B::iterator iterator;
    typedef typename B::const_iterator const_iterator;
    unordered_map() {}
    explicit unordered_map(size_t) {}
    unordered_map(initializer_list<value_type> l) { for (auto& x : l) this->insert(x); }
    template <class It> unordered_map(It a, It b) { for (; a != b; ++a) this->insert(*a); }
    template <class It> unordered_map(It a, It b, size_t) { for (; a != b; ++a) this->insert(*a); }
    unordered_map& operator=(initializer_list<value_type> l) { this->clear(); for (auto& x : l) this->insert(x); return *this; }
    unordered_map(const unordered_map&) = default;
    unordered_map(unordered_map&&) = default;
    unordered_map& operator=(const unordered_map&) = default;
    unordered_map& operator=(unordered_map&&) = default;
    T& operator[](const K& k) { if (auto* x = this->look(k)) return x->v.second; return this->link(new sxnode<value_type>(k, T()))->v.second; }
    T& at(const K& k) { if (auto* x = this->look(k)) return x->v.second; __throw_out_of_range("unordered_map::at"); }
    const T& at(const K& k) const { if (auto* x = this->look(k)) return x->v.second; __throw_out_of_range("unordered_map::at"); }
    template <class... A> pair<iterator, bool> try_emplace(const K& k, A&&... a) { if (auto* x = this->look(k)) return {iterator(x), false}; return {iterator(this->link(new sxnode<value_type>(k, T((A&&)a...)))), true}; }
    template <class... A> iterator try_emplace(const_iterator, const K& k, A&&... a) { return try_emplace(k, (A&&)a...).first; }
    template <class M> pair<iterator, bool> insert_or_assign(const K& k, M&& m) { if (auto* x = this->look(k)) { x->v.second = (M&&)m; return {iterator(x), false}; } return {iterator(this->link(new sxnode<value_type>(k, (M&&)m))), true}; }
    friend bool operator==(const unordered_map& a, const unordered_map& b)
    {
        if (a.size() != b.size()) return false;
        for (auto& p : a) { auto i = b.find(p.first); if (i == b.end() || !(i->second == p.second)) return false; }
        return true;
    }
    friend bool operator!=(const unordered_map& a, const unordered_map& b) { return !(a == b); }
};
template <class K, class H = hash<K>, class Eq = equal_to<K>, class Al = allocator<K>>
class unordered_set : public sxassoc<K, K, sxself<K>>
{
    typedef sxassoc<K, K, sxself<K>> B;
public:
    unordered_set() {}
    explicit unordered_set(size_t) {}
    unordered_set(initializer_list<K> l) { for (auto& x : l) this->insert(x); }
    template <class It> unordered_set(It a, It b) { for (; a != b; ++a) this->insert(*a); }
    template <class It> unordered_set(It a, It b, size_t) { for (; a != b; ++a) this->insert(*a); }
    unordered_set& operator=(initializer_list<K> l) { this->clear(); for (auto& x : l) this->insert(x); return *this; }
    unordered_set(const unordered_set&) = default;
    unordered_set(unordered_set&&) = default;
    unordered_set& operator=(const unordered_set&) = default;
    unordered_set& operator=(unordered_set&&) = default;
    friend bool operator==(const unordered_set& a, const unordered_set& b)
    {
        if (a.size() != b.size()) return false;
        for (auto& p : a) if (!b.count(p)) return false;
        return true;
    }
    friend bool operator!=(const unordered_set& a, const unordered_set& b) { return !(a == b); }
};
} // namespace std
#include <algorithm>
#include <array>
#include <functional>
#include <memory>
#include <string>
#include <tuple>
