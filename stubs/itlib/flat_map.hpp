#pragma once
#include <algorithm>
#include <functional>
#include <initializer_list>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <vector>
namespace itlib {
template <typename Key, typename T, typename Compare = std::less<Key>, typename Container = std::vector<std::pair<Key, T>>>
class flat_map {
    struct vcmp {
        Compare c;
        template <typename A> static const A& k(const A& a) { return a; }
        static const Key& k(const std::pair<Key, T>& p) { return p.first; }
        template <typename A, typename B> bool operator()(const A& a, const B& b) const { return c(k(a), k(b)); }
    };
    Container m_c;
    vcmp m_cmp;
public:
    using key_type = Key;
    using mapped_type = T;
    using value_type = std::pair<Key, T>;
    using container_type = Container;
    using key_compare = Compare;
    using iterator = typename Container::iterator;
    using const_iterator = typename Container::const_iterator;
    using reverse_iterator = typename Container::reverse_iterator;
    using const_reverse_iterator = typename Container::const_reverse_iterator;
    using size_type = typename Container::size_type;

    flat_map() = default;
    explicit flat_map(const Compare& c) : m_cmp{c} {}
    template <typename Alloc> explicit flat_map(const Compare& c, const Alloc& a) : m_c(a), m_cmp{c} {}
    flat_map(std::initializer_list<value_type> il, const Compare& c = {}) : m_cmp{c} { for (auto& v : il) insert(v); }

    iterator begin() noexcept { return m_c.begin(); }
    iterator end() noexcept { return m_c.end(); }
    const_iterator begin() const noexcept { return m_c.begin(); }
    const_iterator end() const noexcept { return m_c.end(); }
    const_iterator cbegin() const noexcept { return m_c.begin(); }
    const_iterator cend() const noexcept { return m_c.end(); }
    reverse_iterator rbegin() noexcept { return m_c.rbegin(); }
    reverse_iterator rend() noexcept { return m_c.rend(); }
    const_reverse_iterator rbegin() const noexcept { return m_c.rbegin(); }
    const_reverse_iterator rend() const noexcept { return m_c.rend(); }
    bool empty() const noexcept { return m_c.empty(); }
    size_type size() const noexcept { return m_c.size(); }
    void reserve(size_type n) { m_c.reserve(n); }
    void clear() noexcept { m_c.clear(); }
    const Container& container() const noexcept { return m_c; }
    Container& modify_container() noexcept { return m_c; }
    const_reverse_iterator crbegin() const noexcept { return m_c.rbegin(); }
    const_reverse_iterator crend() const noexcept { return m_c.rend(); }
    size_type capacity() const noexcept { return m_c.capacity(); }
    size_type max_size() const noexcept { return m_c.max_size(); }
    void shrink_to_fit() { m_c.shrink_to_fit(); }
    value_type* data() noexcept { return m_c.data(); }
    const value_type* data() const noexcept { return m_c.data(); }
    const value_type& front() const { return m_c.front(); }
    const value_type& back() const { return m_c.back(); }
    Compare key_comp() const { return m_cmp.c; }
    value_type& front() { return m_c.front(); }
    value_type& back() { return m_c.back(); }

    template <typename K> iterator lower_bound(const K& k) { return std::lower_bound(m_c.begin(), m_c.end(), k, m_cmp); }
    template <typename K> const_iterator lower_bound(const K& k) const { return std::lower_bound(m_c.begin(), m_c.end(), k, m_cmp); }
    template <typename K> iterator upper_bound(const K& k) { return std::upper_bound(m_c.begin(), m_c.end(), k, m_cmp); }
    template <typename K> const_iterator upper_bound(const K& k) const { return std::upper_bound(m_c.begin(), m_c.end(), k, m_cmp); }
    template <typename K> std::pair<iterator, iterator> equal_range(const K& k) { return {lower_bound(k), upper_bound(k)}; }
    template <typename K> std::pair<const_iterator, const_iterator> equal_range(const K& k) const { return {lower_bound(k), upper_bound(k)}; }
    template <typename K> iterator find(const K& k) { auto i = lower_bound(k); return (i != end() && !m_cmp(k, *i)) ? i : end(); }
    template <typename K> const_iterator find(const K& k) const { auto i = lower_bound(k); return (i != end() && !m_cmp(k, *i)) ? i : end(); }
    template <typename K> size_type count(const K& k) const { return find(k) == end() ? 0 : 1; }
    template <typename K> bool contains(const K& k) const { return find(k) != end(); }
    T& operator[](const Key& k) {
        auto i = lower_bound(k);
        if (i == end() || m_cmp(k, *i)) i = m_c.emplace(i, k, T());
        return i->second;
    }
    T& at(const Key& k) { auto i = find(k); if (i == end()) throw std::out_of_range("itlib::flat_map"); return i->second; }
    const T& at(const Key& k) const { auto i = find(k); if (i == end()) throw std::out_of_range("itlib::flat_map"); return i->second; }
    template <typename P = value_type> std::pair<iterator, bool> insert(P&& v) {
        auto i = lower_bound(v.first);
        if (i != end() && !m_cmp(v.first, *i)) return {i, false};
        return {m_c.emplace(i, std::forward<P>(v)), true};
    }
    template <typename P> iterator insert(const_iterator, P&& v) { return insert(std::forward<P>(v)).first; }
    template <typename... A> iterator emplace_hint(const_iterator, A&&... a) { return emplace(std::forward<A>(a)...).first; }
    template <typename... A> std::pair<iterator, bool> emplace(A&&... a) { return insert(value_type(std::forward<A>(a)...)); }
    template <typename... A> std::pair<iterator, bool> try_emplace(const Key& k, A&&... a) {
        auto i = lower_bound(k);
        if (i != end() && !m_cmp(k, *i)) return {i, false};
        return {m_c.emplace(i, k, T(std::forward<A>(a)...)), true};
    }
    template <typename M> std::pair<iterator, bool> insert_or_assign(const Key& k, M&& m) {
        auto i = lower_bound(k);
        if (i != end() && !m_cmp(k, *i)) { i->second = std::forward<M>(m); return {i, false}; }
        return {m_c.emplace(i, k, std::forward<M>(m)), true};
    }
    iterator erase(const_iterator i) { return m_c.erase(i); }
    iterator erase(iterator i) { return m_c.erase(i); }
    iterator erase(const_iterator a, const_iterator b) { return m_c.erase(a, b); }
    size_type erase(const Key& k) { auto i = find(k); if (i == end()) return 0; m_c.erase(i); return 1; }
    void swap(flat_map& o) { m_c.swap(o.m_c); std::swap(m_cmp, o.m_cmp); }
    friend bool operator==(const flat_map& a, const flat_map& b) { return a.m_c == b.m_c; }
    friend bool operator!=(const flat_map& a, const flat_map& b) { return !(a.m_c == b.m_c); }
};
}
