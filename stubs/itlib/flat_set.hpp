#pragma once
#include <algorithm>
#include <functional>
#include <initializer_list>
#include <utility>
#include <vector>
namespace itlib {
template <typename T, typename Compare = std::less<T>, typename Container = std::vector<T>>
class flat_set {
    Container m_c; Compare m_cmp;
public:
    using iterator = typename Container::const_iterator;
    using const_iterator = iterator;
    using reverse_iterator = typename Container::const_reverse_iterator;
    using const_reverse_iterator = reverse_iterator;
    using value_type = T;
    using key_type = T;
    using container_type = Container;
    using key_compare = Compare;
    using value_compare = Compare;
    using size_type = typename Container::size_type;
    flat_set() = default;
    explicit flat_set(const Compare& c) : m_cmp(c) {}
    explicit flat_set(Container c, const Compare& cmp = {}) : m_c(std::move(c)), m_cmp(cmp) { fix(); }
    template <typename Alloc> flat_set(const Compare& c, const Alloc& a) : m_c(a), m_cmp(c) {}
    flat_set(std::initializer_list<T> il, const Compare& c = {}) : m_c(il), m_cmp(c) { fix(); }
    iterator begin() const noexcept { return m_c.begin(); }
    iterator end() const noexcept { return m_c.end(); }
    iterator cbegin() const noexcept { return m_c.begin(); }
    iterator cend() const noexcept { return m_c.end(); }
    reverse_iterator rbegin() const noexcept { return m_c.rbegin(); }
    reverse_iterator rend() const noexcept { return m_c.rend(); }
    bool empty() const noexcept { return m_c.empty(); }
    size_type size() const noexcept { return m_c.size(); }
    size_type capacity() const noexcept { return m_c.capacity(); }
    size_type max_size() const noexcept { return m_c.max_size(); }
    void reserve(size_type n) { m_c.reserve(n); }
    void shrink_to_fit() { m_c.shrink_to_fit(); }
    void clear() noexcept { m_c.clear(); }
    const T& front() const { return m_c.front(); }
    const T& back() const { return m_c.back(); }
    const T* data() const noexcept { return m_c.data(); }
    const Container& container() const noexcept { return m_c; }
    Container& modify_container() noexcept { return m_c; }
    Compare key_comp() const { return m_cmp; }
    Compare value_comp() const { return m_cmp; }
    template <typename K> iterator lower_bound(const K& k) const { return std::lower_bound(m_c.begin(), m_c.end(), k, m_cmp); }
    template <typename K> iterator upper_bound(const K& k) const { return std::upper_bound(m_c.begin(), m_c.end(), k, m_cmp); }
    template <typename K> std::pair<iterator, iterator> equal_range(const K& k) const { return {lower_bound(k), upper_bound(k)}; }
    template <typename K> iterator find(const K& k) const { auto i = lower_bound(k); return (i != end() && !m_cmp(k, *i)) ? i : end(); }
    template <typename K> size_type count(const K& k) const { return find(k) != end(); }
    template <typename K> bool contains(const K& k) const { return find(k) != end(); }
    template <typename U = T> std::pair<iterator, bool> insert(U&& u) {
        auto i = lower_bound(u); if (i != end() && !m_cmp(u, *i)) return {i, false};
        return {m_c.insert(i, std::forward<U>(u)), true};
    }
    template <typename It> void insert(It b, It e) { for (; b != e; ++b) insert(*b); }
    template <typename... A> std::pair<iterator, bool> emplace(A&&... a) { return insert(T(std::forward<A>(a)...)); }
    iterator erase(iterator i) { return m_c.erase(i); }
    iterator erase(iterator a, iterator b) { return m_c.erase(a, b); }
    size_type erase(const T& k) { auto i = find(k); if (i == end()) return 0; m_c.erase(i); return 1; }
    void swap(flat_set& o) { m_c.swap(o.m_c); std::swap(m_cmp, o.m_cmp); }
    friend bool operator==(const flat_set& a, const flat_set& b) { return a.m_c == b.m_c; }
    friend bool operator!=(const flat_set& a, const flat_set& b) { return !(a.m_c == b.m_c); }
private:
    void fix() {
        std::sort(m_c.begin(), m_c.end(), m_cmp);
        m_c.erase(std::unique(m_c.begin(), m_c.end(), [this](const T& a, const T& b) { return !m_cmp(a, b) && !m_cmp(b, a); }), m_c.end());
    }
};
}
