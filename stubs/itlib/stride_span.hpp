#pragma once
#include <cstddef>
#include <iterator>
#include <type_traits>
namespace itlib {
template <typename T>
class stride_span {
    using byte = std::conditional_t<std::is_const_v<T>, const unsigned char, unsigned char>;
    byte* m_p = nullptr;
    size_t m_stride = 0, m_n = 0;
public:
    using value_type = std::remove_cv_t<T>;
    stride_span() = default;
    stride_span(byte* p, size_t stride, size_t n) : m_p(p), m_stride(stride), m_n(n) {}
    size_t size() const noexcept { return m_n; }
    bool empty() const noexcept { return !m_n; }
    size_t stride() const noexcept { return m_stride; }
    T& operator[](size_t i) const noexcept { return *reinterpret_cast<T*>(m_p + i * m_stride); }
    T& at(size_t i) const noexcept { return (*this)[i]; }
    T& front() const noexcept { return (*this)[0]; }
    T& back() const noexcept { return (*this)[m_n - 1]; }
    class iterator {
        byte* p = nullptr; size_t s = 0;
    public:
        using iterator_category = std::random_access_iterator_tag;
        using value_type = std::remove_cv_t<T>;
        using difference_type = std::ptrdiff_t;
        using pointer = T*;
        using reference = T&;
        iterator() = default;
        iterator(byte* p, size_t s) : p(p), s(s) {}
        T& operator*() const { return *reinterpret_cast<T*>(p); }
        T* operator->() const { return reinterpret_cast<T*>(p); }
        T& operator[](difference_type n) const { return *reinterpret_cast<T*>(p + n * difference_type(s)); }
        iterator& operator++() { p += s; return *this; }
        iterator operator++(int) { auto r = *this; p += s; return r; }
        iterator& operator--() { p -= s; return *this; }
        iterator operator--(int) { auto r = *this; p -= s; return r; }
        iterator& operator+=(difference_type n) { p += n * difference_type(s); return *this; }
        iterator& operator-=(difference_type n) { p -= n * difference_type(s); return *this; }
        friend iterator operator+(iterator a, difference_type n) { return a += n; }
        friend iterator operator-(iterator a, difference_type n) { return a -= n; }
        friend difference_type operator-(const iterator& a, const iterator& b) { return a.s ? (a.p - b.p) / difference_type(a.s) : 0; }
        friend bool operator==(const iterator& a, const iterator& b) { return a.p == b.p; }
        friend bool operator!=(const iterator& a, const iterator& b) { return a.p != b.p; }
        friend bool operator<(const iterator& a, const iterator& b) { return a.p < b.p; }
    };
    iterator begin() const { return iterator(m_p, m_stride); }
    iterator end() const { return iterator(m_p + m_stride * m_n, m_stride); }
};

template <typename S, typename U, typename M>
auto make_stride_span_member_view(S* ptr, size_t count, M U::*member) {
    using member_t = std::conditional_t<std::is_const_v<S>, const M, M>;
    using byte = std::conditional_t<std::is_const_v<S>, const unsigned char, unsigned char>;
    if (!ptr || !count) return stride_span<member_t>();
    return stride_span<member_t>(reinterpret_cast<byte*>(&(ptr->*member)), sizeof(S), count);
}
}
