#pragma once
#include <cassert>
#include <initializer_list>
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <array>

namespace itlib {
inline constexpr size_t dynamic_extent = size_t(-1);
template <typename T, size_t E = dynamic_extent> class span;

namespace span_impl {
template <typename T> struct is_span : std::false_type {};
template <typename T, size_t E> struct is_span<span<T, E>> : std::true_type {};
template <typename C, typename T, typename = void> struct compatible : std::false_type {};
template <typename C, typename T>
struct compatible<C, T, std::void_t<decltype(std::declval<C&>().data()), decltype(std::declval<C&>().size())>>
    : std::is_convertible<std::remove_pointer_t<decltype(std::declval<C&>().data())>(*)[], T(*)[]> {};
}

// dynamic extent only (that's all which is used)
template <typename T, size_t Extent>
class span {
public:
    using element_type = T;
    using value_type = std::remove_cv_t<T>;
    using size_type = size_t;
    using difference_type = std::ptrdiff_t;
    using pointer = T*;
    using const_pointer = const T*;
    using reference = T&;
    using const_reference = const T&;
    using iterator = T*;
    using const_iterator = const T*;
    using reverse_iterator = std::reverse_iterator<iterator>;
    using const_reverse_iterator = std::reverse_iterator<const_iterator>;

    constexpr span() noexcept = default;
    constexpr span(std::nullptr_t) noexcept {}
    constexpr span(T* b, size_t n) noexcept : m_b(b), m_e(b + n) {}
    constexpr span(T* b, T* e) noexcept : m_b(b), m_e(e) {}
    template <size_t N> constexpr span(T(&a)[N]) noexcept : m_b(a), m_e(a + N) {}
    template <typename C, std::enable_if_t<span_impl::compatible<C, T>::value, int> = 0>
    constexpr span(C& c) noexcept : m_b(c.data()), m_e(c.data() + c.size()) {}
    template <typename C, std::enable_if_t<span_impl::compatible<const C, T>::value, int> = 0>
    constexpr span(const C& c) noexcept : m_b(c.data()), m_e(c.data() + c.size()) {}
    constexpr span(const span&) noexcept = default;
    constexpr span& operator=(const span&) noexcept = default;

    constexpr T* data() const noexcept { return m_b; }
    constexpr size_t size() const noexcept { return size_t(m_e - m_b); }
    constexpr size_t size_bytes() const noexcept { return size() * sizeof(T); }
    constexpr bool empty() const noexcept { return m_b == m_e; }
    constexpr explicit operator bool() const noexcept { return !!m_b; }

    constexpr T* begin() const noexcept { return m_b; }
    constexpr T* end() const noexcept { return m_e; }
    constexpr const T* cbegin() const noexcept { return m_b; }
    constexpr const T* cend() const noexcept { return m_e; }
    constexpr reverse_iterator rbegin() const noexcept { return reverse_iterator(m_e); }
    constexpr reverse_iterator rend() const noexcept { return reverse_iterator(m_b); }
    constexpr const_reverse_iterator crbegin() const noexcept { return const_reverse_iterator(m_e); }
    constexpr const_reverse_iterator crend() const noexcept { return const_reverse_iterator(m_b); }

    constexpr T& front() const noexcept { return *m_b; }
    constexpr T& back() const noexcept { return *(m_e - 1); }
    constexpr T& operator[](size_t i) const noexcept { return m_b[i]; }
    constexpr T& at(size_t i) const { if (i >= size()) throw std::out_of_range("itlib::span"); return m_b[i]; }

    constexpr span subspan(size_t off, size_t n = dynamic_extent) const noexcept {
        return n == dynamic_extent ? span(m_b + off, m_e) : span(m_b + off, n);
    }
    constexpr span first(size_t n) const noexcept { return span(m_b, n); }
    constexpr span last(size_t n) const noexcept { return span(m_e - n, n); }
    constexpr void remove_prefix(size_t n) noexcept { m_b += n; }
    constexpr void remove_suffix(size_t n) noexcept { m_e -= n; }
    constexpr span<const uint8_t> as_bytes() const noexcept { return {reinterpret_cast<const uint8_t*>(m_b), size_bytes()}; }
private:
    T* m_b = nullptr;
    T* m_e = nullptr;
};

template <typename T> span(T*, size_t) -> span<T>;
template <typename T> span(T*, T*) -> span<T>;
template <typename T, size_t N> span(T(&)[N]) -> span<T>;
template <typename C> span(C&) -> span<std::remove_pointer_t<decltype(std::declval<C&>().data())>>;
template <typename C> span(const C&) -> span<std::remove_pointer_t<decltype(std::declval<const C&>().data())>>;

template <typename T> span<T> make_span(T* p, size_t n) { return span<T>(p, n); }
template <typename T> span<T> make_span(T* b, T* e) { return span<T>(b, e); }
template <typename T, size_t N> span<T> make_span(T(&a)[N]) { return span<T>(a); }
template <typename C> auto make_span(C& c) { return span(c); }
template <typename C> auto make_span(const C& c) { return span(c); }
}
