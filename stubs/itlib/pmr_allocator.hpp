#pragma once
#include <cstddef>
#include <memory_resource>
#include <new>
#include <type_traits>
#include <utility>
namespace itlib {
template <typename T = std::byte>
class pmr_allocator {
    std::pmr::memory_resource* m_r;
public:
    using value_type = T;
    pmr_allocator() noexcept : m_r(std::pmr::get_default_resource()) {}
    pmr_allocator(std::pmr::memory_resource* r) noexcept : m_r(r) {}
    pmr_allocator(const pmr_allocator&) noexcept = default;
    template <typename U> pmr_allocator(const pmr_allocator<U>& o) noexcept : m_r(o.resource()) {}
    template <typename U> pmr_allocator(const std::pmr::polymorphic_allocator<U>& o) noexcept : m_r(o.resource()) {}
    pmr_allocator& operator=(const pmr_allocator&) noexcept = default;
    template <typename U> operator std::pmr::polymorphic_allocator<U>() const noexcept { return std::pmr::polymorphic_allocator<U>(m_r); }

    std::pmr::memory_resource* resource() const noexcept { return m_r; }

    [[nodiscard]] T* allocate(size_t n) {
        if (n > size_t(-1) / sizeof(T)) throw std::bad_array_new_length();
        return static_cast<T*>(m_r->allocate(n * sizeof(T), alignof(T)));
    }
    void deallocate(T* p, size_t n) noexcept { m_r->deallocate(p, n * sizeof(T), alignof(T)); }
    [[nodiscard]] void* allocate_bytes(size_t n, size_t a = alignof(std::max_align_t)) { return m_r->allocate(n, a); }
    void deallocate_bytes(void* p, size_t n, size_t a = alignof(std::max_align_t)) noexcept { m_r->deallocate(p, n, a); }
    template <typename U> [[nodiscard]] U* allocate_object(size_t n = 1) { return static_cast<U*>(allocate_bytes(n * sizeof(U), alignof(U))); }
    template <typename U> void deallocate_object(U* p, size_t n = 1) noexcept { deallocate_bytes(p, n * sizeof(U), alignof(U)); }
    template <typename U, typename... Args> [[nodiscard]] U* new_object(Args&&... args) {
        U* p = allocate_object<U>();
        try { return new (p) U(std::forward<Args>(args)...); } catch (...) { deallocate_object(p); throw; }
    }
    template <typename U> void delete_object(U* p) noexcept { p->~U(); deallocate_object(p); }
    pmr_allocator select_on_container_copy_construction() const noexcept { return {}; }

    template <typename U> friend bool operator==(const pmr_allocator& a, const pmr_allocator<U>& b) noexcept { return *a.resource() == *b.resource(); }
    template <typename U> friend bool operator!=(const pmr_allocator& a, const pmr_allocator<U>& b) noexcept { return !(*a.resource() == *b.resource()); }
};
}
