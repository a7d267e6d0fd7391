#pragma once
#include <atomic>
namespace itlib {
template <typename I>
struct atomic_relaxed_counter {
    atomic_relaxed_counter(I init = {}) noexcept : a(init) {}
    I operator++() noexcept { return a.fetch_add(1, std::memory_order_relaxed) + 1; }
    I operator++(int) noexcept { return a.fetch_add(1, std::memory_order_relaxed); }
    I operator--() noexcept { return a.fetch_sub(1, std::memory_order_relaxed) - 1; }
    I operator--(int) noexcept { return a.fetch_sub(1, std::memory_order_relaxed); }
    I operator+=(I n) noexcept { return a.fetch_add(n, std::memory_order_relaxed) + n; }
    I operator-=(I n) noexcept { return a.fetch_sub(n, std::memory_order_relaxed) - n; }
    I fetch_add(I n) noexcept { return a.fetch_add(n, std::memory_order_relaxed); }
    I fetch_sub(I n) noexcept { return a.fetch_sub(n, std::memory_order_relaxed); }
    I exchange(I n) noexcept { return a.exchange(n, std::memory_order_relaxed); }
    I load() const noexcept { return a.load(std::memory_order_relaxed); }
    void store(I i) noexcept { a.store(i, std::memory_order_relaxed); }
    operator I() const noexcept { return load(); }
private:
    std::atomic<I> a;
};
}
