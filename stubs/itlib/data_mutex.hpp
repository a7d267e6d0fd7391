#pragma once
#include <mutex>
#include <shared_mutex>
#include <type_traits>
#include <utility>

// scheduling hook of the verification harness: called right before a lock is
// taken and right after one is released. Weak: absent unless a harness defines it
// kind: 0 before unique, 1 after unique release, 2 before shared, 3 after shared release
extern "C" __attribute__((weak)) void vp_sched_hook(const void* mutex, int kind);

namespace itlib {
namespace dm_impl {
inline void hook(const void* m, int kind) noexcept { if (&vp_sched_hook) vp_sched_hook(m, kind); }
}

template <typename T, typename Mutex = std::mutex>
class data_mutex {
    T m_data;
    mutable Mutex m_mutex;

    template <typename U, typename Lock, int Kind>
    class lock_t {
        U* m_ptr = nullptr;
        const void* m_addr = nullptr;
        Lock m_lock;
    public:
        lock_t() = default;
        lock_t(U& u, Mutex& m) : m_ptr(&u), m_addr(&m), m_lock((dm_impl::hook(&m, Kind), m)) {}
        lock_t(U& u, Mutex& m, std::try_to_lock_t t) : m_ptr(&u), m_addr(&m), m_lock(m, t) {}
        lock_t(lock_t&& o) noexcept
            : m_ptr(std::exchange(o.m_ptr, nullptr)), m_addr(std::exchange(o.m_addr, nullptr)), m_lock(std::move(o.m_lock)) {}
        lock_t& operator=(lock_t&& o) noexcept {
            unlock();
            m_ptr = std::exchange(o.m_ptr, nullptr);
            m_addr = std::exchange(o.m_addr, nullptr);
            m_lock = std::move(o.m_lock);
            return *this;
        }
        ~lock_t() { unlock(); }
        void unlock() {
            if (!m_lock.owns_lock()) return;
            m_lock.unlock();
            m_lock.release();
            m_ptr = nullptr;
            dm_impl::hook(std::exchange(m_addr, nullptr), Kind + 1);
        }
        explicit operator bool() const noexcept { return m_lock.owns_lock(); }
        bool owns_lock() const noexcept { return m_lock.owns_lock(); }
        U* get() const noexcept { return m_ptr; }
        U* operator->() const noexcept { return m_ptr; }
        U& operator*() const noexcept { return *m_ptr; }
    };
public:
    template <typename... Args>
    explicit data_mutex(Args&&... args) : m_data(std::forward<Args>(args)...) {}
    data_mutex(const data_mutex&) = delete;
    data_mutex& operator=(const data_mutex&) = delete;

    using value_type = T;
    using unique_lock_t = lock_t<T, std::unique_lock<Mutex>, 0>;
    using shared_lock_t = lock_t<const T, std::shared_lock<Mutex>, 2>;

    unique_lock_t unique_lock() { return unique_lock_t(m_data, m_mutex); }
    shared_lock_t shared_lock() const { return shared_lock_t(m_data, m_mutex); }
    unique_lock_t lock() { return unique_lock(); }
    unique_lock_t try_unique_lock() { return unique_lock_t(m_data, m_mutex, std::try_to_lock); }
    shared_lock_t try_shared_lock() const { return shared_lock_t(m_data, m_mutex, std::try_to_lock); }

    T& unsafe_data() noexcept { return m_data; }
    const T& unsafe_data() const noexcept { return m_data; }
};
}
