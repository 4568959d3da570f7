// Included by iceoryx_platform/atomic.hpp when IOX_VERIF_HOOKS is defined: std::atomic with a scheduling point before
// every operation. The point function is provided by the harness (fib.cpp).
#ifndef IOX_VERIF_ATOMIC_HPP
#define IOX_VERIF_ATOMIC_HPP
#include <atomic>
#include <cstddef>
#include <cstdint>

namespace iox_verif
{
enum Kind : int
{
    K_LOAD,
    K_STORE,
    K_RMW,
    K_CAS_FAIL,
    K_FENCE
};
// before the operation: lets the scheduler switch
void point(const volatile void* addr) noexcept;
// after the operation: recorded, and again a scheduling point
void done(const volatile void* addr, int kind, int order) noexcept;

template <typename T>
class atomic
{
    std::atomic<T> v;
    using D = std::ptrdiff_t;

  public:
    static constexpr bool is_always_lock_free = std::atomic<T>::is_always_lock_free;
    constexpr atomic() noexcept = default;
    constexpr atomic(T x) noexcept
        : v(x)
    {
    }
    atomic(const atomic&) = delete;
    atomic& operator=(const atomic&) = delete;
    bool is_lock_free() const noexcept
    {
        return v.is_lock_free();
    }
    bool is_lock_free() const volatile noexcept
    {
        return v.is_lock_free();
    }
#define IOXV_ATOMIC_OPS(VOL)                                                                                           \
    T operator=(T x) VOL noexcept                                                                                      \
    {                                                                                                                  \
        store(x);                                                                                                      \
        return x;                                                                                                      \
    }                                                                                                                  \
    operator T() const VOL noexcept                                                                                    \
    {                                                                                                                  \
        return load();                                                                                                 \
    }                                                                                                                  \
    void store(T x, std::memory_order o = std::memory_order_seq_cst) VOL noexcept                                      \
    {                                                                                                                  \
        point(this);                                                                                                   \
        v.store(x, o);                                                                                                 \
        done(this, K_STORE, int(o));                                                                                   \
    }                                                                                                                  \
    T load(std::memory_order o = std::memory_order_seq_cst) const VOL noexcept                                         \
    {                                                                                                                  \
        point(this);                                                                                                   \
        T r = v.load(o);                                                                                               \
        done(this, K_LOAD, int(o));                                                                                    \
        return r;                                                                                                      \
    }                                                                                                                  \
    T exchange(T x, std::memory_order o = std::memory_order_seq_cst) VOL noexcept                                      \
    {                                                                                                                  \
        point(this);                                                                                                   \
        T r = v.exchange(x, o);                                                                                        \
        done(this, K_RMW, int(o));                                                                                     \
        return r;                                                                                                      \
    }                                                                                                                  \
    bool compare_exchange_weak(T& e, T d, std::memory_order s, std::memory_order f) VOL noexcept                       \
    {                                                                                                                  \
        return compare_exchange_strong(e, d, s, f);                                                                    \
    }                                                                                                                  \
    bool compare_exchange_strong(T& e, T d, std::memory_order s, std::memory_order f) VOL noexcept                     \
    {                                                                                                                  \
        point(this);                                                                                                   \
        bool r = v.compare_exchange_strong(e, d, s, f);                                                                \
        done(this, r ? K_RMW : K_CAS_FAIL, int(r ? s : f));                                                            \
        return r;                                                                                                      \
    }                                                                                                                  \
    bool compare_exchange_weak(T& e, T d, std::memory_order o = std::memory_order_seq_cst) VOL noexcept                \
    {                                                                                                                  \
        return compare_exchange_strong(e, d, o);                                                                       \
    }                                                                                                                  \
    bool compare_exchange_strong(T& e, T d, std::memory_order o = std::memory_order_seq_cst) VOL noexcept              \
    {                                                                                                                  \
        std::memory_order f = o == std::memory_order_acq_rel                                                           \
                                  ? std::memory_order_acquire                                                          \
                                  : (o == std::memory_order_release ? std::memory_order_relaxed : o);                  \
        return compare_exchange_strong(e, d, o, f);                                                                    \
    }                                                                                                                  \
    template <typename U>                                                                                              \
    T fetch_add(U x, std::memory_order o = std::memory_order_seq_cst) VOL noexcept                                     \
    {                                                                                                                  \
        point(this);                                                                                                   \
        T r = v.fetch_add(x, o);                                                                                       \
        done(this, K_RMW, int(o));                                                                                     \
        return r;                                                                                                      \
    }                                                                                                                  \
    template <typename U>                                                                                              \
    T fetch_sub(U x, std::memory_order o = std::memory_order_seq_cst) VOL noexcept                                     \
    {                                                                                                                  \
        point(this);                                                                                                   \
        T r = v.fetch_sub(x, o);                                                                                       \
        done(this, K_RMW, int(o));                                                                                     \
        return r;                                                                                                      \
    }                                                                                                                  \
    T fetch_and(T x, std::memory_order o = std::memory_order_seq_cst) VOL noexcept                                     \
    {                                                                                                                  \
        point(this);                                                                                                   \
        T r = v.fetch_and(x, o);                                                                                       \
        done(this, K_RMW, int(o));                                                                                     \
        return r;                                                                                                      \
    }                                                                                                                  \
    T fetch_or(T x, std::memory_order o = std::memory_order_seq_cst) VOL noexcept                                      \
    {                                                                                                                  \
        point(this);                                                                                                   \
        T r = v.fetch_or(x, o);                                                                                        \
        done(this, K_RMW, int(o));                                                                                     \
        return r;                                                                                                      \
    }                                                                                                                  \
    T fetch_xor(T x, std::memory_order o = std::memory_order_seq_cst) VOL noexcept                                     \
    {                                                                                                                  \
        point(this);                                                                                                   \
        T r = v.fetch_xor(x, o);                                                                                       \
        done(this, K_RMW, int(o));                                                                                     \
        return r;                                                                                                      \
    }                                                                                                                  \
    template <typename U>                                                                                              \
    T operator+=(U x) VOL noexcept                                                                                     \
    {                                                                                                                  \
        return fetch_add(x) + x;                                                                                       \
    }                                                                                                                  \
    template <typename U>                                                                                              \
    T operator-=(U x) VOL noexcept                                                                                     \
    {                                                                                                                  \
        return fetch_sub(x) - x;                                                                                       \
    }                                                                                                                  \
    T operator++() VOL noexcept                                                                                        \
    {                                                                                                                  \
        return fetch_add(1) + 1;                                                                                       \
    }                                                                                                                  \
    T operator++(int) VOL noexcept                                                                                     \
    {                                                                                                                  \
        return fetch_add(1);                                                                                           \
    }                                                                                                                  \
    T operator--() VOL noexcept                                                                                        \
    {                                                                                                                  \
        return fetch_sub(1) - 1;                                                                                       \
    }                                                                                                                  \
    T operator--(int) VOL noexcept                                                                                     \
    {                                                                                                                  \
        return fetch_sub(1);                                                                                           \
    }                                                                                                                  \
    T operator&=(T x) VOL noexcept                                                                                     \
    {                                                                                                                  \
        return fetch_and(x) & x;                                                                                       \
    }                                                                                                                  \
    T operator|=(T x) VOL noexcept                                                                                     \
    {                                                                                                                  \
        return fetch_or(x) | x;                                                                                        \
    }                                                                                                                  \
    T operator^=(T x) VOL noexcept                                                                                     \
    {                                                                                                                  \
        return fetch_xor(x) ^ x;                                                                                       \
    }
    IOXV_ATOMIC_OPS()
    IOXV_ATOMIC_OPS(volatile)
#undef IOXV_ATOMIC_OPS
};

class atomic_flag
{
    std::atomic<bool> v{false};

  public:
    constexpr atomic_flag() noexcept = default;
    constexpr atomic_flag(int) noexcept
    {
    }
    atomic_flag(const atomic_flag&) = delete;
    atomic_flag& operator=(const atomic_flag&) = delete;
    bool test_and_set(std::memory_order o = std::memory_order_seq_cst) noexcept
    {
        point(this);
        bool r = v.exchange(true, o);
        done(this, K_RMW, int(o));
        return r;
    }
    void clear(std::memory_order o = std::memory_order_seq_cst) noexcept
    {
        point(this);
        v.store(false, o);
        done(this, K_STORE, int(o));
    }
};
} // namespace iox_verif

namespace std
{
inline void iox_verif_fence(memory_order o) noexcept
{
    iox_verif::point(nullptr);
    std::atomic_thread_fence(o);
    iox_verif::done(nullptr, iox_verif::K_FENCE, int(o));
}
} // namespace std
#define atomic_thread_fence iox_verif_fence
#endif
