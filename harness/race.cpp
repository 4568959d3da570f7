// never compiled with -fsanitize=thread itself
#include "race.hpp"
#include "fib.hpp"
#include "util.hpp"
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <set>

namespace race
{
int g_threads = 0;
size_t g_recorded = 0;
namespace
{
enum Kind
{
    READ,
    WRITE,
    LOAD,
    STORE,
    RMW,
    FENCE,
    START,
    JOIN,
    GONE // an optimistic read whose result was not used
};
struct Ev
{
    int t;
    Kind k;
    uintptr_t a;
    size_t n;
    bool acq, rel;
    void* pc;
};
std::vector<Ev> g_ev;
std::vector<std::pair<uintptr_t, uintptr_t>> g_ranges;
bool g_on = false;
std::map<int, std::vector<size_t>> g_optimistic;
std::vector<std::set<void*>> g_where;

bool inRange(uintptr_t a)
{
    for (auto& r : g_ranges)
    {
        if (a >= r.first && a < r.second)
        {
            return true;
        }
    }
    return false;
}
void plain(bool write, const volatile void* p, size_t n, void* pc)
{
    if (!g_on || n == 0 || !fib::active())
    {
        return;
    }
    auto a = reinterpret_cast<uintptr_t>(p);
    if (!inRange(a))
    {
        return;
    }
    int t = fib::self();
    if (!write)
    {
        g_optimistic[t].push_back(g_ev.size());
    }
    g_ev.push_back({t, write ? WRITE : READ, a, n, false, false, pc});
}
bool isAcq(int o)
{
    return o == __ATOMIC_ACQUIRE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST || o == __ATOMIC_CONSUME;
}
bool isRel(int o)
{
    return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST;
}
void atomic(Kind k, const volatile void* p, size_t n, int order, bool failed, void* pc)
{
    if (!g_on || !fib::active())
    {
        return;
    }
    int t = fib::self();
    auto& o = g_optimistic[t];
    if (failed)
    {
        // what was read for a compare-and-swap that failed was not used
        for (auto i : o)
        {
            g_ev[i].k = GONE;
        }
    }
    o.clear();
    bool acq = isAcq(order) && k != STORE, rel = isRel(order) && k != LOAD;
    g_ev.push_back({t, k, reinterpret_cast<uintptr_t>(p), n, acq, rel, pc});
}
void onSync(int kind, const void* p)
{
    atomic(kind == 0 ? RMW : RMW, p, 1, kind == 0 ? __ATOMIC_ACQUIRE : __ATOMIC_RELEASE, false, nullptr);
}
} // namespace
void reset()
{
    g_ev.clear();
    g_ranges.clear();
    g_optimistic.clear();
    g_on = false;
    fib::g_onSync = &onSync;
}
void range(const void* p, size_t n)
{
    auto a = reinterpret_cast<uintptr_t>(p);
    g_ranges.push_back({a, a + n});
}
void start()
{
    g_on = true;
    g_ev.push_back({fib::self(), START, 0, 0, false, false, nullptr});
}
void join()
{
    g_ev.push_back({fib::self(), JOIN, 0, 0, false, false, nullptr});
}
void stop()
{
    g_on = false;
}
std::vector<std::string> events()
{
    g_recorded = g_ev.size();
    // 1. the places: accessed intervals, cut where others begin or end
    std::set<uintptr_t> cuts;
    for (auto& e : g_ev)
    {
        if (e.k == READ || e.k == WRITE || ((e.k == LOAD || e.k == STORE || e.k == RMW) && inRange(e.a)))
        {
            cuts.insert(e.a);
            cuts.insert(e.a + e.n);
        }
    }
    std::vector<uintptr_t> cut(cuts.begin(), cuts.end());
    auto first = [&](uintptr_t a) { return size_t(std::lower_bound(cut.begin(), cut.end(), a) - cut.begin()); };
    struct Use
    {
        std::set<int> readers, writers, atomics;
        bool plain{false};
        int id{0};
    };
    std::vector<Use> use(cut.size());
    std::map<uintptr_t, std::set<int>> sync;
    std::map<uintptr_t, int> syncId;
    for (auto& e : g_ev)
    {
        bool at = e.k == LOAD || e.k == STORE || e.k == RMW;
        if (at)
        {
            sync[e.a].insert(e.t);
        }
        if (e.k == READ || e.k == WRITE || (at && inRange(e.a)))
        {
            for (auto i = first(e.a); i < cut.size() && cut[i] < e.a + e.n; ++i)
            {
                (e.k == READ || e.k == LOAD ? use[i].readers : use[i].writers).insert(e.t);
                use[i].plain |= !at;
            }
        }
    }
    g_where.clear();
    g_where.emplace_back();
    // 2. only where two fibers meet, one of them writing, not both atomically
    for (auto& u : use)
    {
        std::set<int> all = u.readers;
        all.insert(u.writers.begin(), u.writers.end());
        if (u.plain && !u.writers.empty() && all.size() > 1)
        {
            u.id = int(g_where.size());
            g_where.emplace_back();
        }
    }
    std::vector<std::string> out;
    std::map<int, int> tid;
    std::map<int, uint64_t> epoch;
    struct Last
    {
        int t{-1};
        Kind k{READ};
        uint64_t e{0};
    };
    std::vector<Last> last(g_where.size());
    auto T = [&](int f) { return tid.emplace(f, int(tid.size()) + 1).first->second; };
    int nl = 0;
    for (auto& e : g_ev)
    {
        if (e.k == START || e.k == JOIN)
        {
            out.push_back(fmt("{\"k\":\"%s\",\"t\":%d}", e.k == START ? "start" : "join", T(e.t)));
            ++epoch[e.t];
            continue;
        }
        if (e.k == FENCE)
        {
            if (e.acq || e.rel)
            {
                out.push_back(fmt("{\"k\":\"fence\",\"t\":%d,\"a\":%d,\"r\":%d}", T(e.t), e.acq, e.rel));
                ++epoch[e.t];
            }
            continue;
        }
        if (e.k == GONE)
        {
            continue;
        }
        bool at = e.k != READ && e.k != WRITE;
        std::vector<long> xs;
        if (!at || inRange(e.a))
        {
            for (auto i = first(e.a); i < cut.size() && cut[i] < e.a + e.n; ++i)
            {
                if (!use[i].id)
                {
                    continue;
                }
                auto id = size_t(use[i].id);
                g_where[id].insert(e.pc);
                auto& l = last[id];
                if (!at && l.t == e.t && l.e == epoch[e.t] && (l.k == e.k || l.k == WRITE))
                {
                    continue;
                }
                l = at ? Last{} : Last{e.t, e.k, epoch[e.t]};
                xs.push_back(long(id));
            }
        }
        if (!at)
        {
            if (!xs.empty())
            {
                out.push_back(fmt("{\"k\":\"%s\",\"t\":%d,\"x\":%s}", e.k == READ ? "R" : "W", T(e.t), jseq(xs).c_str()));
            }
            continue;
        }
        bool two = sync[e.a].size() > 1;
        if (!two && xs.empty())
        {
            continue;
        }
        auto& id = syncId[e.a];
        if (id == 0)
        {
            id = ++nl;
        }
        ++epoch[e.t];
        out.push_back(fmt("{\"k\":\"%s\",\"t\":%d,\"l\":%d,\"a\":%d,\"r\":%d,\"x\":%s}", e.k == LOAD ? "ld" : e.k == STORE ? "st" : "rmw", T(e.t), id, e.acq, e.rel, jseq(xs).c_str()));
    }
    g_threads = int(tid.size());
    return out;
}
std::string where(size_t place)
{
    std::string s;
    if (place < g_where.size())
    {
        for (auto p : g_where[place])
        {
            Dl_info i{};
            if (dladdr(p, &i) && i.dli_fname)
            {
                s += fmt(" 0x%lx", uintptr_t(p) - uintptr_t(i.dli_fbase));
            }
        }
    }
    return s;
}
} // namespace race

// ------------------------------------------------------------------------------------------------ called by the compiler
using namespace race;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init()
{
}
void __tsan_func_entry(void*)
{
}
void __tsan_func_exit()
{
}
#define RW(N)                                                                                                          \
    void __tsan_read##N(void* p)                                                                                       \
    {                                                                                                                  \
        plain(false, p, N, PC);                                                                                        \
    }                                                                                                                  \
    void __tsan_write##N(void* p)                                                                                      \
    {                                                                                                                  \
        plain(true, p, N, PC);                                                                                         \
    }                                                                                                                  \
    void __tsan_read_write##N(void* p)                                                                                 \
    {                                                                                                                  \
        plain(false, p, N, PC);                                                                                        \
        plain(true, p, N, PC);                                                                                         \
    }                                                                                                                  \
    void __tsan_unaligned_read##N(void* p)                                                                             \
    {                                                                                                                  \
        plain(false, p, N, PC);                                                                                        \
    }                                                                                                                  \
    void __tsan_unaligned_write##N(void* p)                                                                            \
    {                                                                                                                  \
        plain(true, p, N, PC);                                                                                         \
    }                                                                                                                  \
    void __tsan_unaligned_read_write##N(void* p)                                                                       \
    {                                                                                                                  \
        plain(false, p, N, PC);                                                                                        \
        plain(true, p, N, PC);                                                                                         \
    }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* p, size_t n)
{
    plain(false, p, n, PC);
}
void __tsan_write_range(void* p, size_t n)
{
    plain(true, p, n, PC);
}
void __tsan_vptr_read(void** p)
{
    plain(false, p, 8, PC);
}
void __tsan_vptr_update(void** p, void* v)
{
    if (*p != v)
    {
        plain(true, p, 8, PC);
    }
}
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    plain(false, s, n, PC);
    plain(true, d, n, PC);
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    plain(false, s, n, PC);
    plain(true, d, n, PC);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
    plain(true, d, n, PC);
    return memset(d, c, n);
}
#define AT(B, T)                                                                                                       \
    T __tsan_atomic##B##_load(const volatile T* p, int o)                                                              \
    {                                                                                                                  \
        atomic(LOAD, p, B / 8, o, false, PC);                                                                          \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                   \
    }                                                                                                                  \
    void __tsan_atomic##B##_store(volatile T* p, T v, int o)                                                           \
    {                                                                                                                  \
        atomic(STORE, p, B / 8, o, false, PC);                                                                         \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int o)                                                           \
    {                                                                                                                  \
        atomic(RMW, p, B / 8, o, false, PC);                                                                           \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                  \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int o)                                                          \
    {                                                                                                                  \
        atomic(RMW, p, B / 8, o, false, PC);                                                                           \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int o)                                                          \
    {                                                                                                                  \
        atomic(RMW, p, B / 8, o, false, PC);                                                                           \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int o)                                                          \
    {                                                                                                                  \
        atomic(RMW, p, B / 8, o, false, PC);                                                                           \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int o)                                                           \
    {                                                                                                                  \
        atomic(RMW, p, B / 8, o, false, PC);                                                                           \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                              \
    }                                                                                                                  \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int o)                                                          \
    {                                                                                                                  \
        atomic(RMW, p, B / 8, o, false, PC);                                                                           \
        return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int o, int f)                                   \
    {                                                                                                                  \
        T x = e;                                                                                                       \
        bool r = __atomic_compare_exchange_n(p, &x, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                     \
        atomic(r ? RMW : LOAD, p, B / 8, r ? o : f, !r, PC);                                                           \
        return x;                                                                                                      \
    }                                                                                                                  \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int o, int f)                             \
    {                                                                                                                  \
        bool r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                      \
        atomic(r ? RMW : LOAD, p, B / 8, r ? o : f, !r, PC);                                                           \
        return r;                                                                                                      \
    }                                                                                                                  \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int o, int f)                               \
    {                                                                                                                  \
        return __tsan_atomic##B##_compare_exchange_strong(p, e, v, o, f);                                              \
    }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o)
{
    atomic(FENCE, nullptr, 0, o, false, PC);
}
void __tsan_atomic_signal_fence(int)
{
}
}
