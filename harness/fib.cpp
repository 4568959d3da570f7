#include "fib.hpp"
#include <cassert>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <map>
#include <pthread.h>
#include <sys/syscall.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

#ifndef IOX_VERIF_HOOKS
namespace iox_verif
{
}
#endif
#include "iox_verif_atomic.hpp"
#undef atomic_thread_fence

extern "C" void fib_switch(void** save, void* load);
asm(R"(
.text
.globl fib_switch
.type fib_switch,@function
fib_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");

namespace fib
{
int g_fatal = 0;
std::function<void(int, bool)> g_onAbandon;
bool g_killing = false;
std::vector<std::string> g_errors;
std::function<void(const AtomicOp&)> g_onAtomic;
void (*g_onSync)(int kind, const void* addr) = nullptr;
bool g_observe = false;

namespace
{
constexpr size_t STACK = 512 * 1024;
enum State
{
    READY,
    BLOCKED,
    FINISHED,
    DEAD
};
struct Fiber
{
    void* sp{nullptr};
    char* stack{nullptr};
    State state{READY};
    Fn fn;
    std::function<bool()> ready;
    bool hasDeadline{false};
    bool timedOut{false};
    uint64_t deadline{0};
    uint64_t steps{0};
    uint64_t spinMark{0}; // not before anybody else moved
    bool spinning{false};
    int64_t prio{0};
    uint64_t since{0}; // when it first could have run since it last ran (0: it could not)
};
std::vector<char*> g_freeStacks;
std::vector<Fiber*> g_f;
Options g_o;
Rng g_rng(1);
int g_cur = -1;
void* g_main = nullptr;
bool g_running = false;
int g_quiet = 0;
uint64_t g_step = 0;
uint64_t g_moves = 0; // steps of any fiber that were not spins
bool g_killed = false;
uint64_t g_ns = 1000000000ull;
std::vector<uint64_t> g_pctPoints;
int64_t g_lowPrio = 0;
uint64_t g_hash = 0;
uint64_t g_burst = 0;
size_t g_forcedPos = 0;
bool g_stop = false;
End g_end = End::DONE;

char* newStack()
{
    if (!g_freeStacks.empty())
    {
        auto r = g_freeStacks.back();
        g_freeStacks.pop_back();
        return r;
    }
    auto r = static_cast<char*>(
        mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    assert(r != MAP_FAILED);
    return r;
}

void entry();
extern "C" void fib_entry_c()
{
    entry();
}
asm(R"(
.text
.globl fib_tramp
.type fib_tramp,@function
fib_tramp:
  andq $-16,%rsp
  call fib_entry_c
  ud2
)");
extern "C" void fib_tramp();

void prepare(Fiber* f)
{
    f->stack = newStack();
    auto top = reinterpret_cast<uint64_t*>(f->stack + STACK - 64);
    *--top = 0;
    *--top = reinterpret_cast<uint64_t>(&fib_tramp);
    for (int i = 0; i < 6; ++i)
    {
        *--top = 0;
    }
    f->sp = top;
}

bool isReady(Fiber* f)
{
    if (f->state == READY)
    {
        return true;
    }
    if (f->state != BLOCKED)
    {
        return false;
    }
    if (f->ready())
    {
        return true;
    }
    return false;
}

int pick()
{
    // candidates
    std::vector<int> c, spin;
    for (size_t i = 0; i < g_f.size(); ++i)
    {
        if (isReady(g_f[i]))
        {
            if (g_f[i]->since == 0)
            {
                g_f[i]->since = g_step;
            }
            if (g_f[i]->spinning && g_f[i]->spinMark == g_moves)
            {
                spin.push_back(int(i));
            }
            else
            {
                c.push_back(int(i));
            }
        }
    }
    if (!c.empty() && !g_o.timeoutsOnlyWhenIdle)
    {
        // a timeout may also fire early: time passes while others are runnable
        for (size_t i = 0; i < g_f.size(); ++i)
        {
            auto f = g_f[i];
            if (f->state == BLOCKED && f->hasDeadline && !f->ready() && g_rng.chance(1, 50))
            {
                f->timedOut = true;
                if (g_ns < f->deadline)
                {
                    g_ns = f->deadline;
                }
                f->state = READY;
                return int(i);
            }
        }
    }
    if (c.empty())
    {
        // let time pass
        int best = -1;
        for (size_t i = 0; i < g_f.size(); ++i)
        {
            auto f = g_f[i];
            if (f->state == BLOCKED && f->hasDeadline && (best < 0 || f->deadline < g_f[best]->deadline))
            {
                best = int(i);
            }
        }
        if (best >= 0 && (spin.empty() || (g_f[best]->deadline < g_ns + 60000000000ull && g_rng.chance(1, 20))))
        {
            auto f = g_f[best];
            f->timedOut = true;
            if (g_ns < f->deadline)
            {
                g_ns = f->deadline;
            }
            f->state = READY;
            return best;
        }
        if (!spin.empty())
        {
            g_ns += 1000000;
            return spin[g_rng.below(uint32_t(spin.size()))];
        }
        return -1;
    }
    // fairness: nobody who could run waits forever
    {
        int x = -1;
        for (auto y : c)
        {
            if (y != g_cur && g_step - g_f[y]->since > g_o.fairBurst && (x < 0 || g_f[y]->since < g_f[x]->since))
            {
                x = y;
            }
        }
        if (x >= 0)
        {
            if (g_cur >= 0)
            {
                g_f[g_cur]->prio = --g_lowPrio;
            }
            return x;
        }
    }
    switch (g_o.strategy)
    {
    case Strategy::SERIAL:
    case Strategy::REPLAY:
    {
        if (g_o.strategy == Strategy::REPLAY)
        {
            while (g_forcedPos < g_o.forced.size() && g_o.forced[g_forcedPos].first <= g_step)
            {
                int w = g_o.forced[g_forcedPos++].second;
                for (auto x : c)
                {
                    if (x == w)
                    {
                        return x;
                    }
                }
            }
        }
        for (auto x : c)
        {
            if (x == g_cur)
            {
                return x;
            }
        }
        return c[0];
    }
    case Strategy::ROUND:
        return c[g_rng.below(uint32_t(c.size()))];
    case Strategy::RANDOM:
    {
        if (!g_rng.chance(1, g_o.period))
        {
            for (auto x : c)
            {
                if (x == g_cur)
                {
                    return x;
                }
            }
        }
        return c[g_rng.below(uint32_t(c.size()))];
    }
    case Strategy::PCT:
    {
        for (auto p : g_pctPoints)
        {
            if (p == g_step && g_cur >= 0)
            {
                g_f[g_cur]->prio = --g_lowPrio;
            }
        }
        int b = c[0];
        for (auto x : c)
        {
            if (g_f[x]->prio > g_f[b]->prio)
            {
                b = x;
            }
        }
        return b;
    }
    }
    return c[0];
}

void schedule()
{
    // runs on the current fiber (or on main); returns when this context is chosen again
    ++g_step;
    if (g_step > g_o.maxSteps)
    {
        g_stop = true;
        g_end = End::LIVELOCK;
    }
    int n = g_stop ? -1 : pick();
    if (n < 0 && !g_stop)
    {
        g_stop = true;
        bool all = true;
        for (auto f : g_f)
        {
            all = all && (f->state == FINISHED || f->state == DEAD);
        }
        g_end = all ? End::DONE : End::STUCK;
    }
    int old = g_cur;
    if (n >= 0)
    {
        auto f = g_f[n];
        f->since = 0;
        if (f->state == BLOCKED)
        {
            f->state = READY;
        }
        g_hash = (g_hash ^ uint64_t(n + 1)) * 0x100000001b3ull;
    }
    if (n == old)
    {
        ++g_burst;
        return;
    }
    g_burst = 0;
    void* dummy;
    void** save = old >= 0 ? &g_f[old]->sp : &g_main;
    if (old >= 0 && (g_f[old]->state == DEAD || g_f[old]->state == FINISHED))
    {
        save = &dummy;
    }
    g_cur = n;
    int e = errno; // one per thread
    fib_switch(save, n >= 0 ? g_f[n]->sp : g_main);
    errno = e;
}

void checkKill()
{
    auto f = g_f[g_cur];
    ++f->steps;
    if (g_o.killFiber == g_cur && int64_t(f->steps) == g_o.killAt)
    {
        g_killed = true;
        g_killing = true;
        abandon();
    }
}

void entry()
{
    auto f = g_f[g_cur];
    f->fn();
    f = g_f[g_cur];
    f->state = FINISHED;
    ++g_moves;
    schedule();
    abort();
}
} // namespace

bool active()
{
    return g_running && g_cur >= 0 && g_quiet == 0;
}
int self()
{
    return g_running ? g_cur : -1;
}
uint64_t now()
{
    return g_step;
}
uint64_t virtualNs()
{
    return g_ns;
}
void advanceNs(uint64_t ns)
{
    g_ns += ns;
}
Strategy setStrategy(Strategy s)
{
    auto x = g_o.strategy;
    g_o.strategy = s;
    return x;
}
void setQuiet(bool q)
{
    g_quiet += q ? 1 : -1;
}
bool finished(int f)
{
    return g_f[f]->state == FINISHED || g_f[f]->state == DEAD;
}
void point()
{
    if (!active())
    {
        return;
    }
    checkKill();
    ++g_moves;
    g_f[g_cur]->spinning = false;
    schedule();
}
void spin()
{
    if (!active())
    {
        return;
    }
    checkKill();
    g_f[g_cur]->spinning = true;
    g_f[g_cur]->spinMark = g_moves;
    schedule();
    g_f[g_cur]->spinning = false;
}
void block(const std::function<bool()>& ready)
{
    auto f = g_f[g_cur];
    f->ready = ready;
    f->hasDeadline = false;
    f->timedOut = false;
    f->state = BLOCKED;
    ++g_moves;
    schedule();
}
bool blockUntil(const std::function<bool()>& ready, uint64_t absNs)
{
    auto f = g_f[g_cur];
    f->ready = ready;
    f->hasDeadline = true;
    f->timedOut = false;
    f->deadline = absNs;
    f->state = BLOCKED;
    ++g_moves;
    schedule();
    f = g_f[g_cur];
    f->hasDeadline = false;
    return !f->timedOut;
}
void abandon()
{
    if (!g_running || g_cur < 0)
    {
        fprintf(stderr, "fatal error outside of a fiber\n");
        fflush(nullptr);
        _exit(77);
    }
    bool killing = g_killing;
    g_killing = false;
    g_f[g_cur]->state = DEAD;
    if (g_onAbandon)
    {
        ++g_quiet;
        g_onAbandon(g_cur, killing);
    }
    g_quiet = 0;
    ++g_moves;
    schedule();
    abort();
}
int spawn(const Fn& fn)
{
    auto f = new Fiber;
    f->fn = fn;
    f->prio = 1000 + g_rng.below(1000000);
    prepare(f);
    g_f.push_back(f);
    return int(g_f.size()) - 1;
}

Result run(const std::vector<Fn>& fns, const Options& o)
{
    assert(!g_running);
    g_o = o;
    g_rng = Rng(o.seed);
    g_f.clear();
    g_step = 0;
    g_moves = 0;
    g_killed = false;
    g_stop = false;
    g_end = End::DONE;
    g_hash = 1469598103934665603ull;
    g_burst = 0;
    g_forcedPos = 0;
    g_quiet = 0;
    g_lowPrio = 900;
    g_pctPoints.clear();
    if (o.strategy == Strategy::PCT)
    {
        for (uint32_t i = 0; i < o.changes; ++i)
        {
            g_pctPoints.push_back(1 + g_rng.below(o.pctLength));
        }
    }
    for (auto& fn : fns)
    {
        spawn(fn);
    }
    g_running = true;
    g_cur = -1;
    schedule();
    g_running = false;
    g_cur = -1;
    Result r;
    r.end = g_end;
    r.steps = g_step;
    r.killed = g_killed;
    r.hash = g_hash;
    for (size_t i = 0; i < g_f.size(); ++i)
    {
        r.fiberSteps.push_back(g_f[i]->steps);
        if (g_f[i]->state != FINISHED && g_f[i]->state != DEAD)
        {
            r.unfinished.push_back(int(i));
        }
        g_freeStacks.push_back(g_f[i]->stack);
        delete g_f[i];
    }
    g_f.clear();
    return r;
}

bool guarded(const Fn& fn)
{
    bool ok = false;
    Options o;
    o.strategy = Strategy::SERIAL;
    o.maxSteps = 2000000;
    auto r = run({[&] {
                     fn();
                     ok = true;
                 }},
                 o);
    return ok && r.end == End::DONE;
}
} // namespace fib

// ------------------------------------------------------------------------------------------------ atomics
namespace iox_verif
{
void point(const volatile void*) noexcept
{
    fib::point();
}
void done(const volatile void* addr, int kind, int order) noexcept
{
    if (fib::g_observe && fib::g_onAtomic)
    {
        fib::g_onAtomic({fib::self(), addr, kind, order});
    }
    if (kind == K_STORE || kind == K_RMW)
    {
        fib::point();
    }
}
} // namespace iox_verif

// ------------------------------------------------------------------------------------------------ posix
template <typename F>
static F real(const char* n)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}

namespace
{
struct Mtx
{
    int owner{-2};
    int count{0};
    bool ownerDied{false};
    bool lost{false};
};
std::unordered_map<void*, Mtx>& mtx()
{
    static std::unordered_map<void*, Mtx> m;
    return m;
}
std::unordered_map<void*, int64_t>& sems()
{
    static std::unordered_map<void*, int64_t> m;
    return m;
}
void sync(int kind, const void* p)
{
    if (fib::g_onSync)
    {
        fib::g_onSync(kind, p);
    }
}
int kindOf(pthread_mutex_t* m)
{
    return m->__data.__kind;
}
uint64_t toNs(const timespec* t)
{
    return uint64_t(t->tv_sec) * 1000000000ull + uint64_t(t->tv_nsec);
}
} // namespace

namespace fib
{
void forgetLocks()
{
    mtx().clear();
}
bool holdsLock(int fiber)
{
    for (auto& e : mtx())
    {
        if (e.second.count > 0 && e.second.owner == fiber)
        {
            return true;
        }
    }
    return false;
}
bool mutexHeldByDead(void* p)
{
    auto it = mtx().find(p);
    return it != mtx().end() && it->second.owner >= 0 && it->second.count > 0 && finished(it->second.owner);
}
bool g_fakeSync = true;
int (*g_tidOf)(int) = nullptr;
int (*g_pidOf)(int) = nullptr;
} // namespace fib

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    if (!fib::g_fakeSync || fib::self() < 0)
    {
        return r(m);
    }
    if (!fib::active())
    { // quiet: bookkeeping
        auto& x = mtx()[m];
        if (x.count > 0 && x.owner != fib::self())
        {
            return EBUSY;
        }
        x.owner = fib::self();
        x.count++;
        return 0;
    }
    fib::point();
    auto& x = mtx()[m];
    int k = kindOf(m) & 3;
    if (x.count > 0 && x.owner == fib::self())
    {
        if (k == PTHREAD_MUTEX_RECURSIVE)
        {
            x.count++;
            return 0;
        }
        if (k == PTHREAD_MUTEX_ERRORCHECK)
        {
            return EDEADLK;
        }
    }
    if (x.lost)
    {
        return ENOTRECOVERABLE;
    }
    while (mtx()[m].count > 0)
    {
        if ((kindOf(m) & 16) && fib::mutexHeldByDead(m))
        {
            auto& y = mtx()[m];
            y.owner = fib::self();
            y.count = 1;
            y.ownerDied = true;
            sync(0, m);
            return EOWNERDEAD;
        }
        fib::block([m] { return mtx()[m].count == 0 || ((kindOf(m) & 16) && fib::mutexHeldByDead(m)); });
    }
    auto& y = mtx()[m];
    if (y.lost)
    {
        return ENOTRECOVERABLE;
    }
    y.owner = fib::self();
    y.count = 1;
    sync(0, m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    if (!fib::g_fakeSync || fib::self() < 0)
    {
        return r(m);
    }
    fib::point();
    auto& x = mtx()[m];
    if (x.count > 0)
    {
        if (x.owner == fib::self() && (kindOf(m) & 3) == PTHREAD_MUTEX_RECURSIVE)
        {
            x.count++;
            return 0;
        }
        if ((kindOf(m) & 16) && fib::mutexHeldByDead(m))
        {
            x.owner = fib::self();
            x.count = 1;
            x.ownerDied = true;
            sync(0, m);
            return EOWNERDEAD;
        }
        return EBUSY;
    }
    if (x.lost)
    {
        return ENOTRECOVERABLE;
    }
    x.owner = fib::self();
    x.count = 1;
    sync(0, m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    if (!fib::g_fakeSync || fib::self() < 0)
    {
        return r(m);
    }
    fib::point();
    auto& x = mtx()[m];
    if (x.count == 0 || x.owner != fib::self())
    {
        return EPERM;
    }
    if (--x.count == 0)
    {
        sync(1, m);
        x.owner = -2;
        x.lost = x.ownerDied;
    }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_destroy");
    if (fib::g_fakeSync && fib::self() >= 0)
    {
        auto it = mtx().find(m);
        if (it != mtx().end())
        {
            if (it->second.count > 0)
            {
                return EBUSY;
            }
            mtx().erase(it);
        }
    }
    return r(m);
}
int pthread_mutex_consistent(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_consistent");
    if (fib::g_fakeSync && fib::self() >= 0)
    {
        auto& x = mtx()[m];
        if (!x.ownerDied || x.owner != fib::self())
        {
            return EINVAL;
        }
        x.ownerDied = false;
        return 0;
    }
    return r(m);
}

int sem_init(sem_t* s, int p, unsigned v)
{
    static auto r = real<int (*)(sem_t*, int, unsigned)>("sem_init");
    return r(s, p, v);
}
// semaphores keep their real counter; only waiting is replaced
int sem_post(sem_t* s)
{
    static auto r = real<int (*)(sem_t*)>("sem_post");
    if (fib::g_fakeSync && fib::active())
    {
        fib::point();
    }
    sync(1, s);
    return r(s);
}
int sem_trywait(sem_t* s)
{
    static auto r = real<int (*)(sem_t*)>("sem_trywait");
    if (fib::g_fakeSync && fib::active())
    {
        fib::point();
    }
    auto x = r(s);
    if (x == 0)
    {
        sync(0, s);
    }
    return x;
}
int sem_wait(sem_t* s)
{
    static auto r = real<int (*)(sem_t*)>("sem_wait");
    static auto t = real<int (*)(sem_t*)>("sem_trywait");
    if (!fib::g_fakeSync || !fib::active())
    {
        return r(s);
    }
    fib::point();
    int before = errno;
    while (t(s) != 0)
    {
        fib::block([s] {
            int v = 0;
            sem_getvalue(s, &v);
            return v > 0;
        });
    }
    sync(0, s);
    errno = before;
    return 0;
}
int sem_timedwait(sem_t* s, const timespec* abs)
{
    static auto r = real<int (*)(sem_t*, const timespec*)>("sem_timedwait");
    static auto t = real<int (*)(sem_t*)>("sem_trywait");
    if (!fib::g_fakeSync || !fib::active())
    {
        return r(s, abs);
    }
    fib::point();
    int before = errno;
    while (t(s) != 0)
    {
        if (fib::virtualNs() >= toNs(abs))
        {
            errno = ETIMEDOUT;
            return -1;
        }
        fib::blockUntil(
            [s] {
                int v = 0;
                sem_getvalue(s, &v);
                return v > 0;
            },
            toNs(abs));
    }
    sync(0, s);
    errno = before;
    return 0;
}
int sched_yield() noexcept
{
    static auto r = real<int (*)()>("sched_yield");
    if (fib::self() < 0)
    {
        return r();
    }
    fib::advanceNs(1000000);
    fib::spin();
    return 0;
}
int nanosleep(const timespec* t, timespec* rem)
{
    static auto r = real<int (*)(const timespec*, timespec*)>("nanosleep");
    if (fib::self() < 0)
    {
        return r(t, rem);
    }
    fib::advanceNs(1000000);
    fib::spin();
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec* rem)
{
    static auto r = real<int (*)(clockid_t, int, const timespec*, timespec*)>("clock_nanosleep");
    if (fib::self() < 0)
    {
        return r(c, fl, t, rem);
    }
    fib::advanceNs(1000000);
    fib::spin();
    return 0;
}
int clock_gettime(clockid_t c, timespec* t) noexcept
{
    static auto r = real<int (*)(clockid_t, timespec*)>("clock_gettime");
    if (fib::self() < 0 || !fib::g_fakeSync)
    {
        return r(c, t);
    }
    uint64_t n = fib::virtualNs();
    t->tv_sec = time_t(n / 1000000000ull);
    t->tv_nsec = long(n % 1000000000ull);
    return 0;
}
pthread_t pthread_self() noexcept
{
    static auto r = real<pthread_t (*)()>("pthread_self");
    if (fib::self() < 0 || !fib::g_fakeSync)
    {
        return r();
    }
    return pthread_t(0x1000 + (fib::g_tidOf ? fib::g_tidOf(fib::self()) : fib::self()));
}
pid_t getpid() noexcept
{
    if (fib::self() >= 0 && fib::g_pidOf)
    {
        return fib::g_pidOf(fib::self());
    }
    return pid_t(syscall(SYS_getpid));
}
int pthread_setname_np(pthread_t t, const char* n) noexcept
{
    static auto r = real<int (*)(pthread_t, const char*)>("pthread_setname_np");
    if (fib::self() < 0 || !fib::g_fakeSync)
    {
        return r(t, n);
    }
    return 0;
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    static auto r = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (fib::self() < 0 || !fib::g_fakeSync)
    {
        return r(t, a, fn, arg);
    }
    static char* cell = nullptr;
    cell += 16;
    auto c = cell;
    sync(1, c);
    int f = fib::spawn([fn, arg, c] {
        sync(0, c);
        fn(arg);
        sync(1, reinterpret_cast<void*>(uintptr_t(0x1000 + fib::self()) << 20));
    });
    *t = pthread_t(0x1000 + f);
    return 0;
}
int pthread_join(pthread_t t, void** ret)
{
    static auto r = real<int (*)(pthread_t, void**)>("pthread_join");
    if (fib::self() < 0 || !fib::g_fakeSync)
    {
        return r(t, ret);
    }
    int f = int(t - 0x1000);
    fib::block([f] { return fib::finished(f); });
    sync(0, reinterpret_cast<void*>(uintptr_t(0x1000 + f) << 20));
    return 0;
}
}
