// Deterministic user-level threads. All code under test runs in one OS thread; a switch happens only at scheduling
// points (every atomic operation, mutex/semaphore operation, sleep and explicit fib::point()).
#ifndef FIB_HPP
#define FIB_HPP
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1)
        : s(seed + 0x1234567)
    {
        // neighbouring seeds must not give shifted copies of one stream
        s = next() ^ (next() << 1);
        s = next() ^ (next() << 1);
    }
    uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n)
    {
        return n ? uint32_t((next() >> 11) % n) : 0;
    }
    bool chance(uint32_t num, uint32_t den)
    {
        return below(den) < num;
    }
};

namespace fib
{
enum class Strategy
{
    RANDOM,   // switch with probability 1/period at each point
    PCT,      // random priorities, `changes` priority change points
    ROUND,    // switch at every point
    SERIAL,   // never preempt
    REPLAY    // forced preemptions from `forced` (step -> fiber), else run on
};
struct Options
{
    Strategy strategy{Strategy::RANDOM};
    uint64_t seed{1};
    uint32_t period{3};         // RANDOM: mean run length
    uint32_t changes{3};        // PCT
    uint32_t pctLength{200};    // PCT: expected number of steps
    uint64_t fairBurst{3000};   // forced switch after so many steps in a row
    uint64_t maxSteps{20000};   // give up: STUCK
    int64_t killAt{-1};         // global step at which `killFiber` is abandoned when it is running (count of its own steps)
    int killFiber{-1};
    std::vector<std::pair<uint64_t, int>> forced; // REPLAY: (global step, fiber index)
    bool timeoutsOnlyWhenIdle{true};
};
enum class End
{
    DONE,     // all fibers finished (or were killed)
    STUCK,    // deadlock: all remaining fibers blocked
    LIVELOCK, // step limit
};
struct Result
{
    End end{End::DONE};
    uint64_t steps{0};
    bool killed{false};
    std::vector<uint64_t> fiberSteps;
    std::vector<int> unfinished;
    uint64_t hash{0};
};
using Fn = std::function<void()>;

// from now on every fiber is as likely as any other (returns what was before)
Strategy setStrategy(Strategy s);
// what pthread_self (offset) and getpid answer in a fiber
extern int (*g_tidOf)(int);
extern int (*g_pidOf)(int);
Result run(const std::vector<Fn>& fns, const Options& o);
// as run(), but only one body; used to survive fatal errors in sequential code. returns false if it was abandoned
bool guarded(const Fn& fn);

bool active();                 // inside a fiber of run()
int self();                    // index of the running fiber, -1 outside
uint64_t now();                // global step
void point();                  // scheduling point
void spin();                   // a scheduling point in a waiting loop: lets others run first
void block(const std::function<bool()>& ready);                      // waits
bool blockUntil(const std::function<bool()>& ready, uint64_t absNs); // false: timeout (virtual time)
[[noreturn]] void abandon();   // the running fiber never continues (crash, fatal error)
int spawn(const Fn& fn);       // a further fiber (thread creation inside a fiber)
bool finished(int f);
uint64_t virtualNs();
void advanceNs(uint64_t ns);
bool holdsLock(int fiber);
void forgetLocks();            // after an execution that left locks behind
void setQuiet(bool q);         // no switches (harness bookkeeping)
extern std::function<void(int fiber, bool killed)> g_onAbandon; // a fiber ends here and now
extern int g_fatal;            // number of fatal errors (abandoned fibers) so far
extern std::vector<std::string> g_errors;

// observation of atomic operations (C30)
struct AtomicOp
{
    int fiber;
    const volatile void* addr;
    int kind;
    int order;
};
extern std::function<void(const AtomicOp&)> g_onAtomic;
extern bool g_observe;
// locks and semaphores: 0 acquired, 1 about to be released
extern void (*g_onSync)(int kind, const void* addr);
struct Quiet
{
    Quiet()
    {
        setQuiet(true);
    }
    ~Quiet()
    {
        setQuiet(false);
    }
};
} // namespace fib
#endif
