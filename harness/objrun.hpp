// runs a program of calls on one object, by one or several threads, and records its history
#ifndef OBJRUN_HPP
#define OBJRUN_HPP
#include "util.hpp"
#include <memory>
using V = std::vector<long>;
struct Op
{
    std::string o;
    V a;
};
struct Program
{
    std::string cfg{"{}"};
    std::vector<Op> prelude;
    std::vector<std::vector<Op>> threads;
    std::vector<Op> rescue; // when all are blocked: one of them after the other
    std::vector<Op> tail;
    int firstMortal{1};
    int killFiber{-1}; // 1-based thread
    int64_t killAt{-1};
    bool seq() const
    {
        return threads.empty();
    }
};
struct Obj
{
    Hist* h{nullptr};
    virtual ~Obj() = default;
    // executes the call; arguments may be completed (they are what is recorded); false: nothing was done
    virtual bool prepare(int, Op&)
    {
        return true;
    }
    virtual V exec(int t, const Op& op) = 0;
    virtual void died(int)
    {
    }
    // names a known way to get stuck
    virtual std::string stuckTag()
    {
        return "";
    }
};
inline std::function<void()>& beforeRun()
{
    static std::function<void()> f;
    return f;
}
using Factory = std::function<Obj*(const Program&)>;

inline fib::Result runObj(const Program& p, fib::Options o, Collector& c, const std::string& src, const Factory& make, uint64_t quietSteps = 3000)
{
    if (beforeRun())
    {
        beforeRun()();
    }
    Hist h;
    h.cfg = p.cfg;
    h.comment = src;
    o.fairBurst = 400;
    o.killFiber = p.killFiber;
    o.killAt = p.killAt;
    Obj* x = nullptr;
    bool bad = false, start = false, killed = false, complete = false;
    uint64_t last = 0;
    size_t n = p.threads.size();
    auto one = [&](int t, Op op) {
        {
            fib::Quiet q;
            if (!x->prepare(t, op))
            {
                return;
            }
        }
        h.call(t, op.o, op.a);
        last = fib::now();
        auto r = x->exec(t, op);
        h.ret(t, op.o, r);
        last = fib::now();
    };
    std::vector<fib::Fn> fns;
    fns.push_back([&] {
        {
            fib::Quiet q;
            x = make(p);
            x->h = &h;
        }
        for (auto& op : p.prelude)
        {
            one(0, op);
        }
        start = true;
        auto all = [&] {
            for (size_t i = 1; i <= n; ++i)
            {
                if (!fib::finished(int(i)))
                {
                    return false;
                }
            }
            return true;
        };
        size_t round = 0;
        while (!all())
        {
            auto quietFor = [&](uint64_t steps) {
                auto now = fib::now();
                fib::blockUntil([&] { return all() || fib::now() > std::max(now, last) + steps; }, fib::virtualNs() + 3600ull * 1000000000ull);
            };
            quietFor(quietSteps);
            if (all())
            {
                break;
            }
            {
                // an unfair schedule may starve somebody: a fair one before it is called blocked
                auto before = fib::now();
                auto s = fib::setStrategy(fib::Strategy::ROUND);
                quietFor(1500);
                fib::setStrategy(s);
                if (all())
                {
                    break;
                }
                if (last > before)
                {
                    continue;
                }
            }
            std::vector<long> w;
            {
                fib::Quiet q;
                for (size_t i = 1; i <= n; ++i)
                {
                    if (!fib::finished(int(i)))
                    {
                        w.push_back(long(i));
                    }
                }
                h.add(fmt("{\"k\":\"blocked\",\"a\":%s}", jseq(w).c_str()));
            }
            last = fib::now();
            if (round >= p.rescue.size())
            {
                h.add("{\"k\":\"stuck\"}");
                h.comment += x->stuckTag();
                bad = true;
                fib::abandon();
            }
            one(0, p.rescue[round++]);
        }
        for (auto& op : p.tail)
        {
            one(0, op);
        }
        complete = true;
        if (!killed)
        {
            delete x;
        }
    });
    for (size_t i = 0; i < n; ++i)
    {
        fns.push_back([&, i] {
            fib::block([&] { return start; });
            for (auto& op : p.threads[i])
            {
                one(int(i) + 1, op);
            }
        });
    }
    fib::g_onAbandon = [&](int f, bool kill) {
        if (kill)
        {
            killed = true;
            h.add(fmt("{\"k\":\"die\",\"t\":%d}", f));
            x->died(f);
        }
        else if (!bad)
        {
            bad = true;
            h.add(fmt("{\"k\":\"fatal\",\"t\":%d,\"e\":%u}", f, g_errorCodes.empty() ? 0 : g_errorCodes.back().second));
        }
        last = fib::now();
    };
    auto r = fib::run(fns, o);
    fib::g_onAbandon = nullptr;
    if (r.end != fib::End::DONE && !bad)
    {
        bad = true;
        h.add("{\"k\":\"stuck\"}");
        ++c.stuck;
    }
    if (bad)
    {
        ++c.fatals;
    }
    if (killed)
    {
        ++c.killed;
    }
    c.steps += r.steps;
    c.schedules.insert(r.hash);
    if (bad || killed)
    {
        fib::forgetLocks();
    }
    c.add(h, bad);
    return r;
}

// each program: once serially, then with forced preemptions, then random schedules; with kill: stops at every step
inline void explore(Collector& c, const std::string& name, Rng& r, uint64_t seed, int programs, int schedules, bool kill,
                    const std::function<Program(Rng&)>& gen, const Factory& make, uint64_t maxSteps = 60000, uint64_t quiet = 3000)
{
    for (int i = 0; i < programs; ++i)
    {
        Rng pr(seed * 1000003 + uint64_t(i));
        auto p = gen(pr);
        fib::Options s;
        s.strategy = fib::Strategy::SERIAL;
        s.seed = 1;
        s.maxSteps = maxSteps;
        auto src = fmt("%s seed=%lu program=%d", name.c_str(), seed, i);
        auto r0 = runObj(p, s, c, src + " serial", make, quiet);
        if (p.seq())
        {
            continue;
        }
        for (int k = 0; k < schedules; ++k)
        {
            auto o = randomOptions(r, maxSteps, uint32_t(r0.steps ? std::min<uint64_t>(r0.steps, 400) : 100));
            if (r.chance(1, 4))
            {
                o.strategy = fib::Strategy::REPLAY;
                uint64_t at = 0;
                for (uint32_t j = 0, m = 1 + r.below(4); j < m; ++j)
                {
                    at += 1 + r.below(uint32_t(std::min<uint64_t>(r0.steps, 300) / (m + 1) + 2));
                    o.forced.push_back({at, int(r.below(uint32_t(p.threads.size()) + 1))});
                }
            }
            auto q = p;
            if (kill)
            {
                q.killFiber = p.firstMortal + int(r.below(uint32_t(int(p.threads.size()) - p.firstMortal + 1)));
                auto m = q.killFiber < int(r0.fiberSteps.size()) ? r0.fiberSteps[size_t(q.killFiber)] : 20;
                q.killAt = 1 + int64_t(r.below(uint32_t(std::max<uint64_t>(m, 2))));
            }
            runObj(q, o, c, src + fmt(" sched=%d:%lu kill=%d@%ld", k, o.seed, q.killFiber, q.killAt), make, quiet);
        }
    }
}
inline V ok(long x)
{
    return V{x};
}
#endif
