// Concurrent containers under controlled schedules: histories of calls and returns.
#include "iox/detail/mpmc_lockfree_queue.hpp"
#include "iox/detail/mpmc_loffli.hpp"
#include "iox/detail/mpmc_resizeable_lockfree_queue.hpp"
#include "iox/detail/spsc_fifo.hpp"
#include "iox/detail/spsc_sofi.hpp"
#include "util.hpp"
#include <memory>

using namespace iox::concurrent;

// an element whose copies are scheduling points and whose two halves must agree (torn values become visible)
struct Elem
{
    long a{-7};
    long b{-7};
    Elem() = default;
    explicit Elem(long v)
        : a(v)
        , b(v)
    {
    }
    Elem(const Elem& o)
    {
        a = o.a;
        fib::point();
        b = o.b;
    }
    Elem(Elem&& o)
    {
        a = o.a;
        fib::point();
        b = o.b;
        o.a = -5;
        o.b = -6;
    }
    Elem& operator=(const Elem& o)
    {
        a = o.a;
        fib::point();
        b = o.b;
        return *this;
    }
    Elem& operator=(Elem&& o)
    {
        a = o.a;
        fib::point();
        b = o.b;
        return *this;
    }
    ~Elem()
    {
        a = -3;
        b = -4;
    }
    long get() const
    {
        return a == b ? a : -1000 - a;
    }
};

struct Op
{
    char o;
    long a;
};
using V = std::vector<long>;
struct Sut
{
    virtual ~Sut() = default;
    virtual V exec(const Op& op) = 0;
    virtual std::string name(char o)
    {
        switch (o)
        {
        case 'P':
            return "push";
        case 'T':
            return "tryPush";
        case 'O':
            return "pop";
        case 'E':
            return "empty";
        case 'S':
            return "size";
        case 'C':
            return "setCapacity";
        case 'K':
            return "capacity";
        }
        return "?";
    }
};
template <uint64_t N>
struct Mpmc : Sut
{
    MpmcLockFreeQueue<Elem, N> q;
    V exec(const Op& op) override
    {
        switch (op.o)
        {
        case 'P':
        {
            // both overloads
            if (op.a & 1)
            {
                Elem e(op.a);
                auto r = q.push(e);
                return r.has_value() ? V{r->get()} : V{};
            }
            auto r = q.push(Elem(op.a));
            return r.has_value() ? V{r->get()} : V{};
        }
        case 'T':
        {
            Elem e(op.a);
            if (op.a & 1)
            {
                return V{q.tryPush(e)};
            }
            return V{q.tryPush(std::move(e))};
        }
        case 'O':
        {
            auto r = q.pop();
            return r.has_value() ? V{r->get()} : V{};
        }
        case 'E':
            return V{q.empty()};
        case 'S':
            return V{long(q.size())};
        case 'K':
            return V{long(q.capacity())};
        }
        return {};
    }
};
template <uint64_t N>
struct Resize : Sut
{
    MpmcResizeableLockFreeQueue<Elem, N> q;
    explicit Resize(uint64_t c)
        : q(c)
    {
    }
    V exec(const Op& op) override
    {
        switch (op.o)
        {
        case 'P':
        {
            if (op.a & 1)
            {
                Elem e(op.a);
                auto r = q.push(e);
                return r.has_value() ? V{r->get()} : V{};
            }
            auto r = q.push(Elem(op.a));
            return r.has_value() ? V{r->get()} : V{};
        }
        case 'T':
        {
            Elem e(op.a);
            if (op.a & 1)
            {
                return V{q.tryPush(e)};
            }
            return V{q.tryPush(std::move(e))};
        }
        case 'O':
        {
            auto r = q.pop();
            return r.has_value() ? V{r->get()} : V{};
        }
        case 'E':
            return V{q.empty()};
        case 'S':
            return V{long(q.size())};
        case 'K':
            return V{long(q.capacity())};
        case 'C':
        {
            V removed;
            bool r = q.setCapacity(uint64_t(op.a), [&](const Elem& e) { removed.push_back(e.get()); });
            removed.insert(removed.begin(), long(r));
            return removed;
        }
        }
        return {};
    }
};
struct Triv
{
    long a;
    long b;
};
template <uint64_t N>
struct Sofi : Sut
{
    SpscSofi<Triv, N> q;
    V exec(const Op& op) override
    {
        switch (op.o)
        {
        case 'P':
        {
            Triv out{-9, -9};
            bool ok = q.push(Triv{op.a, op.a}, out);
            return ok ? V{} : V{out.a == out.b ? out.a : -1000};
        }
        case 'O':
        {
            Triv out{-9, -9};
            bool ok = q.pop(out);
            return ok ? V{out.a == out.b ? out.a : -1000} : V{};
        }
        case 'E':
            return V{q.empty()};
        case 'S':
            return V{long(q.size())};
        case 'K':
            return V{long(q.capacity())};
        case 'C':
            return V{q.setCapacity(uint64_t(op.a))};
        }
        return {};
    }
};
template <uint64_t N>
struct Fifo : Sut
{
    SpscFifo<Elem, N> q;
    V exec(const Op& op) override
    {
        switch (op.o)
        {
        case 'T':
            return V{q.push(Elem(op.a))};
        case 'O':
        {
            auto r = q.pop();
            return r.has_value() ? V{r->get()} : V{};
        }
        case 'E':
            return V{q.empty()};
        case 'S':
            return V{long(q.size())};
        case 'K':
            return V{long(q.capacity())};
        }
        return {};
    }
};
struct Loffli : Sut
{
    std::vector<uint32_t> mem;
    MpmcLoFFLi l;
    explicit Loffli(uint32_t n)
        : mem(MpmcLoFFLi::requiredIndexMemorySize(n) / sizeof(uint32_t) + 1)
    {
        l.init(mem.data(), n);
    }
    std::string name(char o) override
    {
        return o == 'O' ? "get" : "put";
    }
    V exec(const Op& op) override
    {
        if (op.o == 'O')
        {
            uint32_t i = 4711;
            bool r = l.pop(i);
            return r ? V{long(i)} : V{};
        }
        return V{l.push(uint32_t(op.a))};
    }
};

template <template <uint64_t> class S>
static std::unique_ptr<Sut> mk(uint64_t n)
{
    switch (n)
    {
    case 1:
        return std::make_unique<S<1>>();
    case 2:
        return std::make_unique<S<2>>();
    case 3:
        return std::make_unique<S<3>>();
    case 4:
        return std::make_unique<S<4>>();
    default:
        return std::make_unique<S<5>>();
    }
}

struct Program
{
    std::string type;
    uint64_t cap{1}, maxCap{1};
    std::vector<Op> prelude;
    std::vector<std::vector<Op>> threads;
    int killFiber{-1};
    int64_t killAt{-1};
};

static std::unique_ptr<Sut> make(const Program& p)
{
    if (p.type == "mpmc")
    {
        return mk<Mpmc>(p.cap);
    }
    if (p.type == "sofi")
    {
        return mk<Sofi>(p.cap);
    }
    if (p.type == "fifo")
    {
        return mk<Fifo>(p.cap);
    }
    if (p.type == "loffli")
    {
        return std::make_unique<Loffli>(uint32_t(p.cap));
    }
    switch (p.maxCap)
    {
    case 1:
        return std::make_unique<Resize<1>>(p.cap);
    case 2:
        return std::make_unique<Resize<2>>(p.cap);
    case 3:
        return std::make_unique<Resize<3>>(p.cap);
    default:
        return std::make_unique<Resize<4>>(p.cap);
    }
}

static fib::Result runProgram(const Program& p, fib::Options o, Collector& c, const std::string& src)
{
    auto sut = make(p);
    Hist h;
    h.cfg = fmt("{\"type\":\"%s\",\"cap\":%lu,\"max\":%lu}", p.type.c_str(), p.cap, p.maxCap);
    h.comment = src;
    std::set<long> owned; // loffli: indices the main thread owns
    bool suspicious = false;
    std::map<long, int> in, out;
    auto account = [&](const Op& op, const V& r) {
        fib::Quiet q;
        if (op.o == 'P' || (op.o == 'T' && !r.empty() && r[0]))
        {
            in[op.a]++;
        }
        if (op.o == 'P' || op.o == 'O')
        {
            for (auto v : r)
            {
                out[v]++;
            }
        }
        if (op.o == 'C')
        {
            for (size_t i = 1; i < r.size(); ++i)
            {
                out[r[i]]++;
            }
        }
    };
    std::map<long, int> owners; // loffli: who has what
    auto one = [&](int t, const Op& op) {
        if (p.type == "loffli" && op.o == 'P')
        {
            fib::Quiet q;
            owners[op.a]--;
        }
        h.call(t, sut->name(op.o), p.type == "loffli" && op.o == 'O' ? V{} : V{op.a});
        auto r = sut->exec(op);
        h.ret(t, sut->name(op.o), r);
        account(op, r);
        if (p.type == "loffli" && op.o == 'O' && !r.empty())
        {
            fib::Quiet q;
            suspicious = suspicious || ++owners[r[0]] > 1;
        }
        return r;
    };
    bool lof = p.type == "loffli";
    std::vector<std::vector<long>> held(p.threads.size());
    bool preOk = fib::guarded([&] {
        for (auto& op : p.prelude)
        {
            auto r = one(0, op);
            if (lof && op.o == 'O' && !r.empty() && !held.empty())
            {
                fib::Quiet q;
                held[size_t(r[0]) % held.size()].push_back(r[0]);
            }
        }
    });
    std::vector<fib::Fn> fns;
    for (size_t t = 0; t < p.threads.size(); ++t)
    {
        fns.push_back([&, t] {
            for (auto op : p.threads[t])
            {
                if (lof && op.o == 'P')
                { // give back an own index
                    if (held[t].empty())
                    {
                        continue;
                    }
                    size_t k = size_t(op.a) % held[t].size();
                    op.a = held[t][k];
                    held[t].erase(held[t].begin() + long(k));
                }
                else if (lof && op.o == 'X')
                { // an index nobody can own
                    op.o = 'P';
                    op.a = long(p.cap) + op.a % 3;
                }
                auto r = one(int(t) + 1, op);
                if (lof && op.o == 'O' && !r.empty())
                {
                    held[t].push_back(r[0]);
                }
            }
        });
    }
    o.fairBurst = 300;
    o.killFiber = p.killFiber;
    o.killAt = p.killAt;
    auto res = fib::run(fns, o);
    if (res.end != fib::End::DONE)
    {
        h.add("{\"k\":\"stuck\",\"t\":0,\"o\":\"stuck\",\"a\":[]}");
        suspicious = true;
        ++c.stuck;
    }
    if (!preOk)
    {
        h.add("{\"k\":\"fatal\",\"t\":0,\"o\":\"fatal\",\"a\":[]}");
        suspicious = true;
    }
    // drain: what is left becomes part of the history
    if (res.end == fib::End::DONE)
    {
        bool ok = fib::guarded([&] {
            if (lof)
            {
                // double release: an index that is free must be refused
                for (uint64_t i = 0; i < p.cap + 2; ++i)
                {
                    auto r = one(0, {'O', 0});
                    if (r.empty())
                    {
                        break;
                    }
                    owned.insert(r[0]);
                }
                if (!res.killed)
                {
                    fib::Quiet q;
                    size_t n = owned.size();
                    for (auto& x : held)
                    {
                        n += x.size();
                    }
                    suspicious = suspicious || n != p.cap;
                }
                for (auto i : owned)
                {
                    one(0, {'P', i});
                    one(0, {'P', i});
                }
                one(0, {'O', 0});
                return;
            }
            one(0, {'S', 0});
            one(0, {'K', 0});
            one(0, {'E', 0});
            for (int i = 0; i < 12; ++i)
            {
                if (one(0, {'O', 0}).empty())
                {
                    break;
                }
            }
            one(0, {'S', 0});
            // and it still works up to its capacity
            if (p.type != "resize" || true)
            {
                for (uint64_t i = 0; i < p.maxCap + 1; ++i)
                {
                    if (p.killFiber >= 0 && p.type != "sofi" && p.type != "fifo")
                    {
                        break; // a slot may be lost with the stopped participant
                    }
                    one(0, {p.type == "fifo" ? 'T' : 'P', long(900 + i)});
                }
                for (int i = 0; i < 12; ++i)
                {
                    if (one(0, {'O', 0}).empty())
                    {
                        break;
                    }
                }
            }
        });
        if (!ok)
        {
            h.add("{\"k\":\"fatal\",\"t\":0,\"o\":\"fatal\",\"a\":[]}");
            suspicious = true;
        }
    }
    if (!lof && p.killFiber < 0 && in != out)
    {
        suspicious = true;
    }
    c.steps += res.steps;
    c.schedules.insert(res.hash);
    if (res.killed)
    {
        ++c.killed;
    }
    c.add(h, suspicious);
    return res;
}

static Program randomProgram(const std::string& type, Rng& r, int sizeClass)
{
    Program p;
    p.type = type;
    long v = 1;
    auto val = [&] { return v++; };
    if (type == "mpmc" || type == "resize")
    {
        p.maxCap = p.cap = 1 + r.below(sizeClass > 1 ? 4 : 3);
        if (type == "resize")
        {
            p.maxCap = p.cap + r.below(2);
            if (p.maxCap > 4)
            {
                p.maxCap = 4;
            }
        }
        size_t n = 2 + r.below(2);
        int pre = int(r.below(uint32_t(2 * p.cap + 2)));
        for (int i = 0; i < pre; ++i)
        {
            p.prelude.push_back(r.chance(2, 3) ? Op{'P', val()} : Op{'O', 0});
        }
        p.threads.resize(n);
        for (auto& t : p.threads)
        {
            int role = int(r.below(4));
            int k = 1 + int(r.below(sizeClass > 1 ? 4 : 3));
            for (int i = 0; i < k; ++i)
            {
                uint32_t x = r.below(20);
                if (type == "resize" && x == 0)
                {
                    t.push_back({'C', long(1 + r.below(uint32_t(p.maxCap)))});
                }
                else if (x == 1)
                {
                    t.push_back({'E', 0});
                }
                else if (x == 2)
                {
                    t.push_back({'S', 0});
                }
                else if (role == 0)
                {
                    t.push_back({'P', val()});
                }
                else if (role == 1)
                {
                    t.push_back({'O', 0});
                }
                else if (role == 2)
                {
                    t.push_back({'T', val()});
                }
                else
                {
                    t.push_back(r.chance(1, 2) ? Op{'O', 0} : r.chance(1, 2) ? Op{'P', val()} : Op{'T', val()});
                }
            }
        }
        if (type == "resize" && r.chance(1, 3))
        {
            auto& t = p.threads[r.below(uint32_t(n))];
            t.clear();
            t.push_back({'C', long(1 + r.below(uint32_t(p.maxCap)))});
            if (r.chance(1, 2))
            {
                t.push_back({'C', long(1 + r.below(uint32_t(p.maxCap + 1)))});
            }
        }
    }
    else if (type == "sofi" || type == "fifo")
    {
        p.maxCap = p.cap = 1 + r.below(sizeClass > 1 ? 4 : 3);
        char w = type == "sofi" ? 'P' : 'T';
        int pre = int(r.below(uint32_t(2 * p.cap + 3)));
        for (int i = 0; i < pre; ++i)
        {
            p.prelude.push_back(r.chance(2, 3) ? Op{w, val()} : Op{'O', 0});
        }
        if (type == "sofi" && r.chance(1, 4))
        {
            p.prelude.push_back({'C', long(1 + r.below(uint32_t(p.maxCap)))});
        }
        p.threads.resize(2);
        int k = 1 + int(r.below(sizeClass > 1 ? 6 : 4));
        for (int i = 0; i < k; ++i)
        {
            p.threads[0].push_back(r.chance(1, 10) ? Op{'S', 0} : Op{w, val()});
        }
        k = 1 + int(r.below(sizeClass > 1 ? 6 : 4));
        for (int i = 0; i < k; ++i)
        {
            auto x = r.below(10);
            p.threads[1].push_back(x == 0 ? Op{'S', 0} : x == 1 ? Op{'E', 0} : Op{'O', 0});
        }
    }
    else
    {
        p.cap = p.maxCap = 1 + r.below(sizeClass > 1 ? 6 : 4);
        int pre = int(r.below(uint32_t(p.cap + 1)));
        for (int i = 0; i < pre; ++i)
        {
            p.prelude.push_back({'O', 0});
        }
        p.threads.resize(2 + r.below(2));
        for (auto& t : p.threads)
        {
            int k = 2 + int(r.below(sizeClass > 1 ? 7 : 4));
            for (int i = 0; i < k; ++i)
            {
                auto x = r.below(12);
                t.push_back(x == 0 ? Op{'X', long(r.below(3))} : x < 6 ? Op{'P', long(r.below(8))} : Op{'O', 0});
            }
        }
    }
    return p;
}

int main(int argc, char** argv)
{
    if (argc < 7)
    {
        fprintf(stderr, "cq TYPE SEED EXECUTIONS MAXHIST KILLPERCENT OUT\n");
        return 2;
    }
    installErrorHandler();
    std::string type = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    uint64_t n = strtoull(argv[3], nullptr, 10);
    Collector c(strtoull(argv[4], nullptr, 10));
    uint32_t killPct = uint32_t(atoi(argv[5]));
    Rng r(seed);
    Rng prng(seed * 31 + 7);
    uint64_t done = 0;
    uint64_t programs = 0;
    while (done < n)
    {
        ++programs;
        auto p = randomProgram(type, prng, programs % 4 == 0 ? 2 : 1);
        // 1) systematic: every single preemption of the serial execution, from every starting order
        bool systematic = programs % 5 == 1;
        fib::Options o;
        o.maxSteps = 20000;
        o.strategy = fib::Strategy::REPLAY;
        o.seed = seed;
        auto base = runProgram(p, o, c, fmt("cq %s seed=%lu program=%lu serial", type.c_str(), seed, programs));
        ++done;
        if (systematic)
        {
            for (uint64_t s = 1; s <= base.steps && s < 150 && done < n; ++s)
            {
                for (int f = 0; f < int(p.threads.size()); ++f)
                {
                    o.forced = {{s, f}};
                    runProgram(
                        p, o, c, fmt("cq %s seed=%lu program=%lu preempt=%lu:%d", type.c_str(), seed, programs, s, f));
                    ++done;
                    // a second preemption at a random later point
                    uint64_t s2 = s + 1 + r.below(60);
                    int f2 = int(r.below(uint32_t(p.threads.size())));
                    o.forced = {{s, f}, {s2, f2}};
                    runProgram(p,
                               o,
                               c,
                               fmt("cq %s seed=%lu program=%lu preempt=%lu:%d,%lu:%d",
                                   type.c_str(),
                                   seed,
                                   programs,
                                   s,
                                   f,
                                   s2,
                                   f2));
                    ++done;
                }
            }
        }
        // 2) random and priority based
        for (int i = 0; i < 40 && done < n; ++i, ++done)
        {
            auto q = p;
            if (r.below(100) < killPct)
            {
                q.killFiber = int(r.below(uint32_t(p.threads.size())));
                q.killAt = 1 + int64_t(r.below(40));
            }
            auto oo = randomOptions(r, 20000, uint32_t(base.steps) + 1);
            runProgram(
                q,
                oo,
                c,
                fmt("cq %s seed=%lu program=%lu sched=%d:%lu kill=%d@%ld", type.c_str(), seed, programs, int(oo.strategy), oo.seed, q.killFiber, q.killAt));
        }
    }
    c.write(argv[6]);
    return 0;
}
