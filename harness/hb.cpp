// data handed over between threads: every access of the real code, with its memory order, for Hb.tla.
// This file and the code under test are compiled with -fsanitize=thread, the rest of the harness is not.
#include "race.hpp"
#include "sys.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/condition_listener.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/condition_notifier.hpp"
#include "iox/detail/mpmc_lockfree_queue.hpp"
#include "iox/detail/mpmc_loffli.hpp"
#include "iox/detail/mpmc_resizeable_lockfree_queue.hpp"
#include "iox/detail/spsc_fifo.hpp"
#include "iox/detail/spsc_sofi.hpp"
#include "iox/spin_lock.hpp"
#include "iox/spin_semaphore.hpp"
using namespace iox;
using namespace sys;

// what is handed over: filled by its owner, read by the one it is handed to
constexpr uint32_t N = 12;
struct Cell
{
    uint64_t v;
};
struct Scene
{
    std::vector<fib::Fn> threads;
    Cell* data;
    volatile uint64_t sink{0};
    Scene()
        : data(new Cell[N]())
    {
        race::range(data, sizeof(Cell) * N);
    }
    virtual ~Scene()
    {
        delete[] data;
    }
    void fill(uint64_t i)
    {
        data[i].v = data[i].v + 1;
    }
    void use(uint64_t i)
    {
        sink = data[i].v;
    }
    virtual void tail()
    {
    }
};
struct Elem
{
    uint64_t i{0};
    uint64_t check{0};
    Elem() = default;
    explicit Elem(uint64_t x)
        : i(x)
        , check(~x)
    {
    }
};

// one structure forward, another one back: the cells circulate
template <typename Q>
struct There : Scene
{
    Q* q = new Q();
    concurrent::SpscFifo<uint64_t, N>* back[4];
    There()
    {
        race::range(q, sizeof(Q));
        for (auto& b : back)
        {
            b = new concurrent::SpscFifo<uint64_t, N>();
            race::range(b, sizeof *b);
        }
    }
    ~There() override
    {
        delete q;
        for (auto& b : back)
        {
            delete b;
        }
    }
};
struct FifoScene : There<concurrent::SpscFifo<Elem, 2>>
{
    explicit FifoScene(Rng& r)
    {
        uint32_t n = 2 + r.below(4), m = 2 + r.below(5);
        threads.push_back([this, n] {
            std::vector<uint64_t> mine{0, 1, 2};
            for (uint32_t k = 0; k < n; ++k)
            {
                back[0]->pop().and_then([&](auto& i) { mine.push_back(i); });
                if (mine.empty())
                {
                    continue;
                }
                fill(mine.back());
                if (q->push(Elem(mine.back())))
                {
                    mine.pop_back();
                }
            }
        });
        threads.push_back([this, m] {
            for (uint32_t k = 0; k < m; ++k)
            {
                q->pop().and_then([&](auto& e) {
                    use(e.i);
                    back[0]->push(e.i);
                });
            }
        });
    }
};
struct SofiScene : There<concurrent::SpscSofi<Elem, 2>>
{
    explicit SofiScene(Rng& r)
    {
        uint32_t n = 2 + r.below(5), m = 2 + r.below(5);
        threads.push_back([this, n] {
            std::vector<uint64_t> mine{0, 1, 2, 3, 4};
            for (uint32_t k = 0; k < n; ++k)
            {
                back[0]->pop().and_then([&](auto& i) { mine.push_back(i); });
                if (mine.empty())
                {
                    continue;
                }
                fill(mine.back());
                Elem out;
                Elem in(mine.back());
                mine.pop_back();
                if (!q->push(in, out))
                {
                    use(out.i);
                    mine.insert(mine.begin(), out.i);
                }
            }
        });
        threads.push_back([this, m] {
            for (uint32_t k = 0; k < m; ++k)
            {
                Elem e;
                if (q->pop(e))
                {
                    use(e.i);
                    back[0]->push(e.i);
                }
            }
        });
    }
};
// producers and consumers; an overflow gives the evicted one back
template <typename Q>
struct MpmcScene : There<Q>
{
    explicit MpmcScene(Rng& r)
    {
        uint32_t np = 1 + r.below(2), nc = np == 2 ? 1 : 1 + r.below(2);
        for (uint32_t p = 0; p < np; ++p)
        {
            uint32_t n = 2 + r.below(4);
            bool overflow = r.chance(2, 3);
            this->threads.push_back([this, p, n, overflow] {
                std::vector<uint64_t> mine{p * 4, p * 4 + 1, p * 4 + 2};
                for (uint32_t k = 0; k < n; ++k)
                {
                    if (p == 0)
                    {
                        this->back[0]->pop().and_then([&](auto& i) { mine.push_back(i); });
                        this->back[1]->pop().and_then([&](auto& i) { mine.push_back(i); });
                    }
                    if (mine.empty())
                    {
                        continue;
                    }
                    auto i = mine.back();
                    this->fill(i);
                    if (overflow)
                    {
                        mine.pop_back();
                        this->q->push(Elem(i)).and_then([&](auto& e) {
                            this->use(e.i);
                            this->fill(e.i);
                            mine.insert(mine.begin(), e.i);
                        });
                    }
                    else if (this->q->tryPush(Elem(i)))
                    {
                        mine.pop_back();
                    }
                }
            });
        }
        for (uint32_t c = 0; c < nc; ++c)
        {
            uint32_t m = 2 + r.below(4);
            this->threads.push_back([this, c, m] {
                for (uint32_t k = 0; k < m; ++k)
                {
                    this->q->pop().and_then([&](auto& e) {
                        this->use(e.i);
                        this->fill(e.i);
                        this->back[c]->push(e.i);
                    });
                }
            });
        }
    }
};
using Mpmc = MpmcScene<concurrent::MpmcLockFreeQueue<Elem, 2>>;
struct Resize : MpmcScene<concurrent::MpmcResizeableLockFreeQueue<Elem, 3>>
{
    explicit Resize(Rng& r)
        : MpmcScene(r)
    {
        q->setCapacity(1 + r.below(3));
        uint64_t a = 1 + r.below(3), b = 1 + r.below(3);
        threads.push_back([this, a, b] {
            for (auto x : {a, b})
            {
                q->setCapacity(x, [&](const Elem& e) {
                    use(e.i);
                    fill(e.i);
                });
            }
        });
    }
};
struct Loffli : Scene
{
    concurrent::MpmcLoFFLi* l = new concurrent::MpmcLoFFLi;
    uint32_t* mem = new uint32_t[16];
    uint32_t cap;
    explicit Loffli(Rng& r)
        : cap(1 + r.below(3))
    {
        l->init(mem, cap);
        race::range(l, sizeof *l);
        race::range(mem, 16 * sizeof *mem);
        uint32_t n = 2 + r.below(2);
        for (uint32_t t = 0; t < n; ++t)
        {
            std::vector<bool> ops;
            for (uint32_t k = 3 + r.below(5); k > 0; --k)
            {
                ops.push_back(r.chance(1, 2));
            }
            threads.push_back([this, ops] {
                std::vector<uint32_t> mine;
                for (auto pop : ops)
                {
                    if (pop || mine.empty())
                    {
                        uint32_t i = 0;
                        if (l->pop(i))
                        {
                            fill(i);
                            mine.push_back(i);
                        }
                    }
                    else
                    {
                        use(mine[0]);
                        l->push(mine[0]);
                        mine.erase(mine.begin());
                    }
                }
            });
        }
    }
    ~Loffli() override
    {
        delete l;
        delete[] mem;
    }
};
struct CvScene : Scene
{
    popo::ConditionVariableData* d = new popo::ConditionVariableData;
    popo::ConditionListener* l = new popo::ConditionListener(*d);
    explicit CvScene(Rng& r)
    {
        race::range(d, sizeof *d);
        uint32_t n = 1 + r.below(2);
        for (uint32_t t = 0; t < n; ++t)
        {
            threads.push_back([this, t] {
                fill(t);
                popo::ConditionNotifier(*d, t).notify();
            });
        }
        bool timed = r.chance(1, 3);
        threads.push_back([this, n, timed] {
            std::set<uint64_t> seen;
            while (seen.size() < n)
            {
                for (auto i : timed ? l->timedWait(units::Duration::fromSeconds(1000)) : l->wait())
                {
                    if (seen.insert(i).second)
                    {
                        use(i);
                        fill(i);
                    }
                }
            }
        });
    }
    ~CvScene() override
    {
        delete l;
        delete d;
    }
};
struct LockScene : Scene
{
    optional<concurrent::SpinLock> lock;
    optional<concurrent::SpinSemaphore> sem;
    explicit LockScene(Rng& r)
    {
        bool useSem = r.chance(1, 2);
        if (useSem)
        {
            concurrent::SpinSemaphoreBuilder().initialValue(0).create(sem);
        }
        else
        {
            concurrent::SpinLockBuilder().create(lock);
        }
        if (useSem)
        {
            uint32_t n = 1 + r.below(2);
            bool timed = r.chance(1, 3);
            for (uint32_t t = 0; t < n; ++t)
            {
                threads.push_back([this, t] {
                    fill(t);
                    (void)sem->post();
                });
            }
            threads.push_back([this, n, timed] {
                for (uint32_t k = 0; k < n; ++k)
                {
                    if (timed)
                    {
                        (void)sem->timedWait(units::Duration::fromSeconds(1000));
                    }
                    else
                    {
                        (void)sem->wait();
                    }
                }
                for (uint32_t k = 0; k < n; ++k)
                {
                    fill(k);
                }
            });
            return;
        }
        for (uint32_t t = 0; t < 3; ++t)
        {
            bool tr = r.chance(1, 3);
            uint32_t n = 1 + r.below(3);
            threads.push_back([this, tr, n] {
                for (uint32_t k = 0; k < n; ++k)
                {
                    if (tr)
                    {
                        lock->try_lock().and_then([&](auto& x) {
                            if (x == TryLock::LOCK_SUCCEEDED)
                            {
                                fill(0);
                                (void)lock->unlock();
                            }
                        });
                    }
                    else
                    {
                        (void)lock->lock();
                        fill(0);
                        (void)lock->unlock();
                    }
                }
            });
        }
    }
};

// ---------------------------------------------------------------------------------------------- the whole middleware
Sys* g_sys = nullptr;
void shmRanges()
{
    if (FILE* f = fopen("/proc/self/maps", "r"))
    {
        char b[1024];
        while (fgets(b, sizeof b, f))
        {
            unsigned long lo = 0, hi = 0;
            if (strstr(b, "/iox1_") && sscanf(b, "%lx-%lx", &lo, &hi) == 2)
            {
                race::range(reinterpret_cast<void*>(lo), hi - lo);
            }
        }
        fclose(f);
    }
}
struct Payload
{
    uint64_t v[4];
};
struct PortScene : Scene
{
    Sys& s;
    std::vector<std::unique_ptr<popo::Publisher<Payload>>> pubs;
    std::vector<std::unique_ptr<popo::Subscriber<Payload>>> subs;
    explicit PortScene(Rng& r)
        : s(*g_sys)
    {
        shmRanges();
        uint32_t np = 1 + r.chance(1, 3), ns = 1 + r.below(2);
        bool blocking = r.chance(1, 4);
        for (uint32_t p = 0; p < np; ++p)
        {
            popo::PublisherOptions po;
            po.historyCapacity = r.below(3);
            po.subscriberTooSlowPolicy = blocking ? popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
            s.pm->acquirePublisherPortData(service(0), po, procName(int(p)), s.payload, {}).and_then([&](auto& x) {
                Rt::me().next = x;
                pubs.emplace_back(new popo::Publisher<Payload>(service(0), po));
            });
        }
        for (uint32_t q = 0; q < ns; ++q)
        {
            popo::SubscriberOptions so;
            so.queueCapacity = 1 + r.below(3);
            so.historyRequest = r.below(3);
            so.queueFullPolicy = blocking ? popo::QueueFullPolicy::BLOCK_PRODUCER : popo::QueueFullPolicy::DISCARD_OLDEST_DATA;
            s.pm->acquireSubscriberPortData(service(0), so, procName(int(4 + q)), {}).and_then([&](auto& x) {
                Rt::me().next = x;
                subs.emplace_back(new popo::Subscriber<Payload>(service(0), so));
            });
        }
        if (blocking || r.chance(2, 3))
        {
            s.pm->doDiscovery();
        }
        auto left = std::make_shared<uint32_t>(np);
        for (uint32_t p = 0; p < np; ++p)
        {
            uint32_t n = 2 + r.below(3);
            bool drop = r.chance(1, 4), stop = r.chance(1, 5);
            threads.push_back([this, p, n, drop, stop, left] {
                for (uint32_t k = 0; k < n; ++k)
                {
                    pubs[p]->loan().and_then([&](auto& x) {
                        for (auto& y : x->v)
                        {
                            y = k;
                        }
                        if (!drop || k != 1)
                        {
                            x.publish();
                        }
                    });
                    if (stop && k == 1)
                    {
                        pubs[p]->stopOffer();
                        pubs[p]->offer();
                    }
                }
                --*left;
            });
        }
        for (uint32_t q = 0; q < ns; ++q)
        {
            uint32_t n = 2 + r.below(4);
            bool clear = r.chance(1, 5), again = r.chance(1, 5), hold = r.chance(1, 2);
            threads.push_back([this, q, n, clear, again, hold, left, blocking] {
                std::vector<popo::Sample<const Payload>> held;
                auto take = [&] {
                    subs[q]->take().and_then([&](auto& x) {
                        for (auto& y : x->v)
                        {
                            sink = y;
                        }
                        if (hold)
                        {
                            if (!held.empty())
                            {
                                sink = held[0]->v[0];
                                held.clear();
                            }
                            held.push_back(std::move(x));
                        }
                    });
                };
                for (uint32_t k = 0; k < n; ++k)
                {
                    take();
                    if (clear && k == 1)
                    {
                        subs[q]->releaseQueuedData();
                    }
                    if (again && k == 1)
                    {
                        subs[q]->unsubscribe();
                        subs[q]->subscribe();
                    }
                    if (k == 1)
                    {
                        (void)subs[q]->hasMissedData();
                    }
                }
                while (blocking && *left > 0)
                {
                    fib::spin();
                    take();
                }
            });
        }
        if (r.chance(2, 3))
        {
            uint32_t n = 1 + r.below(2);
            threads.push_back([this, n] {
                for (uint32_t k = 0; k < n; ++k)
                {
                    std::lock_guard<std::mutex> g(s.daemon);
                    s.pm->doDiscovery();
                }
            });
        }
    }
    ~PortScene() override
    {
        pubs.clear();
        subs.clear();
        s.pm->doDiscovery();
    }
};
struct RrScene : Scene
{
    Sys& s;
    std::vector<std::unique_ptr<popo::Client<Payload, Payload>>> clients;
    std::unique_ptr<popo::Server<Payload, Payload>> server;
    explicit RrScene(Rng& r)
        : s(*g_sys)
    {
        shmRanges();
        uint32_t nc = 1 + r.below(2);
        popo::ServerOptions so;
        so.requestQueueCapacity = 2;
        s.pm->acquireServerPortData(service(1), so, procName(0), s.payload, {}).and_then([&](auto& x) {
            Rt::me().next = x;
            server.reset(new popo::Server<Payload, Payload>(service(1), so));
        });
        for (uint32_t c = 0; c < nc; ++c)
        {
            popo::ClientOptions co;
            co.responseQueueCapacity = 1 + r.below(2);
            s.pm->acquireClientPortData(service(1), co, procName(int(1 + c)), s.payload, {}).and_then([&](auto& x) {
                Rt::me().next = x;
                clients.emplace_back(new popo::Client<Payload, Payload>(service(1), co));
            });
        }
        if (r.chance(4, 5))
        {
            s.pm->doDiscovery();
        }
        for (uint32_t c = 0; c < nc; ++c)
        {
            uint32_t n = 2 + r.below(3);
            threads.push_back([this, c, n] {
                for (uint32_t k = 0; k < n; ++k)
                {
                    clients[c]->loan().and_then([&](auto& x) {
                        x->v[0] = k;
                        (void)x.send();
                    });
                    clients[c]->take().and_then([&](auto& x) { sink = x->v[0]; });
                }
            });
        }
        uint32_t n = 2 + r.below(4);
        threads.push_back([this, n] {
            for (uint32_t k = 0; k < n; ++k)
            {
                server->take().and_then([&](auto& q) {
                    sink = q->v[0];
                    server->loan(q).and_then([&](auto& a) {
                        a->v[0] = q->v[0];
                        (void)a.send();
                    });
                });
            }
        });
        if (r.chance(1, 2))
        {
            threads.push_back([this] {
                std::lock_guard<std::mutex> g(s.daemon);
                s.pm->doDiscovery();
            });
        }
    }
    ~RrScene() override
    {
        clients.clear();
        server.reset();
        s.pm->doDiscovery();
    }
};
// WaitSet: data written before the trigger
struct TriggerScene : Scene
{
    Sys& s;
    popo::WaitSet<4>* ws{nullptr};
    std::vector<std::unique_ptr<popo::UserTrigger>> trig;
    explicit TriggerScene(Rng& r)
        : s(*g_sys)
    {
        shmRanges();
        s.pm->acquireConditionVariableData(procName(0)).and_then([&](auto& x) {
            Rt::me().next = x;
            ws = new popo::WaitSet<4>();
        });
        uint32_t n = 1 + r.below(2);
        for (uint32_t k = 0; k < n; ++k)
        {
            trig.emplace_back(new popo::UserTrigger);
            (void)ws->attachEvent(*trig.back(), k);
            threads.push_back([this, k] {
                fill(k);
                trig[k]->trigger();
            });
        }
        threads.push_back([this, n] {
            std::set<uint64_t> seen;
            while (seen.size() < n)
            {
                for (auto i : ws->wait())
                {
                    if (seen.insert(i->getNotificationId()).second)
                    {
                        use(i->getNotificationId());
                        fill(i->getNotificationId());
                    }
                }
            }
        });
    }
    ~TriggerScene() override
    {
        trig.clear();
        delete ws;
        s.pm->doDiscovery();
    }
};

// Listener: the callback sees what was written before the trigger; after detaching, the data is the caller's again
struct ListenerScene : Scene
{
    Sys& s;
    popo::Listener* l{nullptr};
    std::vector<std::unique_ptr<popo::UserTrigger>> trig;
    struct Context
    {
        ListenerScene* x;
        uint64_t k;
        uint64_t calls{0};
    };
    std::vector<std::unique_ptr<Context>> ctx;
    static void onEvent(popo::UserTrigger*, Context* c)
    {
        c->x->use(c->k);
        c->x->fill(4 + c->k);
        c->calls++;
    }
    explicit ListenerScene(Rng& r)
        : s(*g_sys)
    {
        shmRanges();
        s.pm->acquireConditionVariableData(procName(0)).and_then([&](auto& x) {
            Rt::me().next = x;
            l = new popo::Listener();
        });
        race::range(l, sizeof *l);
        uint32_t n = 1 + r.below(2);
        for (uint32_t k = 0; k < n; ++k)
        {
            trig.emplace_back(new popo::UserTrigger);
            ctx.emplace_back(new Context{this, k});
            (void)l->attachEvent(*trig.back(), popo::createNotificationCallback(onEvent, *ctx.back()));
            bool detach = r.chance(1, 2), again = r.chance(1, 2);
            threads.push_back([this, k, detach, again] {
                fill(k);
                trig[k]->trigger();
                if (detach)
                {
                    l->detachEvent(*trig[k]);
                    fill(4 + k);
                    fill(k);
                    if (again)
                    {
                        (void)l->attachEvent(*trig[k], popo::createNotificationCallback(onEvent, *ctx[k]));
                        trig[k]->trigger();
                    }
                }
            });
        }
    }
    void tail() override
    {
        delete l;
        for (uint64_t k = 0; k < N; ++k)
        {
            fill(k);
        }
    }
    ~ListenerScene() override
    {
        trig.clear();
        s.pm->doDiscovery();
    }
};

fib::Result runScene(const std::function<Scene*(Rng&)>& make, uint64_t pseed, fib::Options o, Collector& c, const std::string& src)
{
    race::reset();
    Hist h;
    h.comment = src;
    Scene* x = nullptr;
    bool start = false, complete = false;
    std::vector<fib::Fn> fns;
    constexpr int MAX = 5;
    fns.push_back([&] {
        {
            fib::Quiet q;
            Rng r(pseed);
            x = make(r);
        }
        race::start();
        start = true;
        fib::block([&] {
            for (int i = 1; i <= MAX; ++i)
            {
                if (!fib::finished(i))
                {
                    return false;
                }
            }
            return true;
        });
        race::join();
        x->tail();
        race::stop();
        complete = true;
        fib::Quiet q;
        delete x;
    });
    for (int i = 0; i < MAX; ++i)
    {
        fns.push_back([&, i] {
            fib::block([&] { return start; });
            if (size_t(i) < x->threads.size())
            {
                x->threads[size_t(i)]();
            }
        });
    }
    fib::g_onAbandon = [&](int, bool) {};
    auto r = fib::run(fns, o);
    fib::g_onAbandon = nullptr;
    race::stop();
    c.steps += r.steps;
    c.schedules.insert(r.hash);
    if (!complete)
    {
        // not a matter of visibility: other checks judge it
        ++c.stuck;
        fib::forgetLocks();
        if (g_sys)
        {
            g_sys->forget();
            g_sys = new Sys(12);
        }
        return r;
    }
    h.ev = race::events();
    long nl = 0, nx = 0;
    for (auto& e : h.ev)
    {
        auto l = e.find("\"l\":");
        if (l != std::string::npos)
        {
            nl = std::max(nl, atol(e.c_str() + l + 4));
        }
        auto k = e.find("\"x\":[");
        if (k != std::string::npos)
        {
            const char* p = e.c_str() + k + 5;
            while (*p && *p != ']')
            {
                char* q = nullptr;
                nx = std::max(nx, strtol(p, &q, 10));
                p = *q == ',' ? q + 1 : q;
            }
        }
    }
    h.cfg = fmt("{\"n\":%d,\"l\":%ld,\"x\":%ld}", race::g_threads, nl, nx);
    if (getenv("HB_WHERE"))
    {
        for (long k = 1; k <= nx; ++k)
        {
            fprintf(stderr, "place %ld:%s\n", k, race::where(size_t(k)).c_str());
        }
    }
    c.add(h, false);
    return r;
}

template <typename T>
std::function<Scene*(Rng&)> mk()
{
    return [](Rng& r) { return new T(r); };
}
int main(int argc, char** argv)
{
    if (argc < 7)
    {
        fprintf(stderr, "hb SCENE SEED PROGRAMS SCHEDULES MAXHIST OUT\n");
        return 2;
    }
    std::string mode = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    int programs = atoi(argv[3]), schedules = atoi(argv[4]);
    Collector c{size_t(atoi(argv[5]))};
    installErrorHandler();
    std::map<std::string, std::function<Scene*(Rng&)>> all{{"fifo", mk<FifoScene>()},
                                                           {"sofi", mk<SofiScene>()},
                                                           {"mpmc", mk<Mpmc>()},
                                                           {"resize", mk<Resize>()},
                                                           {"loffli", mk<Loffli>()},
                                                           {"cv", mk<CvScene>()},
                                                           {"lock", mk<LockScene>()},
                                                           {"ports", mk<PortScene>()},
                                                           {"rr", mk<RrScene>()},
                                                           {"trigger", mk<TriggerScene>()},
                                                           {"listener", mk<ListenerScene>()}};
    auto make = all.at(mode);
    if (mode == "ports" || mode == "rr" || mode == "trigger" || mode == "listener")
    {
        claimDomains();
        removeLeftovers();
        Rt::install();
        g_sys = new Sys(12);
    }
    Rng r(Collector::hash(mode) ^ seed * 0x9E37);
    for (int i = 0; i < programs; ++i)
    {
        auto ps = r.next();
        fib::Options s;
        s.strategy = fib::Strategy::SERIAL;
        s.seed = 1;
        s.maxSteps = 60000;
        auto src = fmt("hb %s seed=%lu program=%d", mode.c_str(), seed, i);
        auto r0 = runScene(make, ps, s, c, src + " serial");
        for (int k = 0; k < schedules; ++k)
        {
            auto o = randomOptions(r, 60000, uint32_t(std::min<uint64_t>(r0.steps, 600)));
            runScene(make, ps, o, c, src + fmt(" sched=%d:%lu", k, o.seed));
        }
    }
    if (g_sys)
    {
        g_sys->destroy();
        removeLeftovers();
    }
    c.write(argv[6]);
    return 0;
}
