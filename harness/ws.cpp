// WaitSet: attachments, notifications from other threads, waiting
#include "origins.hpp"
using namespace org;
namespace
{
struct Ctx
{
    long id;
};
std::vector<std::pair<const void*, long>> g_called;
int g_alive = 0;
template <typename T>
void onEvent(T* o, Ctx* c)
{
    g_called.emplace_back(o, c->id);
}
struct Ws : Obj
{
    static constexpr uint64_t CAP = 3;
    World w;
    popo::ConditionVariableData* cvd{nullptr};
    popo::WaitSet<CAP>* ws{nullptr};
    std::map<long, long> originOf; // attachment id -> origin
    std::map<long, std::unique_ptr<Ctx>> ctx;
    long nextId{1};
    std::set<long> gone;
    explicit Ws(const std::set<long>& u)
        : w(u)
    {
        theSys()->pm->acquireConditionVariableData(procName(1)).and_then([&](auto& x) { cvd = x; });
        Rt::me().next = cvd;
        ws = new popo::WaitSet<CAP>();
        ++g_alive;
    }
    ~Ws() override
    {
        fib::Quiet q;
        delete ws;
        ws = nullptr;
        --g_alive;
    }
    bool prepare(int, Op& op) override
    {
        if (op.o == "attachE" || op.o == "attachS")
        {
            if (gone.count(op.a[0]))
            {
                return false;
            }
            op.a = {op.a[0], nextId++};
        }
        else if (!op.a.empty() && op.o != "timedWait" && gone.count(op.a[0]) != (op.o == "renew"))
        {
            return false;
        }
        return true;
    }
    V exec(int, const Op& op) override
    {
        auto k = op.a.empty() ? 0 : op.a[0];
        if (op.o == "fire")
        {
            w.fire(k);
            return {};
        }
        if (op.o == "take")
        {
            return V{w.take(k)};
        }
        if (op.o == "size")
        {
            return V{long(ws->size())};
        }
        if (op.o == "mark")
        {
            ws->markForDestruction();
            return {};
        }
        if (op.o == "kill")
        {
            w.kill(k);
            gone.insert(k);
            return {};
        }
        if (op.o == "renew")
        {
            fib::Quiet q;
            w.renew(k);
            gone.erase(k);
            return {};
        }
        if (op.o == "attachE" || op.o == "attachS")
        {
            long id = op.a[1];
            ctx[id].reset(new Ctx{id});
            originOf[id] = k;
            long r = 1;
            auto answer = [&](auto x) {
                r = x.has_value() ? 1 : x.error() == popo::WaitSetError::WAIT_SET_FULL ? -1 : x.error() == popo::WaitSetError::ALREADY_ATTACHED ? -2 : -9;
            };
            bool st = op.o == "attachS";
            w.with(k, [&](auto& o, auto... e) { attach(st, id, answer, o, e...); });
            return V{r};
        }
        if (op.o == "detachE" || op.o == "detachS")
        {
            bool st = op.o == "detachS";
            w.with(k, [&](auto& o, auto... e) { detach(st, o, e...); });
            return {};
        }
        auto t0 = fib::virtualNs();
        auto v = op.o == "wait" ? ws->wait() : ws->timedWait(units::Duration::fromMilliseconds(uint64_t(op.a[0])));
        fib::Quiet q;
        V ids;
        for (auto& n : v)
        {
            long id = long(n->getNotificationId());
            auto it = originOf.find(id);
            g_called.clear();
            (*n)();
            bool good = it != originOf.end() && !gone.count(it->second);
            if (good)
            {
                w.with(it->second, [&](auto& o, auto...) {
                    using T = std::decay_t<decltype(o)>;
                    good = n->doesOriginateFrom(&o) && n->template getOrigin<T>() == &o;
                });
                good = good && g_called.size() == 1 && g_called[0].first == w.ptr(it->second) && g_called[0].second == id;
            }
            ids.push_back(good ? id : -id);
        }
        std::sort(ids.begin(), ids.end());
        ids.insert(ids.begin(), op.o != "wait" && fib::virtualNs() >= t0 + uint64_t(op.a[0]) * 1000000ull ? 1 : 0);
        return ids;
    }
    template <typename A, typename T, typename E, typename S>
    void attach(bool st, long id, A answer, T& o, E e, S s)
    {
        auto cb = popo::createNotificationCallback(onEvent<T>, *ctx[id]);
        st ? answer(ws->attachState(o, s, uint64_t(id), cb)) : answer(ws->attachEvent(o, e, uint64_t(id), cb));
    }
    template <typename A, typename T>
    void attach(bool, long id, A answer, T& o)
    {
        answer(ws->attachEvent(o, uint64_t(id), popo::createNotificationCallback(onEvent<T>, *ctx[id])));
    }
    template <typename T, typename E, typename S>
    void detach(bool st, T& o, E e, S s)
    {
        st ? ws->detachState(o, s) : ws->detachEvent(o, e);
    }
    template <typename T>
    void detach(bool, T& o)
    {
        ws->detachEvent(o);
    }
};
std::string cfgOf(const std::set<long>& u)
{
    return fmt("{\"cap\":%lu,\"qcap\":3,\"org\":%s}", Ws::CAP, jseq(V(u.begin(), u.end())).c_str());
}
} // namespace

int main(int argc, char** argv)
{
    if (argc < 7)
    {
        return 2;
    }
    std::string mode = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    int programs = atoi(argv[3]), schedules = atoi(argv[4]);
    Collector c{size_t(atoi(argv[5]))};
    installErrorHandler();
    claimDomains();
    Rt::install();
    Rng r(seed);
    std::set<long> used;
    auto gen = [&](Rng& g) {
        Program p;
        used.clear();
        bool seq = mode == "seq";
        std::vector<long> all{0, 1, 2, 3, 4, 5};
        uint32_t n = seq ? 3 + g.below(3) : 1 + g.below(3);
        while (used.size() < n)
        {
            used.insert(long(g.below(6)));
        }
        V u(used.begin(), used.end());
        auto any = [&] { return u[g.below(uint32_t(u.size()))]; };
        auto attach = [&](long k) { return Op{k >= 2 && g.chance(1, 2) ? "attachS" : "attachE", {k}}; };
        p.cfg = cfgOf(used);
        if (seq)
        {
            for (uint32_t i = 20 + g.below(40); i > 0; --i)
            {
                auto k = any();
                auto z = g.below(100);
                p.prelude.push_back(z < 25   ? attach(k)
                                    : z < 37 ? Op{g.chance(1, 2) ? "detachE" : "detachS", {k}}
                                    : z < 62 ? Op{"fire", {k}}
                                    : z < 72 ? (k >= 2 ? Op{"take", {k}} : Op{"size", {}})
                                    : z < 75 ? Op{"kill", {k}}
                                    : z < 80 ? Op{"renew", {k}}
                                    : z < 81 && i < 4 ? Op{"mark", {}}
                                                      : Op{"timedWait", {10}});
            }
            return p;
        }
        for (auto k : u)
        {
            if (g.chance(4, 5))
            {
                p.prelude.push_back(attach(k));
            }
            if (g.chance(1, 3))
            {
                p.prelude.push_back({"fire", {k}});
            }
        }
        p.threads.emplace_back();
        for (uint32_t i = 2 + g.below(4); i > 0; --i)
        {
            auto k = any();
            auto z = g.below(20);
            p.threads[0].push_back(z < 6    ? Op{"wait", {}}
                                   : z < 13 ? Op{"timedWait", {10}}
                                   : z < 15 ? attach(k)
                                   : z < 17 ? Op{g.chance(1, 2) ? "detachE" : "detachS", {k}}
                                            : k >= 2 ? Op{"take", {k}} : Op{"timedWait", {10}});
        }
        // an origin is fired by one thread; two threads at most (three would make judging slow)
        for (size_t j = 0; j < u.size(); ++j)
        {
            if (j < 2)
            {
                p.threads.emplace_back();
            }
            auto& th = p.threads[1 + j % 2];
            for (uint32_t i = 1 + g.below(3); i > 0 && th.size() < 4; --i)
            {
                th.insert(th.begin() + long(g.below(uint32_t(th.size()) + 1)), {"fire", {u[j]}});
            }
        }
        if (u.size() == 1 && g.chance(1, 3))
        {
            p.threads.push_back({{"mark", {}}});
        }
        for (int i = 0; i < 8; ++i)
        {
            p.rescue.push_back({"fire", {u[size_t(i) % u.size()]}});
        }
        p.rescue.push_back({"mark", {}});
        p.tail = {{"size", {}}, {"timedWait", {10}}, {"timedWait", {10}}, {"fire", {u[0]}}, {"timedWait", {10}}};
        return p;
    };
    beforeRun() = [] {
        renewSys(g_alive > 0);
        g_alive = 0;
    };
    explore(c, "ws " + mode, r, seed, programs, schedules, false, gen, [&](const Program&) {
        return new Ws(used);
    });
    if (theSys())
    {
        g_alive ? theSys()->forget() : theSys()->destroy();
    }
    removeLeftovers();
    c.write(argv[6]);
    return 0;
}
