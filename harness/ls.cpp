// Listener: its own thread runs callbacks for attached events
#include "origins.hpp"
using namespace org;
namespace
{
struct Ls;
Ls* g_ls = nullptr;
struct Ctx
{
    long id;
    long k;
    long action; // what the callback does: 0 nothing, 1 detaches itself, 2 takes
};
void called(const void* o, Ctx* c);
template <typename T>
void onEvent(T* o, Ctx* c)
{
    called(o, c);
}
int g_alive = 0;
struct Ls : Obj
{
    World w;
    popo::ConditionVariableData* cvd{nullptr};
    popo::Listener* l{nullptr};
    std::vector<std::unique_ptr<Ctx>> ctx;
    long nextId{1};
    std::set<long> gone;
    std::map<int, Op> cur;
    long selfDetaching{-1};
    std::string stuckTag() override
    {
        for (auto& x : cur)
        {
            if ((x.second.o == "detach" || x.second.o == "kill") && x.second.a[0] == selfDetaching)
            {
                return " detach-in-callback";
            }
        }
        return "";
    }
    explicit Ls(const std::set<long>& u)
        : w(u)
    {
        g_ls = this;
        theSys()->pm->acquireConditionVariableData(procName(1)).and_then([&](auto& x) { cvd = x; });
        Rt::me().next = cvd;
        l = new popo::Listener();
        ++g_alive;
    }
    ~Ls() override
    {
        g_ls = nullptr;
        delete l;
        --g_alive;
    }
    bool prepare(int, Op& op) override
    {
        if (!l)
        {
            return false;
        }
        if (op.o == "attach")
        {
            if (gone.count(op.a[0]))
            {
                return false;
            }
            op.a = {op.a[0], nextId++, op.a[1]};
        }
        else if (!op.a.empty() && gone.count(op.a[0]) != (op.o == "renew"))
        {
            return false;
        }
        return true;
    }
    V exec(int t, const Op& op) override
    {
        {
            fib::Quiet q;
            cur[t] = op;
        }
        auto r = exec2(op);
        fib::Quiet q;
        cur.erase(t);
        return r;
    }
    V exec2(const Op& op)
    {
        auto k = op.a.empty() ? 0 : op.a[0];
        if (op.o == "fire")
        {
            w.fire(k);
            return {};
        }
        if (op.o == "size")
        {
            return V{long(l->size())};
        }
        if (op.o == "idle")
        {
            fib::blockUntil([] { return false; }, fib::virtualNs() + 1000000000ull);
            return {};
        }
        if (op.o == "kill")
        {
            w.kill(k);
            gone.insert(k);
            return {};
        }
        if (op.o == "renew")
        {
            fib::Quiet q;
            w.renew(k);
            gone.erase(k);
            return {};
        }
        if (op.o == "destroyL")
        {
            delete l;
            l = nullptr;
            return {};
        }
        if (op.o == "attach")
        {
            fib::setQuiet(true);
            ctx.emplace_back(new Ctx{op.a[1], k, op.a[2]});
            auto& c = *ctx.back();
            fib::setQuiet(false);
            long r = 1;
            auto answer = [&](auto x) {
                r = x.has_value() ? 1 : x.error() == popo::ListenerError::LISTENER_FULL ? -1 : x.error() == popo::ListenerError::EVENT_ALREADY_ATTACHED ? -2 : -9;
            };
            w.with(k, [&](auto& o, auto... e) { attach(c, answer, o, e...); });
            return V{r};
        }
        w.with(k, [&](auto& o, auto... e) { detach(o, e...); });
        return {};
    }
    template <typename A, typename T, typename E, typename S>
    void attach(Ctx& c, A answer, T& o, E e, S)
    {
        answer(l->attachEvent(o, e, popo::createNotificationCallback(onEvent<T>, c)));
    }
    template <typename A, typename T>
    void attach(Ctx& c, A answer, T& o)
    {
        answer(l->attachEvent(o, popo::createNotificationCallback(onEvent<T>, c)));
    }
    template <typename T, typename E, typename S>
    void detach(T& o, E e, S)
    {
        l->detachEvent(o, e);
    }
    template <typename T>
    void detach(T& o)
    {
        l->detachEvent(o);
    }
};
void called(const void* o, Ctx* c)
{
    fib::setQuiet(true);
    long id = g_ls && o == g_ls->w.ptr(c->k) ? c->id : -c->id;
    g_ls->h->call(90, "cb", {c->k, id});
    fib::setQuiet(false);
    fib::point();
    if (c->action == 1)
    {
        g_ls->h->call(91, "detachSelf", {c->k});
        g_ls->selfDetaching = c->k;
        g_ls->w.with(c->k, [&](auto& x, auto... e) { g_ls->detach(x, e...); });
        g_ls->selfDetaching = -1;
        g_ls->h->ret(91, "detachSelf", {});
    }
    else if (c->action == 2 && c->k >= 2)
    {
        g_ls->w.take(c->k);
    }
    fib::point();
    fib::setQuiet(true);
    g_ls->h->ret(90, "cb", {});
    fib::setQuiet(false);
}
} // namespace

int main(int argc, char** argv)
{
    if (argc < 7)
    {
        return 2;
    }
    std::string mode = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    int programs = atoi(argv[3]), schedules = atoi(argv[4]);
    Collector c{size_t(atoi(argv[5]))};
    installErrorHandler();
    claimDomains();
    Rt::install();
    Rng r(seed);
    std::set<long> used;
    auto gen = [&](Rng& g) {
        Program p;
        used.clear();
        bool seq = mode == "seq";
        uint32_t n = seq ? 3 + g.below(4) : 1 + g.below(3);
        while (used.size() < n)
        {
            used.insert(long(g.below(6)));
        }
        V u(used.begin(), used.end());
        auto any = [&] { return u[g.below(uint32_t(u.size()))]; };
        auto attach = [&](long k) { return Op{"attach", {k, long(g.below(3)) * (seq || g.chance(1, 3))}}; };
        p.cfg = fmt("{\"cap\":%lu,\"org\":%s}", popo::Listener::capacity(), jseq(u).c_str());
        if (seq)
        {
            // one thread and the Listener's own
            p.threads.emplace_back();
            for (uint32_t i = 10 + g.below(15); i > 0; --i)
            {
                auto k = any();
                auto z = g.below(100);
                p.threads[0].push_back(z < 32   ? attach(k)
                                       : z < 45 ? Op{"detach", {k}}
                                       : z < 80 ? Op{"fire", {k}}
                                       : z < 84 ? Op{"size", {}}
                                       : z < 88 ? Op{"kill", {k}}
                                       : z < 93 ? Op{"renew", {k}}
                                       : z < 94 ? Op{"destroyL", {}}
                                                : Op{"idle", {}});
            }
            p.tail = {{"idle", {}}, {"size", {}}, {"destroyL", {}}};
            return p;
        }
        for (auto k : u)
        {
            if (g.chance(4, 5))
            {
                p.prelude.push_back(attach(k));
            }
        }
        // attaching and detaching from one thread, firing from others
        p.threads.emplace_back();
        for (uint32_t i = 1 + g.below(4); i > 0; --i)
        {
            auto k = any();
            p.threads[0].push_back(g.chance(1, 2) ? attach(k) : Op{"detach", {k}});
        }
        for (size_t j = 0; j < u.size(); ++j)
        {
            if (j < 2)
            {
                p.threads.emplace_back();
            }
            auto& th = p.threads[1 + j % 2];
            for (uint32_t i = 1 + g.below(3); i > 0 && th.size() < 4; --i)
            {
                th.insert(th.begin() + long(g.below(uint32_t(th.size()) + 1)), {"fire", {u[j]}});
            }
        }
        p.tail = {{"idle", {}}, {"size", {}}, {"fire", {u[0]}}, {"idle", {}}, {"destroyL", {}}};
        return p;
    };
    beforeRun() = [] {
        renewSys(g_alive > 0);
        g_alive = 0;
    };
    explore(c, "ls " + mode, r, seed, programs, schedules, false, gen, [&](const Program&) { return new Ls(used); });
    if (theSys())
    {
        g_alive ? theSys()->forget() : theSys()->destroy();
    }
    removeLeftovers();
    c.write(argv[6]);
    return 0;
}
