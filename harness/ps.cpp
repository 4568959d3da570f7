// publish/subscribe programs on the real daemon core and the real user API; records histories for PubSub.tla
#include "sys.hpp"
using namespace iox;
using namespace sys;

struct Data
{
    uint64_t m{0};
    uint64_t fill[7]{};
    void set(uint64_t x)
    {
        m = x;
        for (uint64_t i = 0; i < 7; ++i)
        {
            fill[i] = x * 1000003 + i;
        }
    }
    long get() const
    {
        for (uint64_t i = 0; i < 7; ++i)
        {
            if (fill[i] != m * 1000003 + i)
            {
                return -999;
            }
        }
        return long(m);
    }
};
using Pub = popo::Publisher<Data>;
using Sub = popo::Subscriber<Data>;
struct PubX
{
    std::unique_ptr<Pub> p;
    std::vector<std::pair<long, popo::Sample<Data>>> loans;
    int proc;
};
struct SubX
{
    std::unique_ptr<Sub> s;
    std::vector<std::pair<long, popo::Sample<const Data>>> held;
    int proc;
};
struct Op
{
    std::string o;
    std::vector<long> a;
};
struct Program
{
    uint32_t chunks{12};
    std::vector<Op> prelude;
    std::vector<std::vector<Op>> workers;
    std::vector<Op> post;
    bool tail{true};
    int killFiber{-1};
    int64_t killAt{-1};
};

Sys* g_sys = nullptr;
uint32_t g_since = 0;
double g_maxWeight = 200;

struct Exec
{
    Sys& s;
    Hist h;
    std::map<long, PubX> pubs;
    std::map<long, SubX> subs;
    std::vector<std::map<long, PubX>> graveP; // of crashed processes: never destructed
    long nextM{1};
    uint64_t lastEvent{0};
    std::vector<std::string> cur; // operation per thread
    bool bad{false}, lockHeld{false};
    Rng rng;
    Exec(Sys& x, uint64_t seed)
        : s(x)
        , cur(16)
        , rng(seed)
    {
    }
    std::map<const void*, int> blocks;
    int block(const void* p)
    {
        return blocks.emplace(p, int(blocks.size())).first->second;
    }
    // how many interleavings the judge has to consider: executions that are too expensive are not kept
    double weight{0};
    void weigh()
    {
        double w = 1;
        int n = 0;
        for (auto& o : cur)
        {
            n += o.empty() ? 0 : 1;
            w *= o.empty() ? 1 : o == "discover" || o == "cleanup" || o == "unblock" ? 8 : o == "createSub" || o == "createPub" || o == "send" || o == "clearQ" || o == "subscribe" ? 4 : 2;
        }
        weight += n > 1 ? w : 0;
    }
    void call(int t, const std::string& o, const std::vector<long>& a)
    {
        h.call(t, o, a);
        cur[size_t(t)] = o;
        weigh();
        lastEvent = fib::now();
    }
    void ret(int t, const std::string& o, const std::vector<long>& a)
    {
        h.ret(t, o, a);
        cur[size_t(t)] = "";
        weigh();
        lastEvent = fib::now();
    }

    void run(int t, const Op& op)
    {
        auto id = op.a.empty() ? 0 : op.a[0];
        auto& o = op.o;
        if (o == "createPub")
        {
            if (pubs.count(id))
            {
                return;
            }
            call(t, o, op.a);
            popo::PublisherOptions po;
            po.historyCapacity = uint64_t(op.a[3]);
            po.offerOnCreate = op.a[4] != 0;
            po.subscriberTooSlowPolicy = op.a[5] ? popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER
                                                 : popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
            void* port = nullptr;
            {
                std::lock_guard<std::mutex> g(s.daemon);
                s.pm->acquirePublisherPortData(service(int(op.a[2])), po, procName(int(op.a[1])), s.payload, {})
                    .and_then([&](auto& x) { port = x; });
            }
            if (port)
            {
                fib::Quiet q;
                Rt::me().next = port;
                auto& x = pubs[id];
                x.proc = int(op.a[1]);
                x.p.reset(new Pub(service(int(op.a[2])), po));
            }
            ret(t, o, {port ? 1 : 0});
        }
        else if (o == "createSub")
        {
            if (subs.count(id))
            {
                return;
            }
            call(t, o, op.a);
            popo::SubscriberOptions so;
            so.queueCapacity = uint64_t(op.a[3]);
            so.historyRequest = uint64_t(op.a[4]);
            so.requiresPublisherHistorySupport = op.a[5] != 0;
            so.queueFullPolicy =
                op.a[6] ? popo::QueueFullPolicy::BLOCK_PRODUCER : popo::QueueFullPolicy::DISCARD_OLDEST_DATA;
            so.subscribeOnCreate = op.a[7] != 0;
            void* port = nullptr;
            {
                std::lock_guard<std::mutex> g(s.daemon);
                s.pm->acquireSubscriberPortData(service(int(op.a[2])), so, procName(int(op.a[1])), {})
                    .and_then([&](auto& x) { port = x; });
            }
            if (port)
            {
                fib::Quiet q;
                Rt::me().next = port;
                auto& x = subs[id];
                x.proc = int(op.a[1]);
                x.s.reset(new Sub(service(int(op.a[2])), so));
            }
            ret(t, o, {port ? 1 : 0});
        }
        else if (o == "discover" || o == "unblock" || o == "cleanup")
        {
            call(t, o, op.a);
            {
                std::lock_guard<std::mutex> g(s.daemon);
                if (o == "discover")
                {
                    s.pm->doDiscovery();
                }
                else if (o == "unblock")
                {
                    s.pm->unblockProcessShutdown(procName(int(id)));
                }
                else
                {
                    s.pm->deletePortsOfProcess(procName(int(id)));
                }
            }
            ret(t, o, {});
        }
        else if (o == "used")
        {
            call(t, o, {});
            long u = long(s.used());
            ret(t, o, {u});
        }
        else if (o == "loan" || o == "send" || o == "unloan" || o == "offer" || o == "stopOffer" || o == "isOffered"
                 || o == "hasSubs" || o == "destroyPub")
        {
            auto it = pubs.find(id);
            if (it == pubs.end())
            {
                return;
            }
            auto& x = it->second;
            if (o == "loan")
            {
                auto m = nextM++;
                call(t, o, {id, m, -1});
                auto where = h.ev.size() - 1;
                auto r = x.p->loan();
                if (r.has_error())
                {
                    ret(t,
                        o,
                        {0,
                         r.error() == popo::AllocationError::RUNNING_OUT_OF_CHUNKS              ? 1
                         : r.error() == popo::AllocationError::TOO_MANY_CHUNKS_ALLOCATED_IN_PARALLEL ? 2
                                                                                                : 9});
                }
                else
                {
                    fib::Quiet q;
                    auto b = block(r->getChunkHeader());
                    r->operator->()->set(uint64_t(m));
                    x.loans.emplace_back(m, std::move(r.value()));
                    h.ev[where] = fmt("{\"k\":\"c\",\"t\":%d,\"o\":\"loan\",\"a\":[%ld,%ld,%d]}", t, id, m, b);
                    ret(t, o, {1, b});
                }
            }
            else if (o == "send" || o == "unloan")
            {
                if (x.loans.empty())
                {
                    return;
                }
                size_t k = op.a.size() > 1 ? size_t(op.a[1]) % x.loans.size() : 0;
                auto m = x.loans[k].first;
                auto sample = std::move(x.loans[k].second);
                x.loans.erase(x.loans.begin() + long(k));
                call(t, o, {id, m});
                if (sample->get() != m)
                {
                    h.add("{\"k\":\"corrupted loan\"}");
                    bad = true;
                }
                if (o == "send")
                {
                    sample.publish();
                }
                else
                {
                    auto drop = std::move(sample);
                }
                ret(t, o, {});
            }
            else if (o == "offer" || o == "stopOffer")
            {
                call(t, o, {id});
                o == "offer" ? x.p->offer() : x.p->stopOffer();
                ret(t, o, {});
            }
            else if (o == "isOffered" || o == "hasSubs")
            {
                call(t, o, {id});
                bool r = o == "isOffered" ? x.p->isOffered() : x.p->hasSubscribers();
                ret(t, o, {r ? 1 : 0});
            }
            else
            {
                while (!x.loans.empty())
                {
                    run(t, {"unloan", {id}});
                }
                call(t, o, {id});
                x.p.reset();
                pubs.erase(id);
                ret(t, o, {});
            }
        }
        else
        {
            auto it = subs.find(id);
            if (it == subs.end())
            {
                return;
            }
            auto& x = it->second;
            if (o == "take")
            {
                call(t, o, {id});
                auto r = x.s->take();
                if (r.has_error())
                {
                    ret(t,
                        o,
                        {r.error() == popo::ChunkReceiveResult::NO_CHUNK_AVAILABLE           ? 0
                         : r.error() == popo::ChunkReceiveResult::TOO_MANY_CHUNKS_HELD_IN_PARALLEL ? -1
                                                                                            : -9});
                }
                else
                {
                    fib::Quiet q;
                    long m = r->operator->()->get();
                    long seq = long(r->getChunkHeader()->sequenceNumber());
                    x.held.emplace_back(m, std::move(r.value()));
                    ret(t, o, {m, seq});
                }
            }
            else if (o == "rel")
            {
                if (x.held.empty())
                {
                    return;
                }
                size_t k = op.a.size() > 1 ? size_t(op.a[1]) % x.held.size() : 0;
                auto m = x.held[k].first;
                auto sample = std::move(x.held[k].second);
                x.held.erase(x.held.begin() + long(k));
                call(t, o, {id, m});
                long now = sample->get();
                {
                    auto drop = std::move(sample);
                }
                ret(t, o, {now});
            }
            else if (o == "subscribe" || o == "unsubscribe" || o == "clearQ")
            {
                call(t, o, {id});
                o == "subscribe" ? x.s->subscribe() : o == "unsubscribe" ? x.s->unsubscribe() : x.s->releaseQueuedData();
                ret(t, o, {});
            }
            else if (o == "missed" || o == "hasData" || o == "subState")
            {
                call(t, o, {id});
                bool r = o == "missed"    ? x.s->hasMissedData()
                         : o == "hasData" ? x.s->hasData()
                                          : x.s->getSubscriptionState() == SubscribeState::SUBSCRIBED;
                ret(t, o, {r ? 1 : 0});
            }
            else if (o == "destroySub")
            {
                while (!x.held.empty())
                {
                    run(t, {"rel", {id}});
                }
                call(t, o, {id});
                x.s.reset();
                subs.erase(id);
                ret(t, o, {});
            }
            else
            {
                fprintf(stderr, "unknown operation %s\n", o.c_str());
                exit(2);
            }
        }
    }
    // objects of a crashed process stay as they are: no destructors
    void bury(int proc)
    {
        for (auto it = pubs.begin(); it != pubs.end();)
        {
            if (it->second.proc == proc)
            {
                new PubX(std::move(it->second));
                it = pubs.erase(it);
            }
            else
            {
                ++it;
            }
        }
        for (auto it = subs.begin(); it != subs.end();)
        {
            if (it->second.proc == proc)
            {
                new SubX(std::move(it->second));
                it = subs.erase(it);
            }
            else
            {
                ++it;
            }
        }
    }
    void buryAll()
    {
        for (int p = 0; p < 16; ++p)
        {
            bury(p);
        }
    }
};

// returns the fiber result
fib::Result runProgram(const Program& p, fib::Options o, Collector& c, const std::string& src)
{
    if (g_sys == nullptr || ++g_since > 400 || g_sys->chunks != p.chunks)
    {
        if (g_sys)
        {
            g_sys->destroy();
            delete g_sys;
        }
        g_sys = new Sys(p.chunks);
        g_since = 0;
    }
    auto xp = new Exec(*g_sys, o.seed);
    auto& x = *xp;
    x.h.cfg = fmt("{\"chunks\":%u,\"maxLoans\":%u,\"maxHeld\":%u,\"maxSubs\":%u}",
                  p.chunks,
                  MAX_CHUNKS_ALLOCATED_PER_PUBLISHER_SIMULTANEOUSLY,
                  MAX_CHUNKS_HELD_PER_SUBSCRIBER_SIMULTANEOUSLY + 1,
                  MAX_SUBSCRIBERS_PER_PUBLISHER);
    x.h.comment = src;
    o.fairBurst = 400;
    o.killFiber = p.killFiber;
    o.killAt = p.killAt;
    size_t n = p.workers.size();
    bool start = n == 0, workersDone = false, killed = false;
    bool cleaned = false;
    int deadThread = -1;
    std::vector<fib::Fn> fns;
    fns.push_back([&] {
        for (auto& op : p.prelude)
        {
            x.run(0, op);
        }
        start = true;
        // wait until the workers are done; when the rest only waits, say so and make room
        int rounds = 0;
        while (true)
        {
            bool all = true;
            for (size_t i = 1; i <= n; ++i)
            {
                all = all && fib::finished(int(i));
            }
            if (all)
            {
                break;
            }
            fib::spin();
            if (fib::now() > x.lastEvent + 4000)
            {
                fib::Quiet q;
                std::vector<long> w;
                bool others = false, sending = false;
                for (size_t i = 1; i <= n; ++i)
                {
                    if (!fib::finished(int(i)))
                    {
                        w.push_back(long(i));
                        others = others || x.cur[i] != "send";
                        sending = sending || x.cur[i] == "send";
                    }
                }
                if (others && fib::now() < x.lastEvent + 40000)
                {
                    continue;
                }
                x.lastEvent = fib::now();
                if (others || ++rounds > 12)
                {
                    x.h.add(fmt("{\"k\":\"stuck\",\"a\":%s,\"sending\":%d}", jseq(w).c_str(), sending ? 1 : 0));
                    x.bad = true;
                    fib::abandon();
                }
                x.h.add(fmt("{\"k\":\"blocked\",\"a\":%s}", jseq(w).c_str()));
                fib::setQuiet(false);
                if (killed && !cleaned && rounds >= 2)
                {
                    // the daemon notices the dead process while others still wait for it
                    cleaned = true;
                    x.run(0, {"cleanup", {deadThread}});
                }
                else if (rounds % 4 == 3)
                {
                    x.run(0, {"unblock", {w[0]}});
                }
                else
                {
                    auto ss = x.subs.begin();
                    for (; ss != x.subs.end(); ++ss)
                    {
                        if (rounds % 2)
                        {
                            x.run(0, {"take", {ss->first}});
                            x.run(0, {"rel", {ss->first}});
                        }
                        else
                        {
                            x.run(0, {"clearQ", {ss->first}});
                        }
                    }
                    if (rounds % 4 == 2)
                    {
                        x.run(0, {"discover", {}});
                    }
                }
                fib::setQuiet(true);
            }
        }
        workersDone = true;
        if (killed && !cleaned)
        {
            x.run(0, {"cleanup", {deadThread}});
        }
        for (auto& op : p.post)
        {
            x.run(0, op);
        }
        if (p.tail)
        {
            // drain, look, tear down
            std::vector<long> ss, ps;
            for (auto& e : x.subs)
            {
                ss.push_back(e.first);
            }
            for (auto& e : x.pubs)
            {
                ps.push_back(e.first);
            }
            for (auto id : ss)
            {
                for (int i = 0; i < 8; ++i)
                {
                    auto before = x.h.ev.size();
                    x.run(0, {"take", {id}});
                    x.run(0, {"rel", {id}});
                    if (x.h.ev.size() == before + 2)
                    {
                        break; // nothing taken and nothing held
                    }
                }
                x.run(0, {"missed", {id}});
                x.run(0, {"subState", {id}});
            }
            for (auto id : ps)
            {
                x.run(0, {"hasSubs", {id}});
            }
            x.run(0, {"used", {}});
            for (auto id : ss)
            {
                x.run(0, {"destroySub", {id}});
            }
            for (auto id : ps)
            {
                x.run(0, {"destroyPub", {id}});
            }
            x.run(0, {"discover", {}});
            x.run(0, {"used", {}});
        }
    });
    for (size_t i = 0; i < n; ++i)
    {
        fns.push_back([&, i] {
            fib::block([&] { return start; });
            for (auto& op : p.workers[i])
            {
                x.run(int(i) + 1, op);
            }
        });
    }
    auto fatalBefore = g_errorCodes.size();
    fib::g_onAbandon = [&](int f, bool kill) {
        if (kill)
        {
            killed = true;
            deadThread = f;
            x.lockHeld = fib::holdsLock(f);
            x.h.add(fmt("{\"k\":\"die\",\"t\":%d}", f));
            x.bury(f);
            if (x.lockHeld)
            {
                x.h.comment += x.cur[size_t(f)] == "send" ? " lock-held in-send" : " lock-held";
            }
            else if (x.cur[size_t(f)] == "take" || x.cur[size_t(f)] == "clearQ" || x.cur[size_t(f)] == "subscribe")
            {
                x.h.comment += " in-receive";
            }
        }
        else if (!x.bad)
        {
            x.bad = true;
            x.h.add(fmt("{\"k\":\"fatal\",\"t\":%d,\"e\":%u}", f, g_errorCodes.empty() ? 0 : g_errorCodes.back().second));
        }
        x.lastEvent = fib::now();
    };
    auto r = fib::run(fns, o);
    fib::g_onAbandon = nullptr;
    (void)fatalBefore;
    if (r.end != fib::End::DONE && !x.bad)
    {
        x.bad = true;
        x.h.add("{\"k\":\"stuck\",\"a\":[]}");
        ++c.stuck;
    }
    if (x.bad)
    {
        ++c.fatals;
    }
    c.steps += r.steps;
    c.schedules.insert(r.hash);
    if (r.killed)
    {
        ++c.killed;
    }
    if (!x.bad && x.weight > g_maxWeight)
    {
        ++c.executions;
    }
    else
    {
        if (x.lockHeld && x.bad)
        {
            // one known way to end (see known_findings.json): some of them are enough
            static int n = 0;
            n++ < 40 ? c.add(x.h, false) : void(++c.executions);
        }
        else
        {
            c.add(x.h, x.bad);
        }
    }
    if (x.bad || killed || !p.tail)
    {
        x.buryAll();
        g_sys->forget();
        delete g_sys;
        g_sys = nullptr;
    }
    delete xp;
    return r;
}

// ------------------------------------------------------------------------------------------------ programs
std::string g_focus;
Op mkPub(Rng& r, long id, long proc, bool blocking)
{
    bool hist = g_focus == "history" || r.chance(1, 3);
    long svc = r.chance(1, g_focus == "connect" ? 3 : 12) ? 1 : 0;
    return {"createPub", {id, proc, svc, hist ? long(r.below(4)) : 0, r.chance(5, 6), blocking || r.chance(1, 6)}};
}
Op mkSub(Rng& r, long id, long proc, bool blocking)
{
    long cap = 1 + long(r.below(3));
    long hreq = g_focus == "history" || r.chance(1, 3) ? long(r.below(uint32_t(cap) + 1)) : 0;
    long svc = r.chance(1, g_focus == "connect" ? 3 : 12) ? 1 : 0;
    return {"createSub", {id, proc, svc, cap, hreq, r.chance(1, 8), blocking && r.chance(3, 4) ? 1 : r.chance(1, 10), r.chance(5, 6)}};
}
Program seqProgram(Rng& r)
{
    Program p;
    p.chunks = g_focus == "memory" ? 6 + r.below(8) : 12;
    int len = 20 + int(r.below(60));
    long np = 1 + long(r.below(3)), ns = 1 + long(r.below(4));
    long nextId = 10;
    std::vector<long> ps, ss;
    // a sequential run must not block: blocking pairs are only filled up to the queue's capacity (never here)
    for (long i = 0; i < np; ++i)
    {
        ps.push_back(nextId);
        p.prelude.push_back(mkPub(r, nextId++, long(r.below(3)) + 1, false));
        p.prelude.back().a[5] = 0;
    }
    for (long i = 0; i < ns; ++i)
    {
        ss.push_back(nextId);
        p.prelude.push_back(mkSub(r, nextId++, long(r.below(3)) + 1, false));
    }
    for (int i = 0; i < len; ++i)
    {
        auto P = ps[r.below(uint32_t(ps.size()))];
        auto S = ss[r.below(uint32_t(ss.size()))];
        auto k = r.below(100);
        auto push = [&](const char* o, std::vector<long> a) { p.prelude.push_back({o, a}); };
        if (g_focus == "limits" && k < 40)
        {
            k = k < 18 ? 0 : k < 36 ? 40 : k;
        }
        if (k < 16)
        {
            push("loan", {P});
        }
        else if (k < 38)
        {
            if (r.chance(2, 3))
            {
                push("loan", {P});
            }
            push("send", {P, long(r.below(3))});
        }
        else if (k < 52)
        {
            push("take", {S});
        }
        else if (k < 60)
        {
            push("rel", {S, long(r.below(3))});
        }
        else if (k < 62)
        {
            push("unloan", {P, long(r.below(3))});
        }
        else if (k < 65)
        {
            push("clearQ", {S});
        }
        else if (k < 68)
        {
            push(r.chance(1, 2) ? "offer" : "stopOffer", {P});
        }
        else if (k < 72)
        {
            push(r.chance(1, 2) ? "subscribe" : "unsubscribe", {S});
        }
        else if (k < 78)
        {
            push("discover", {});
        }
        else if (k < 80)
        {
            push("used", {});
        }
        else if (k < 83)
        {
            push("missed", {S});
        }
        else if (k < 85)
        {
            push("hasData", {S});
        }
        else if (k < 88)
        {
            push(r.chance(1, 2) ? "hasSubs" : "isOffered", {P});
        }
        else if (k < 90)
        {
            push("subState", {S});
        }
        else if (k < 93)
        {
            push("destroyPub", {P});
            if (r.chance(1, 2))
            {
                push("discover", {});
            }
            auto id = nextId++;
            auto op = mkPub(r, id, long(r.below(3)) + 1, false);
            op.a[5] = 0;
            p.prelude.push_back({"discover", {}});
            p.prelude.push_back(op);
            *std::find(ps.begin(), ps.end(), P) = id;
        }
        else if (k < 96)
        {
            push("destroySub", {S});
            if (r.chance(1, 2))
            {
                push("discover", {});
            }
            auto id = nextId++;
            p.prelude.push_back({"discover", {}});
            p.prelude.push_back(mkSub(r, id, long(r.below(3)) + 1, false));
            *std::find(ss.begin(), ss.end(), S) = id;
        }
    }
    return p;
}
Program concProgram(Rng& r, bool blocking, bool killing)
{
    Program p;
    p.chunks = g_focus == "memory" ? 6 + r.below(6) : 12;
    // workers: 1..2 publishers, 1..2 subscribers, sometimes the daemon
    int np = 1 + int(r.chance(1, 3)), ns = 1 + int(r.chance(1, 3));
    bool daemon = np + ns < 4 && r.chance(2, 3);
    if (np + ns == 4 && r.chance(1, 2))
    {
        np = 1;
    }
    std::vector<long> ps, ss;
    long id = 10;
    long t = 1;
    std::vector<Op> pc, sc;
    for (int i = 0; i < np; ++i)
    {
        ps.push_back(id);
        pc.push_back(mkPub(r, id++, t++, blocking));
        pc.back().a[2] = 0;
    }
    for (int i = 0; i < ns; ++i)
    {
        ss.push_back(id);
        sc.push_back(mkSub(r, id++, t++, blocking));
        sc.back().a[2] = 0;
    }
    bool extraSub = ns == 1 && r.chance(1, 4);
    if (extraSub)
    {
        sc.push_back(mkSub(r, id++, 0, blocking));
    }
    bool lateSub = daemon && r.chance(1, 2), latePub = daemon && r.chance(1, 4);
    for (int i = 0; i < np; ++i)
    {
        if (!(latePub && i == 0))
        {
            p.prelude.push_back(pc[size_t(i)]);
        }
    }
    for (size_t i = 0; i < sc.size(); ++i)
    {
        if (!(lateSub && i == 0))
        {
            p.prelude.push_back(sc[i]);
        }
    }
    int pre = int(r.below(5));
    for (int i = 0; i < pre; ++i)
    {
        auto P = ps[r.below(uint32_t(ps.size()))];
        auto S = ss[r.below(uint32_t(ss.size()))];
        switch (r.below(blocking ? 2 : 4))
        {
        case 0:
            p.prelude.push_back({"discover", {}});
            break;
        case 1:
            p.prelude.push_back({"take", {S}});
            break;
        default:
            p.prelude.push_back({"loan", {P}});
            if (!blocking)
            {
                p.prelude.push_back({"send", {P}});
            }
            break;
        }
    }
    // no sequential send may block: with a waiting publisher and a blocking subscriber sends are left to workers
    for (auto& op : pc)
    {
        if (op.a[5])
        {
            p.prelude.erase(std::remove_if(p.prelude.begin(), p.prelude.end(), [](auto& x) { return x.o == "send"; }),
                            p.prelude.end());
        }
    }
    for (int i = 0; i < np; ++i)
    {
        std::vector<Op> w;
        auto P = ps[size_t(i)];
        int k = 1 + int(r.below(4));
        for (int j = 0; j < k; ++j)
        {
            auto x = r.below(20);
            if (x < 14)
            {
                w.push_back({"loan", {P}});
                w.push_back({"send", {P}});
            }
            else if (x < 15)
            {
                w.push_back({"loan", {P}});
            }
            else if (x < 16)
            {
                w.push_back({"unloan", {P}});
            }
            else if (x < 17)
            {
                w.push_back({"hasSubs", {P}});
            }
            else if (x < 18)
            {
                w.push_back({"stopOffer", {P}});
                if (r.chance(2, 3))
                {
                    w.push_back({"offer", {P}});
                }
            }
            else if (x < 19 && r.chance(1, 3))
            {
                w.push_back({"destroyPub", {P}});
            }
        }
        p.workers.push_back(w);
    }
    for (int i = 0; i < ns; ++i)
    {
        std::vector<Op> w;
        auto S = ss[size_t(i)];
        int k = 1 + int(r.below(5));
        for (int j = 0; j < k; ++j)
        {
            auto x = r.below(24);
            if (x < 14)
            {
                w.push_back({"take", {S}});
                if (r.chance(1, 3))
                {
                    w.push_back({"rel", {S}});
                }
            }
            else if (x < 16)
            {
                w.push_back({"rel", {S}});
            }
            else if (x < 18)
            {
                w.push_back({"missed", {S}});
            }
            else if (x < 19)
            {
                w.push_back({"hasData", {S}});
            }
            else if (x < 20)
            {
                w.push_back({"clearQ", {S}});
            }
            else if (x < 22)
            {
                w.push_back({"unsubscribe", {S}});
                if (r.chance(2, 3))
                {
                    w.push_back({"subscribe", {S}});
                }
            }
            else if (x < 23 && r.chance(1, 3))
            {
                w.push_back({"destroySub", {S}});
            }
        }
        p.workers.push_back(w);
    }
    if (daemon)
    {
        std::vector<Op> w;
        if (latePub)
        {
            w.push_back(pc[0]);
        }
        if (lateSub)
        {
            w.push_back(sc[0]);
        }
        int k = int(r.below(3)) + (w.empty() ? 1 : 0);
        for (int j = 0; j < k; ++j)
        {
            if (r.chance(1, 8))
            {
                w.push_back({"unblock", {1 + long(r.below(uint32_t(np)))}});
            }
            else
            {
                w.push_back({"discover", {}});
            }
        }
        p.workers.push_back(w);
    }
    if (killing)
    {
        p.killFiber = 1 + int(r.below(uint32_t(np + ns)));
        p.killAt = 1 + int64_t(r.below(60));
    }
    if (r.chance(1, 2))
    {
        p.post.push_back({"discover", {}});
    }
    return p;
}

int main(int argc, char** argv)
{
    if (argc < 8)
    {
        fprintf(stderr, "ps MODE(seq|conc|block|kill) FOCUS SEED PROGRAMS SCHEDULES MAXHIST OUT\n");
        return 2;
    }
    installErrorHandler();
    claimDomains();
    removeLeftovers();
    Rt::install();
    std::string mode = argv[1];
    g_focus = argv[2];
    if (getenv("PS_WEIGHT"))
    {
        g_maxWeight = atof(getenv("PS_WEIGHT"));
    }
    uint64_t seed = strtoull(argv[3], nullptr, 10);
    uint64_t programs = strtoull(argv[4], nullptr, 10);
    uint64_t scheds = strtoull(argv[5], nullptr, 10);
    Collector c(strtoull(argv[6], nullptr, 10));
    Rng prng(Collector::hash(mode + g_focus) ^ seed * 0x9E37);
    for (uint64_t i = 0; i < programs; ++i)
    {
        Rng mine(prng.next());
        auto tag = fmt("ps %s %s seed=%lu program=%lu", mode.c_str(), g_focus.c_str(), seed, i);
        fib::Options o;
        o.maxSteps = 200000;
        if (mode == "seq")
        {
            o.strategy = fib::Strategy::SERIAL;
            runProgram(seqProgram(mine), o, c, tag);
            continue;
        }
        auto p = concProgram(mine, mode == "block" || (mode == "kill" && mine.chance(1, 3)), mode == "kill");
        o.strategy = fib::Strategy::SERIAL;
        auto kf = p.killFiber;
        p.killFiber = -1;
        auto base = runProgram(p, o, c, tag + " serial");
        p.killFiber = kf;
        uint32_t len = uint32_t(base.steps);
        for (uint64_t k = 0; k < scheds; ++k)
        {
            auto oo = randomOptions(mine, 200000, len);
            if (kf >= 0)
            {
                p.killAt = 1 + int64_t(mine.below(uint32_t(base.fiberSteps[size_t(kf)]) + 1));
            }
            runProgram(p, oo, c, tag + fmt(" sched=%d:%lu kill=%d@%ld", int(oo.strategy), oo.seed, p.killFiber, p.killAt));
        }
    }
    if (g_sys)
    {
        g_sys->destroy();
    }
    removeLeftovers();
    c.write(argv[7]);
    return 0;
}
