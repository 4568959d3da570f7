// request/response programs on the real daemon core and the real user API; records histories for ReqRes.tla
#include "sys.hpp"
using namespace iox;
using namespace sys;

struct Data
{
    uint64_t m{0};
    uint64_t fill[5]{};
    void set(uint64_t x)
    {
        m = x;
        for (uint64_t i = 0; i < 5; ++i)
        {
            fill[i] = x * 1000003 + i;
        }
    }
    long get() const
    {
        for (uint64_t i = 0; i < 5; ++i)
        {
            if (fill[i] != m * 1000003 + i)
            {
                return -999;
            }
        }
        return long(m);
    }
};
using Cli = popo::Client<Data, Data>;
using Srv = popo::Server<Data, Data>;
struct CliX
{
    std::unique_ptr<Cli> p;
    std::vector<std::pair<long, popo::Request<Data>>> loans;
    std::vector<std::pair<long, popo::Response<const Data>>> held;
    int proc;
};
struct SrvX
{
    std::unique_ptr<Srv> p;
    std::vector<std::pair<long, popo::Response<Data>>> loans;
    std::vector<std::pair<long, popo::Request<const Data>>> held;
    int proc;
};
struct Op
{
    std::string o;
    std::vector<long> a;
};
struct Program
{
    uint32_t chunks{16};
    std::vector<Op> prelude;
    std::vector<std::vector<Op>> workers;
    std::vector<Op> post;
    int killFiber{-1};
    int64_t killAt{-1};
};
Sys* g_sys = nullptr;
uint32_t g_since = 0;
double g_maxWeight = 200;
std::string g_focus;

long allocErr(popo::AllocationError e)
{
    return e == popo::AllocationError::RUNNING_OUT_OF_CHUNKS                    ? 1
           : e == popo::AllocationError::TOO_MANY_CHUNKS_ALLOCATED_IN_PARALLEL ? 2
                                                                               : 9;
}
struct Exec
{
    Sys& s;
    Hist h;
    std::map<long, CliX> clis;
    std::map<long, SrvX> srvs;
    long nextM{1};
    uint64_t lastEvent{0};
    std::vector<std::string> cur;
    bool bad{false}, lockHeld{false};
    std::map<const void*, int> blocks;
    double weight{0};
    explicit Exec(Sys& x)
        : s(x)
        , cur(16)
    {
    }
    int block(const void* p)
    {
        return blocks.emplace(p, int(blocks.size())).first->second;
    }
    void weigh()
    {
        double w = 1;
        int n = 0;
        for (auto& o : cur)
        {
            n += o.empty() ? 0 : 1;
            w *= o.empty() ? 1 : o == "discover" || o == "cleanup" || o == "unblock" || o == "createSrv" || o == "createCli" ? 6 : o == "cSend" || o == "sSend" ? 4 : 2;
        }
        weight += n > 1 ? w : 0;
    }
    void call(int t, const std::string& o, const std::vector<long>& a)
    {
        h.call(t, o, a);
        cur[size_t(t)] = o;
        weigh();
        lastEvent = fib::now();
    }
    void ret(int t, const std::string& o, const std::vector<long>& a)
    {
        h.ret(t, o, a);
        cur[size_t(t)] = "";
        weigh();
        lastEvent = fib::now();
    }
    template <typename X>
    size_t pick(const X& v, const Op& op)
    {
        return op.a.size() > 1 ? size_t(op.a[1]) % v.size() : 0;
    }
    template <typename R>
    long loaned(int t, const Op& op, size_t where, const std::vector<long>& a, R& r, long m)
    {
        if (r.has_error())
        {
            ret(t, op.o, {0, allocErr(r.error())});
            return -1;
        }
        fib::Quiet q;
        auto b = block(mepoo::ChunkHeader::fromUserPayload(r->operator->()));
        r->operator->()->set(uint64_t(m));
        auto aa = a;
        aa[2] = b;
        h.ev[where] = fmt("{\"k\":\"c\",\"t\":%d,\"o\":\"%s\",\"a\":%s}", t, op.o.c_str(), jseq(aa).c_str());
        ret(t, op.o, {1, b});
        return b;
    }
    void run(int t, const Op& op)
    {
        auto id = op.a.empty() ? 0 : op.a[0];
        auto& o = op.o;
        if (o == "createSrv")
        {
            if (srvs.count(id))
            {
                return;
            }
            call(t, o, op.a);
            popo::ServerOptions so;
            so.requestQueueCapacity = uint64_t(op.a[3]);
            so.offerOnCreate = op.a[4] != 0;
            so.requestQueueFullPolicy = op.a[5] ? popo::QueueFullPolicy::BLOCK_PRODUCER : popo::QueueFullPolicy::DISCARD_OLDEST_DATA;
            so.clientTooSlowPolicy = op.a[6] ? popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
            void* port = nullptr;
            {
                std::lock_guard<std::mutex> g(s.daemon);
                s.pm->acquireServerPortData(service(int(op.a[2])), so, procName(int(op.a[1])), s.payload, {}).and_then([&](auto& x) { port = x; });
            }
            if (port)
            {
                fib::Quiet q;
                Rt::me().next = port;
                auto& x = srvs[id];
                x.proc = int(op.a[1]);
                x.p.reset(new Srv(service(int(op.a[2])), so));
            }
            ret(t, o, {port ? 1 : 0});
        }
        else if (o == "createCli")
        {
            if (clis.count(id))
            {
                return;
            }
            call(t, o, op.a);
            popo::ClientOptions co;
            co.responseQueueCapacity = uint64_t(op.a[3]);
            co.connectOnCreate = op.a[4] != 0;
            co.responseQueueFullPolicy = op.a[5] ? popo::QueueFullPolicy::BLOCK_PRODUCER : popo::QueueFullPolicy::DISCARD_OLDEST_DATA;
            co.serverTooSlowPolicy = op.a[6] ? popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER : popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;
            void* port = nullptr;
            {
                std::lock_guard<std::mutex> g(s.daemon);
                s.pm->acquireClientPortData(service(int(op.a[2])), co, procName(int(op.a[1])), s.payload, {}).and_then([&](auto& x) { port = x; });
            }
            if (port)
            {
                fib::Quiet q;
                Rt::me().next = port;
                auto& x = clis[id];
                x.proc = int(op.a[1]);
                x.p.reset(new Cli(service(int(op.a[2])), co));
            }
            ret(t, o, {port ? 1 : 0});
        }
        else if (o == "discover" || o == "unblock" || o == "cleanup")
        {
            call(t, o, op.a);
            {
                std::lock_guard<std::mutex> g(s.daemon);
                o == "discover" ? s.pm->doDiscovery() : o == "unblock" ? s.pm->unblockProcessShutdown(procName(int(id))) : s.pm->deletePortsOfProcess(procName(int(id)));
            }
            ret(t, o, {});
        }
        else if (o == "used")
        {
            call(t, o, {});
            long u = long(s.used());
            ret(t, o, {u});
        }
        else if (o == "cLoan" || o == "cSend" || o == "cDrop" || o == "cTake" || o == "cRel" || o == "cClear" || o == "cMissed" || o == "cHas"
                 || o == "connect" || o == "disconnect" || o == "cState" || o == "destroyCli")
        {
            auto it = clis.find(id);
            if (it == clis.end())
            {
                return;
            }
            auto& x = it->second;
            if (o == "cLoan")
            {
                auto m = nextM++;
                std::vector<long> a{id, m, -1};
                call(t, o, a);
                auto where = h.ev.size() - 1;
                auto r = x.p->loan();
                if (loaned(t, op, where, a, r, m) >= 0)
                {
                    fib::Quiet q;
                    r->getRequestHeader().setSequenceId(m);
                    x.loans.emplace_back(m, std::move(r.value()));
                }
            }
            else if (o == "cSend" || o == "cDrop")
            {
                if (x.loans.empty())
                {
                    return;
                }
                auto k = pick(x.loans, op);
                auto m = x.loans[k].first;
                auto req = std::move(x.loans[k].second);
                x.loans.erase(x.loans.begin() + long(k));
                call(t, o, {id, m});
                if (req->get() != m)
                {
                    h.add("{\"k\":\"corrupted loan\"}");
                    bad = true;
                }
                if (o == "cSend")
                {
                    auto r = x.p->send(std::move(req));
                    ret(t, o, r.has_error() ? std::vector<long>{0, r.error() == popo::ClientSendError::NO_CONNECT_REQUESTED ? 1 : r.error() == popo::ClientSendError::SERVER_NOT_AVAILABLE ? 2 : 9} : std::vector<long>{1});
                }
                else
                {
                    {
                        auto drop = std::move(req);
                    }
                    ret(t, o, {});
                }
            }
            else if (o == "cTake")
            {
                call(t, o, {id});
                auto r = x.p->take();
                if (r.has_error())
                {
                    ret(t, o, {r.error() == popo::ChunkReceiveResult::NO_CHUNK_AVAILABLE ? 0 : r.error() == popo::ChunkReceiveResult::TOO_MANY_CHUNKS_HELD_IN_PARALLEL ? -1 : -9});
                }
                else
                {
                    fib::Quiet q;
                    long m = r->operator->()->get();
                    long sq = long(r->getResponseHeader().getSequenceId());
                    x.held.emplace_back(m, std::move(r.value()));
                    ret(t, o, {m, sq});
                }
            }
            else if (o == "cRel")
            {
                if (x.held.empty())
                {
                    return;
                }
                auto k = pick(x.held, op);
                auto m = x.held[k].first;
                auto res = std::move(x.held[k].second);
                x.held.erase(x.held.begin() + long(k));
                call(t, o, {id, m});
                long now = res->get();
                {
                    auto drop = std::move(res);
                }
                ret(t, o, {now});
            }
            else if (o == "cClear" || o == "connect" || o == "disconnect")
            {
                call(t, o, {id});
                o == "cClear" ? x.p->releaseQueuedResponses() : o == "connect" ? x.p->connect() : x.p->disconnect();
                ret(t, o, {});
            }
            else if (o == "cMissed" || o == "cHas" || o == "cState")
            {
                call(t, o, {id});
                bool r = o == "cMissed" ? x.p->hasMissedResponses() : o == "cHas" ? x.p->hasResponses() : x.p->getConnectionState() == ConnectionState::CONNECTED;
                ret(t, o, {r ? 1 : 0});
            }
            else
            {
                while (!x.loans.empty())
                {
                    run(t, {"cDrop", {id}});
                }
                while (!x.held.empty())
                {
                    run(t, {"cRel", {id}});
                }
                call(t, o, {id});
                x.p.reset();
                clis.erase(id);
                ret(t, o, {});
            }
        }
        else
        {
            auto it = srvs.find(id);
            if (it == srvs.end())
            {
                return;
            }
            auto& x = it->second;
            if (o == "sTake")
            {
                call(t, o, {id});
                auto r = x.p->take();
                if (r.has_error())
                {
                    ret(t, o, {r.error() == popo::ServerRequestResult::NO_PENDING_REQUESTS ? 0 : r.error() == popo::ServerRequestResult::TOO_MANY_REQUESTS_HELD_IN_PARALLEL ? -1 : r.error() == popo::ServerRequestResult::NO_PENDING_REQUESTS_AND_SERVER_DOES_NOT_OFFER ? -2 : -9});
                }
                else
                {
                    fib::Quiet q;
                    long m = r->operator->()->get();
                    long sq = long(r->getRequestHeader().getSequenceId());
                    x.held.emplace_back(m, std::move(r.value()));
                    ret(t, o, {m, sq});
                }
            }
            else if (o == "sLoan")
            {
                if (x.held.empty())
                {
                    return;
                }
                auto k = pick(x.held, op);
                auto m = nextM++;
                std::vector<long> a{id, m, -1, x.held[k].first};
                call(t, o, a);
                auto where = h.ev.size() - 1;
                auto r = x.p->loan(x.held[k].second);
                if (loaned(t, op, where, a, r, m) >= 0)
                {
                    fib::Quiet q;
                    x.loans.emplace_back(m, std::move(r.value()));
                }
            }
            else if (o == "sSend" || o == "sDrop")
            {
                if (x.loans.empty())
                {
                    return;
                }
                auto k = pick(x.loans, op);
                auto m = x.loans[k].first;
                auto res = std::move(x.loans[k].second);
                x.loans.erase(x.loans.begin() + long(k));
                call(t, o, {id, m});
                if (res->get() != m)
                {
                    h.add("{\"k\":\"corrupted loan\"}");
                    bad = true;
                }
                if (o == "sSend")
                {
                    auto r = x.p->send(std::move(res));
                    ret(t, o, r.has_error() ? std::vector<long>{0, r.error() == popo::ServerSendError::NOT_OFFERED ? 1 : r.error() == popo::ServerSendError::CLIENT_NOT_AVAILABLE ? 2 : 9} : std::vector<long>{1});
                }
                else
                {
                    {
                        auto drop = std::move(res);
                    }
                    ret(t, o, {});
                }
            }
            else if (o == "sRel")
            {
                if (x.held.empty())
                {
                    return;
                }
                auto k = pick(x.held, op);
                auto m = x.held[k].first;
                auto req = std::move(x.held[k].second);
                x.held.erase(x.held.begin() + long(k));
                call(t, o, {id, m});
                long now = req->get();
                {
                    auto drop = std::move(req);
                }
                ret(t, o, {now});
            }
            else if (o == "sClear" || o == "offer" || o == "stopOffer")
            {
                call(t, o, {id});
                o == "sClear" ? x.p->releaseQueuedRequests() : o == "offer" ? x.p->offer() : x.p->stopOffer();
                ret(t, o, {});
            }
            else if (o == "sMissed" || o == "sHas" || o == "isOffered" || o == "hasClients")
            {
                call(t, o, {id});
                bool r = o == "sMissed" ? x.p->hasMissedRequests() : o == "sHas" ? x.p->hasRequests() : o == "isOffered" ? x.p->isOffered() : x.p->hasClients();
                ret(t, o, {r ? 1 : 0});
            }
            else if (o == "destroySrv")
            {
                while (!x.loans.empty())
                {
                    run(t, {"sDrop", {id}});
                }
                while (!x.held.empty())
                {
                    run(t, {"sRel", {id}});
                }
                call(t, o, {id});
                x.p.reset();
                srvs.erase(id);
                ret(t, o, {});
            }
            else
            {
                fprintf(stderr, "unknown operation %s\n", o.c_str());
                exit(2);
            }
        }
    }
    void bury(int proc)
    {
        for (auto it = clis.begin(); it != clis.end();)
        {
            if (proc < 0 || it->second.proc == proc)
            {
                new CliX(std::move(it->second));
                it = clis.erase(it);
            }
            else
            {
                ++it;
            }
        }
        for (auto it = srvs.begin(); it != srvs.end();)
        {
            if (proc < 0 || it->second.proc == proc)
            {
                new SrvX(std::move(it->second));
                it = srvs.erase(it);
            }
            else
            {
                ++it;
            }
        }
    }
};

fib::Result runProgram(const Program& p, fib::Options o, Collector& c, const std::string& src)
{
    if (g_sys == nullptr || ++g_since > 400 || g_sys->chunks != p.chunks)
    {
        if (g_sys)
        {
            g_sys->destroy();
            delete g_sys;
        }
        g_sys = new Sys(p.chunks, 160);
        g_since = 0;
    }
    auto xp = new Exec(*g_sys);
    auto& x = *xp;
    x.h.cfg = fmt("{\"chunks\":%u,\"maxReq\":%u,\"maxRes\":%u,\"heldC\":%u,\"heldS\":%u,\"maxClients\":%u,\"maxSrv\":%u,\"maxCli\":%u}",
                  p.chunks,
                  MAX_REQUESTS_ALLOCATED_SIMULTANEOUSLY,
                  MAX_RESPONSES_ALLOCATED_SIMULTANEOUSLY,
                  MAX_RESPONSES_PROCESSED_SIMULTANEOUSLY + 1,
                  MAX_REQUESTS_PROCESSED_SIMULTANEOUSLY + 1,
                  MAX_CLIENTS_PER_SERVER,
                  MAX_SERVERS,
                  MAX_CLIENTS);
    x.h.comment = src;
    o.fairBurst = 400;
    o.killFiber = p.killFiber;
    o.killAt = p.killAt;
    size_t n = p.workers.size();
    bool start = n == 0, killed = false;
    bool cleaned = false;
    int deadThread = -1;
    std::vector<fib::Fn> fns;
    fns.push_back([&] {
        for (auto& op : p.prelude)
        {
            x.run(0, op);
        }
        start = true;
        int rounds = 0;
        while (true)
        {
            bool all = true;
            for (size_t i = 1; i <= n; ++i)
            {
                all = all && fib::finished(int(i));
            }
            if (all)
            {
                break;
            }
            fib::spin();
            if (fib::now() > x.lastEvent + 4000)
            {
                fib::Quiet q;
                std::vector<long> w;
                bool others = false, sending = false;
                for (size_t i = 1; i <= n; ++i)
                {
                    if (!fib::finished(int(i)))
                    {
                        w.push_back(long(i));
                        bool snd = x.cur[i] == "cSend" || x.cur[i] == "sSend";
                        others = others || !snd;
                        sending = sending || snd;
                    }
                }
                if (others && fib::now() < x.lastEvent + 40000)
                {
                    continue;
                }
                x.lastEvent = fib::now();
                if (others || ++rounds > 16)
                {
                    x.h.add(fmt("{\"k\":\"stuck\",\"a\":%s,\"sending\":%d}", jseq(w).c_str(), sending ? 1 : 0));
                    x.bad = true;
                    fib::abandon();
                }
                x.h.add(fmt("{\"k\":\"blocked\",\"a\":%s}", jseq(w).c_str()));
                fib::setQuiet(false);
                if (killed && !cleaned && rounds >= 2)
                {
                    // the daemon notices the dead process while others still wait for it
                    cleaned = true;
                    x.run(0, {"cleanup", {deadThread}});
                }
                else if (rounds % 4 == 3)
                {
                    x.run(0, {"unblock", {w[0]}});
                }
                else if (rounds % 4 == 2)
                {
                    x.run(0, {"discover", {}});
                }
                for (auto ss = x.srvs.begin(); ss != x.srvs.end(); ++ss)
                {
                    rounds % 2 ? x.run(0, {"sTake", {ss->first}}), x.run(0, {"sRel", {ss->first}}) : x.run(0, {"sClear", {ss->first}});
                }
                for (auto ss = x.clis.begin(); ss != x.clis.end(); ++ss)
                {
                    rounds % 2 ? x.run(0, {"cTake", {ss->first}}), x.run(0, {"cRel", {ss->first}}) : x.run(0, {"cClear", {ss->first}});
                }
                fib::setQuiet(true);
            }
        }
        if (killed && !cleaned)
        {
            x.run(0, {"cleanup", {deadThread}});
        }
        for (auto& op : p.post)
        {
            x.run(0, op);
        }
        std::vector<long> ss, cs;
        for (auto& e : x.srvs)
        {
            ss.push_back(e.first);
        }
        for (auto& e : x.clis)
        {
            cs.push_back(e.first);
        }
        for (auto id : ss)
        {
            for (int i = 0; i < 6; ++i)
            {
                auto before = x.h.ev.size();
                x.run(0, {"sTake", {id}});
                x.run(0, {"sRel", {id}});
                if (x.h.ev.size() == before + 2)
                {
                    break;
                }
            }
            x.run(0, {"sMissed", {id}});
            x.run(0, {"hasClients", {id}});
        }
        for (auto id : cs)
        {
            for (int i = 0; i < 6; ++i)
            {
                auto before = x.h.ev.size();
                x.run(0, {"cTake", {id}});
                x.run(0, {"cRel", {id}});
                if (x.h.ev.size() == before + 2)
                {
                    break;
                }
            }
            x.run(0, {"cMissed", {id}});
            x.run(0, {"cState", {id}});
        }
        x.run(0, {"used", {}});
        for (auto id : ss)
        {
            x.run(0, {"destroySrv", {id}});
        }
        for (auto id : cs)
        {
            x.run(0, {"destroyCli", {id}});
        }
        x.run(0, {"discover", {}});
        x.run(0, {"used", {}});
    });
    for (size_t i = 0; i < n; ++i)
    {
        fns.push_back([&, i] {
            fib::block([&] { return start; });
            for (auto& op : p.workers[i])
            {
                x.run(int(i) + 1, op);
            }
        });
    }
    fib::g_onAbandon = [&](int f, bool kill) {
        if (kill)
        {
            killed = true;
            deadThread = f;
            x.lockHeld = fib::holdsLock(f);
            x.h.add(fmt("{\"k\":\"die\",\"t\":%d}", f));
            x.bury(f);
            if (x.lockHeld)
            {
                x.h.comment += x.cur[size_t(f)] == "cSend" || x.cur[size_t(f)] == "sSend" ? " lock-held in-send" : " lock-held";
            }
            else if (x.cur[size_t(f)] == "sTake" || x.cur[size_t(f)] == "cTake" || x.cur[size_t(f)] == "cClear" || x.cur[size_t(f)] == "connect" || x.cur[size_t(f)] == "sClear")
            {
                x.h.comment += " in-receive";
            }
        }
        else if (!x.bad)
        {
            x.bad = true;
            x.h.add(fmt("{\"k\":\"fatal\",\"t\":%d,\"e\":%u}", f, g_errorCodes.empty() ? 0 : g_errorCodes.back().second));
        }
        x.lastEvent = fib::now();
    };
    auto r = fib::run(fns, o);
    fib::g_onAbandon = nullptr;
    if (r.end != fib::End::DONE && !x.bad)
    {
        x.bad = true;
        x.h.add("{\"k\":\"stuck\",\"a\":[]}");
        ++c.stuck;
    }
    if (x.bad)
    {
        ++c.fatals;
    }
    c.steps += r.steps;
    c.schedules.insert(r.hash);
    if (r.killed)
    {
        ++c.killed;
    }
    if (!x.bad && x.weight > g_maxWeight)
    {
        ++c.executions;
    }
    else if (x.lockHeld && x.bad)
    {
        static int k = 0;
        k++ < 40 ? c.add(x.h, false) : void(++c.executions);
    }
    else
    {
        c.add(x.h, x.bad);
    }
    if (x.bad || killed)
    {
        x.bury(-1);
        g_sys->forget();
        delete g_sys;
        g_sys = nullptr;
    }
    delete xp;
    return r;
}

// ------------------------------------------------------------------------------------------------ programs
// blk: blocking queues may be used
Op mkSrv(Rng& r, long id, long proc, long svc, bool blk)
{
    return {"createSrv", {id, proc, svc, 1 + long(r.below(3)), r.chance(4, 5), blk && r.chance(1, 2), blk ? r.chance(3, 4) : r.chance(1, 4)}};
}
Op mkCli(Rng& r, long id, long proc, long svc, bool blk)
{
    return {"createCli", {id, proc, svc, 1 + long(r.below(3)), r.chance(4, 5), blk && r.chance(1, 2), blk ? r.chance(3, 4) : r.chance(1, 4)}};
}
Program seqProgram(Rng& r)
{
    Program p;
    p.chunks = g_focus == "memory" ? 7 + r.below(6) : 16;
    bool many = g_focus == "connect";
    int len = 25 + int(r.below(60));
    long nextId = 10;
    std::vector<long> cs, ss;
    // queues that block only where nothing is sent
    auto newC = [&] { cs.push_back(nextId); p.prelude.push_back(mkCli(r, nextId++, 1 + long(r.below(3)), r.chance(1, many ? 3 : 8), many && r.chance(1, 2))); };
    auto newS = [&] { ss.push_back(nextId); p.prelude.push_back(mkSrv(r, nextId++, 1 + long(r.below(3)), r.chance(1, many ? 3 : 8), many && r.chance(1, 2))); };
    int nc = 1 + int(r.below(4)), ns = 1 + int(r.below(2));
    for (int i = 0; i < nc + ns; ++i)
    {
        (r.below(uint32_t(nc + ns)) < uint32_t(nc) || ss.size() >= 3) && cs.size() < 5 ? newC() : newS();
    }
    if (cs.empty())
    {
        newC();
    }
    if (ss.empty())
    {
        newS();
    }
    for (int i = 0; i < len; ++i)
    {
        auto C = cs[r.below(uint32_t(cs.size()))];
        auto S = ss[r.below(uint32_t(ss.size()))];
        auto push = [&](const char* o, std::vector<long> a) { p.prelude.push_back({o, a}); };
        auto k = r.below(100);
        if (many && k < 40)
        {
            k = 60 + k;
        }
        if (k < 22)
        {
            push("cLoan", {C});
            if (!many)
            {
                push(r.chance(9, 10) ? "cSend" : "cDrop", {C, long(r.below(3))});
            }
        }
        else if (k < 36)
        {
            push("sTake", {S});
        }
        else if (k < 48)
        {
            push("sLoan", {S, long(r.below(3))});
            if (!many && r.chance(4, 5))
            {
                push("sSend", {S, long(r.below(3))});
            }
        }
        else if (k < 53)
        {
            push("sRel", {S, long(r.below(3))});
        }
        else if (k < 62)
        {
            push("cTake", {C});
        }
        else if (k < 66)
        {
            push("cRel", {C, long(r.below(3))});
        }
        else if (k < 68)
        {
            push(r.chance(1, 2) ? "cClear" : "sClear", {k % 2 ? C : S});
            if (p.prelude.back().o == "cClear")
            {
                p.prelude.back().a[0] = C;
            }
            else
            {
                p.prelude.back().a[0] = S;
            }
        }
        else if (k < 72)
        {
            push(r.chance(1, 2) ? "offer" : "stopOffer", {S});
        }
        else if (k < 77)
        {
            push(r.chance(1, 2) ? "connect" : "disconnect", {C});
        }
        else if (k < 84)
        {
            push("discover", {});
        }
        else if (k < 87)
        {
            push("cState", {C});
        }
        else if (k < 89)
        {
            push("hasClients", {S});
        }
        else if (k < 91)
        {
            r.chance(1, 2) ? push("cMissed", {C}) : push("sMissed", {S});
        }
        else if (k < 92)
        {
            push("used", {});
        }
        else if (k < 93)
        {
            r.chance(1, 2) ? push("cHas", {C}) : push("sHas", {S});
        }
        else if (k < 95)
        {
            push("destroyCli", {C});
            if (r.chance(1, 2))
            {
                push("discover", {});
            }
            cs.erase(std::find(cs.begin(), cs.end(), C));
            newC();
        }
        else if (k < 98)
        {
            push("destroySrv", {S});
            if (r.chance(1, 2))
            {
                push("discover", {});
            }
            ss.erase(std::find(ss.begin(), ss.end(), S));
            newS();
        }
        else if (k < 99)
        {
            push("unblock", {1 + long(r.below(3))});
        }
        else
        {
            // a further one: beyond a limit or a second server for a service
            p.prelude.push_back(r.chance(1, 2) ? mkSrv(r, nextId, 1, long(r.below(2)), false) : mkCli(r, nextId, 1, 0, false));
            (p.prelude.back().o == "createSrv" ? ss : cs).push_back(nextId);
            ++nextId;
        }
    }
    return p;
}
Program concProgram(Rng& r, bool blocking, bool killing)
{
    Program p;
    p.chunks = g_focus == "memory" ? 8 + r.below(5) : 16;
    int nc = 1 + int(r.chance(1, 2));
    bool daemon = r.chance(2, 3);
    long id = 10;
    std::vector<long> cs;
    long S = id;
    auto srv = mkSrv(r, id++, 1, 0, blocking);
    srv.a[4] = r.chance(9, 10);
    std::vector<Op> cc;
    for (int i = 0; i < nc; ++i)
    {
        cs.push_back(id);
        cc.push_back(mkCli(r, id++, 2 + i, 0, blocking));
    }
    bool extra = r.chance(1, 4), lateS = daemon && r.chance(1, 4), lateC = daemon && r.chance(1, 3);
    if (!lateS)
    {
        p.prelude.push_back(srv);
    }
    for (int i = 0; i < nc; ++i)
    {
        if (!(lateC && i == 0))
        {
            p.prelude.push_back(cc[size_t(i)]);
        }
    }
    if (extra)
    {
        p.prelude.push_back(mkCli(r, id++, 0, 0, blocking));
    }
    if (r.chance(1, 2))
    {
        p.prelude.push_back({"discover", {}});
    }
    // something is already on its way
    if (!lateS && !lateC && r.chance(2, 3))
    {
        int k = 1 + int(r.below(2));
        for (int j = 0; j < k; ++j)
        {
            auto C = cs[r.below(uint32_t(cs.size()))];
            p.prelude.push_back({"cLoan", {C}});
            if (!(srv.a[5] && srv.a[3] <= j))
            {
                p.prelude.push_back({"cSend", {C}});
            }
            if (r.chance(1, 2))
            {
                p.prelude.push_back({"sTake", {S}});
                if (r.chance(1, 2))
                {
                    p.prelude.push_back({"sLoan", {S}});
                }
            }
        }
    }
    {
        std::vector<Op> w;
        int k = 1 + int(r.below(4));
        for (int j = 0; j < k; ++j)
        {
            auto x = r.below(20);
            if (x < 12)
            {
                w.push_back({"sTake", {S}});
                w.push_back({"sLoan", {S, long(r.below(3))}});
                w.push_back({"sSend", {S, long(r.below(3))}});
                if (r.chance(1, 2))
                {
                    w.push_back({"sRel", {S}});
                }
            }
            else if (x < 14)
            {
                w.push_back({"sTake", {S}});
            }
            else if (x < 15)
            {
                w.push_back({"sMissed", {S}});
            }
            else if (x < 16)
            {
                w.push_back({"hasClients", {S}});
            }
            else if (x < 17)
            {
                w.push_back({"sClear", {S}});
            }
            else if (x < 19)
            {
                w.push_back({"stopOffer", {S}});
                if (r.chance(2, 3))
                {
                    w.push_back({"offer", {S}});
                }
            }
            else if (r.chance(1, 3))
            {
                w.push_back({"destroySrv", {S}});
            }
        }
        p.workers.push_back(w);
    }
    for (int i = 0; i < nc; ++i)
    {
        std::vector<Op> w;
        auto C = cs[size_t(i)];
        int k = 1 + int(r.below(4));
        for (int j = 0; j < k; ++j)
        {
            auto x = r.below(22);
            if (x < 11)
            {
                w.push_back({"cLoan", {C}});
                w.push_back({"cSend", {C}});
            }
            else if (x < 16)
            {
                w.push_back({"cTake", {C}});
                if (r.chance(1, 2))
                {
                    w.push_back({"cRel", {C}});
                }
            }
            else if (x < 17)
            {
                w.push_back({"cMissed", {C}});
            }
            else if (x < 18)
            {
                w.push_back({"cState", {C}});
            }
            else if (x < 19)
            {
                w.push_back({"cClear", {C}});
            }
            else if (x < 21)
            {
                w.push_back({"disconnect", {C}});
                if (r.chance(2, 3))
                {
                    w.push_back({"connect", {C}});
                }
            }
            else if (r.chance(1, 3))
            {
                w.push_back({"destroyCli", {C}});
            }
        }
        p.workers.push_back(w);
    }
    if (daemon)
    {
        std::vector<Op> w;
        if (lateS)
        {
            w.push_back(srv);
        }
        if (lateC)
        {
            w.push_back(cc[0]);
        }
        int k = int(r.below(3)) + (w.empty() ? 1 : 0);
        for (int j = 0; j < k; ++j)
        {
            r.chance(1, 8) ? w.push_back({"unblock", {1}}) : w.push_back({"discover", {}});
        }
        p.workers.push_back(w);
    }
    if (killing)
    {
        p.killFiber = 1 + int(r.below(uint32_t(1 + nc)));
        p.killAt = 1;
    }
    if (r.chance(1, 2))
    {
        p.post.push_back({"discover", {}});
    }
    return p;
}

int main(int argc, char** argv)
{
    if (argc < 8)
    {
        fprintf(stderr, "rr MODE(seq|conc|block|kill) FOCUS SEED PROGRAMS SCHEDULES MAXHIST OUT\n");
        return 2;
    }
    installErrorHandler();
    claimDomains();
    removeLeftovers();
    Rt::install();
    std::string mode = argv[1];
    g_focus = argv[2];
    if (getenv("PS_WEIGHT"))
    {
        g_maxWeight = atof(getenv("PS_WEIGHT"));
    }
    uint64_t seed = strtoull(argv[3], nullptr, 10);
    uint64_t programs = strtoull(argv[4], nullptr, 10);
    uint64_t scheds = strtoull(argv[5], nullptr, 10);
    Collector c(strtoull(argv[6], nullptr, 10));
    Rng prng(Collector::hash("rr" + mode + g_focus) ^ seed * 0x9E37);
    for (uint64_t i = 0; i < programs; ++i)
    {
        Rng mine(prng.next());
        auto tag = fmt("rr %s %s seed=%lu program=%lu", mode.c_str(), g_focus.c_str(), seed, i);
        fib::Options o;
        o.maxSteps = 200000;
        o.strategy = fib::Strategy::SERIAL;
        if (mode == "seq")
        {
            runProgram(seqProgram(mine), o, c, tag);
            continue;
        }
        auto p = concProgram(mine, mode == "block" || (mode == "kill" && mine.chance(1, 3)), mode == "kill");
        auto kf = p.killFiber;
        p.killFiber = -1;
        auto base = runProgram(p, o, c, tag + " serial");
        p.killFiber = kf;
        for (uint64_t k = 0; k < scheds; ++k)
        {
            auto oo = randomOptions(mine, 200000, uint32_t(base.steps));
            if (kf >= 0)
            {
                p.killAt = 1 + int64_t(mine.below(uint32_t(base.fiberSteps[size_t(kf)]) + 1));
            }
            runProgram(p, oo, c, tag + fmt(" sched=%d:%lu kill=%d@%ld", int(oo.strategy), oo.seed, p.killFiber, p.killAt));
        }
    }
    if (g_sys)
    {
        g_sys->destroy();
    }
    removeLeftovers();
    c.write(argv[7]);
    return 0;
}
