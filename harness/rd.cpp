// the whole daemon (class RouDi with all its threads) and applications that talk to it through its socket
#include "objrun.hpp"
#include "net.hpp"
#include "sys.hpp"
#include "iceoryx_posh/internal/popo/ports/client_port_user.hpp"
#include "iceoryx_posh/internal/popo/ports/interface_port.hpp"
#include "iceoryx_posh/internal/popo/ports/server_port_user.hpp"
#include "iceoryx_posh/internal/roudi/roudi.hpp"
#include "iceoryx_posh/internal/runtime/heartbeat.hpp"
#include "iceoryx_posh/internal/runtime/ipc_interface_creator.hpp"
#include "iceoryx_posh/internal/runtime/ipc_interface_user.hpp"
#include "iceoryx_posh/roudi/introspection_types.hpp"
#include "iceoryx_posh/version/version_info.hpp"
#include "iox/detail/convert.hpp"
#include <csignal>
using namespace sys;
using runtime::IpcMessage;
using runtime::IpcMessageType;
static std::vector<V> g_kills;
extern "C" int kill(pid_t p, int sig) noexcept
{
    // nobody is hurt: only recorded
    g_kills.push_back({long(p), sig});
    errno = ESRCH;
    return -1;
}
namespace
{
enum Kind
{
    PUB = 1,
    SUB,
    SRV,
    CLI,
    ITF,
    CND
};
long code(const capro::IdString_t& s, const capro::IdString_t& i, const capro::IdString_t& e)
{
    for (int n = 0; n < 24; ++n)
    {
        if (service(n) == capro::ServiceDescription(s, i, e))
        {
            return n;
        }
    }
    return -1;
}
long code(const capro::ServiceDescription& d)
{
    return code(d.getServiceIDString(), d.getInstanceIDString(), d.getEventIDString());
}
long process(const RuntimeName_t& n)
{
    return n.size() == 2 && n.c_str()[0] == 'p' ? atoi(n.c_str() + 1) : n == RuntimeName_t(roudi::IPC_CHANNEL_ROUDI_NAME) ? 0 : -1;
}
V flat(std::vector<V> x)
{
    std::sort(x.begin(), x.end());
    V r;
    for (auto& v : x)
    {
        r.insert(r.end(), v.begin(), v.end());
    }
    return r;
}
struct App
{
    optional<runtime::IpcInterfaceCreator> in;
    optional<runtime::IpcInterfaceUser> out;
    runtime::Heartbeat* beat{nullptr};
    bool fresh{true}; // has not registered since it was started
    bool silent{false};
    long last{0}; // when it gave a sign of life
};
struct Port
{
    int kind;
    long proc;
    void* data;
    bool gone{false};
    std::vector<std::pair<mepoo::ChunkHeader*, long>> loans;
};
int g_domain = 0;
struct Rd : Obj
{
    roudi::IceOryxRouDiMemoryManager* mm{nullptr};
    roudi::PortManager* pm{nullptr};
    roudi::RouDi* rd{nullptr};
    DomainId domain{uint16_t(1)};
    bool monitored;
    std::map<long, App> apps;
    std::map<uint64_t, long> ids;
    std::map<long, Port> ports;
    std::map<void*, long> cnds;
    long next{0}, stamp{1000};
    std::vector<popo::SubscriberPortUser*> watch;
    std::map<long, V> seen; // last report per topic

    Rd(bool mon, int level, bool intro)
        : monitored(mon)
    {
        IceoryxConfig c;
        mepoo::MePooConfig m;
        m.addMemPool({128, 6});
        m.addMemPool({512, 3});
        auto g = PosixGroup::getGroupOfCurrentProcess();
        c.m_sharedMemorySegments.push_back({g.getName(), g.getName(), m});
        c.introspectionChunkCount = 10;
        c.discoveryChunkCount = 4;
        domain = DomainId{uint16_t(domainBase() + g_domain++ % 64)};
        c.domainId = domain;
        mm = new roudi::IceOryxRouDiMemoryManager(c);
        if (mm->createAndAnnounceMemory().has_error())
        {
            fprintf(stderr, "no memory for the daemon\n");
            _exit(78);
        }
        pm = new roudi::PortManager(mm);
        config::RouDiConfig rc;
        rc.domainId = domain;
        rc.monitoringMode = mon ? roudi::MonitoringMode::ON : roudi::MonitoringMode::OFF;
        rc.compatibilityCheckLevel = static_cast<version::CompatibilityCheckLevel>(level);
        rc.processTerminationDelay = units::Duration::zero();
        rc.processKillDelay = units::Duration::zero();
        rd = new roudi::RouDi(*mm, *pm, rc);
        g_kills.clear();
        if (intro)
        {
            for (auto& d : {roudi::IntrospectionProcessService, roudi::IntrospectionPortService, roudi::IntrospectionSubscriberPortChangingDataService, roudi::IntrospectionMempoolService})
            {
                popo::SubscriberOptions o;
                o.historyRequest = 1;
                o.queueCapacity = 1;
                auto x = pm->acquireSubscriberPortData(d, o, "watcher", {});
                watch.push_back(new popo::SubscriberPortUser(*x));
            }
        }
    }
    ~Rd() override
    {
        fib::Quiet q;
        for (auto& a : apps)
        {
            a.second.in.reset();
        }
        for (auto w : watch)
        {
            delete w;
        }
        fib::setQuiet(false);
        delete rd;
        fib::setQuiet(true);
        delete pm;
        delete mm;
    }
    long number(uint64_t uid)
    {
        auto it = ids.find(uid);
        return it != ids.end() ? it->second : (ids[uid] = ++next);
    }
    template <typename P>
    static uint64_t uid(const P& p)
    {
        return static_cast<uint64_t>(static_cast<popo::UniquePortId::value_type>(p.getUniqueID()));
    }
    long ms() const
    {
        return long((fib::virtualNs() - born) / 1000000);
    }
    uint64_t born{fib::virtualNs()};
    // who was silent for too long does nothing more
    void aging()
    {
        for (auto& a : apps)
        {
            auto& s = a.second.silent;
            s = s || (a.second.beat != nullptr && ms() - a.second.last >= long(runtime::PROCESS_KEEP_ALIVE_TIMEOUT.toMilliseconds()));
            if (s)
            {
                a.second.beat = nullptr;
                for (auto& p : ports)
                {
                    p.second.gone = p.second.gone || p.second.proc == a.first;
                }
            }
        }
    }
    bool prepare(int, Op& op) override
    {
        auto& o = op.o;
        aging();
        if (o == "start")
        {
            if (apps[op.a[0]].in.has_value())
            {
                return false;
            }
        }
        else if (o == "crash" || o == "reg" || o == "create" || o == "term" || o == "prep" || o == "odd" || o == "beat")
        {
            auto& a = apps[op.a[0]];
            if (!a.in.has_value() || (a.fresh && (o == "beat" || ((o == "create" || o == "prep" || o == "odd") && known.count(op.a[0])))))
            {
                return false;
            }
            if (o == "beat" && a.beat == nullptr)
            {
                return false;
            }
            if (o == "reg")
            {
                // another process than the ones before
                op.a[1] = ++pids;
            }
        }
        else if (o == "offer" || o == "stop" || o == "subscribe" || o == "unsubscribe" || o == "destroy" || o == "loan" || o == "release" || o == "send")
        {
            std::vector<long> c;
            bool pub = o == "offer" || o == "stop" || o == "loan" || o == "release" || o == "send", sub = o == "subscribe" || o == "unsubscribe";
            for (auto& p : ports)
            {
                if (!p.second.gone && (pub ? p.second.kind == PUB : sub ? p.second.kind == SUB : true) && (o != "release" || !p.second.loans.empty()))
                {
                    c.push_back(p.first);
                }
            }
            if (c.empty())
            {
                return false;
            }
            op.a[0] = c[size_t(op.a[0]) % c.size()];
            if (o == "release")
            {
                op.a.push_back(ports[op.a[0]].loans.back().second);
            }
        }
        op.a.push_back(ms());
        return true;
    }
    std::set<long> known; // names the daemon may know
    long pids{100};
    void send(App& a, const IpcMessage& m)
    {
        if (!a.out.has_value())
        {
            a.out.emplace(roudi::IPC_CHANNEL_ROUDI_NAME, domain, ResourceType::ICEORYX_DEFINED);
        }
        if (!a.out->timedSend(m, units::Duration::fromMilliseconds(500)))
        {
            fprintf(stderr, "daemon not reachable\n");
        }
    }
    // nothing: no answer
    bool answer(App& a, IpcMessage& m, bool expected)
    {
        return a.in->timedReceive(units::Duration::fromMilliseconds(expected ? 900 : 350), m);
    }
    static std::string version(long v)
    {
        using namespace version;
        auto c = VersionInfo::getCurrentVersion();
        Serialization s = c;
        uint16_t x[4];
        using SerializationString_t = string<100>;
        SerializationString_t date, commit;
        s.extract(x[0], x[1], x[2], x[3], date, commit);
        if (v == 1)
        {
            ++x[2];
        }
        if (v == 2)
        {
            ++x[1];
        }
        if (v == 3)
        {
            ++x[0];
        }
        if (v == 4)
        {
            ++x[3];
        }
        if (v == 5)
        {
            date = SerializationString_t("2001-01-01T00:00:00Z");
        }
        if (v == 6)
        {
            return "nonsense";
        }
        if (v == 7)
        {
            commit = SerializationString_t("abcdef0123");
        }
        return Serialization::create(x[0], x[1], x[2], x[3], date, commit).toString();
    }
    V list(bool offers = false)
    {
        fib::Quiet q;
        auto& pool = *mm->portPool().value();
        std::vector<V> v;
        std::set<void*> there;
        auto add = [&](long k, long proc, uint64_t u, void* d, long s, long x) {
            there.insert(d);
            if (proc > 0)
            {
                V e{number(u), k, proc, s};
                if (offers)
                {
                    e.push_back(x);
                }
                v.push_back(e);
            }
        };
        for (auto& d : pool.getPublisherPortDataList())
        {
            add(PUB, process(d.m_runtimeName), uid(PublisherPortUserType(&d)), &d, code(d.m_serviceDescription), 0);
        }
        for (auto& d : pool.getSubscriberPortDataList())
        {
            add(SUB, process(d.m_runtimeName), uid(SubscriberPortUserType(&d)), &d, code(d.m_serviceDescription), 0);
        }
        for (auto& d : pool.getServerPortDataList())
        {
            add(SRV, process(d.m_runtimeName), uid(popo::ServerPortUser(d)), &d, code(d.m_serviceDescription), 0);
        }
        for (auto& d : pool.getClientPortDataList())
        {
            add(CLI, process(d.m_runtimeName), uid(popo::ClientPortUser(d)), &d, code(d.m_serviceDescription), 0);
        }
        for (auto& d : pool.getInterfacePortDataList())
        {
            add(ITF, process(d.m_runtimeName), uid(popo::InterfacePort(&d)), &d, 0, 0);
        }
        for (auto& d : pool.getConditionVariableDataList())
        {
            there.insert(&d);
            auto it = cnds.find(&d);
            v.push_back({it == cnds.end() ? -1 : it->second, CND, process(d.m_runtimeName), 0});
        }
        for (auto& p : ports)
        {
            if (!there.count(p.second.data))
            {
                p.second.gone = true;
            }
        }
        return flat(v);
    }
    void rest(uint64_t milli, bool beats)
    {
        for (uint64_t t = 0; t < milli; t += 100)
        {
            aging();
            if (beats)
            {
                for (auto& a : apps)
                {
                    if (a.second.in.has_value() && a.second.beat != nullptr)
                    {
                        a.second.beat->beat();
                        a.second.last = ms();
                    }
                }
            }
            fib::blockUntil([] { return false; }, fib::virtualNs() + 100000000ull);
        }
    }
    template <typename T, typename F>
    void take(size_t n, const F& f)
    {
        auto r = watch[n]->tryGetChunk();
        if (!r.has_error())
        {
            f(*static_cast<const T*>((*r)->userPayload()));
            watch[n]->releaseChunk(*r);
        }
    }
    V exec(int, const Op& op) override
    {
        auto& o = op.o;
        auto& a = op.a;
        if (o == "wait")
        {
            rest(uint64_t(a[0]), a[1] != 0);
            return {};
        }
        if (o == "list")
        {
            rest(300, false);
            return list();
        }
        if (o == "report")
        {
            rest(3300, true);
            take<roudi::ProcessIntrospectionFieldTopic>(0, [&](auto& t) {
                std::vector<V> v;
                for (auto& p : t.m_processList)
                {
                    v.push_back({process(p.m_name), process(p.m_name) == 0 ? 0l : long(p.m_pid)});
                }
                seen[0] = flat(v);
            });
            std::vector<long> subs;
            take<roudi::PortIntrospectionFieldTopic>(1, [&](auto& t) {
                std::vector<V> v;
                V order;
                for (auto& p : t.m_publisherList)
                {
                    if (process(p.m_name) > 0)
                    {
                        auto it = ids.find(p.m_publisherPortID);
                        v.push_back({PUB, process(p.m_name), code(p.m_caproServiceID, p.m_caproInstanceID, p.m_caproEventMethodID), it == ids.end() ? -1 : it->second, long(p.m_publisherOptions.historyCapacity)});
                    }
                }
                for (auto& p : t.m_subscriberList)
                {
                    order.push_back(process(p.m_name));
                    if (process(p.m_name) > 0)
                    {
                        v.push_back({SUB, process(p.m_name), code(p.m_caproServiceID, p.m_caproInstanceID, p.m_caproEventMethodID), 0, long(p.m_subscriberOptions.queueCapacity)});
                    }
                }
                seen[1] = flat(v);
                seen[11] = order;
                seen[12].clear();
                for (auto& p : t.m_subscriberList)
                {
                    seen[12].push_back(code(p.m_caproServiceID, p.m_caproInstanceID, p.m_caproEventMethodID));
                }
            });
            take<roudi::SubscriberPortChangingIntrospectionFieldTopic>(2, [&](auto& t) {
                std::vector<V> v;
                size_t i = 0;
                for (auto& s : t.subscriberPortChangingDataList)
                {
                    // same order as in the list of subscribers
                    if (i >= seen[11].size())
                    {
                        v.push_back({-1, -1, -1});
                    }
                    else if (seen[11][i] > 0)
                    {
                        v.push_back({seen[11][i], seen[12][i], long(s.subscriptionState == SubscribeState::SUBSCRIBED)});
                    }
                    ++i;
                }
                if (i < seen[11].size())
                {
                    v.push_back({-2, -2, -2});
                }
                seen[2] = flat(v);
            });
            bool fresh = false;
            V pools;
            take<roudi::MemPoolIntrospectionInfoContainer>(3, [&](auto& t) {
                fresh = true;
                for (auto& s : t)
                {
                    if (s.m_id == 0)
                    {
                        continue; // the daemon's own
                    }
                    for (auto& p : s.m_mempoolInfo)
                    {
                        pools.insert(pools.end(), {long(s.m_id), long(p.m_numChunks), long(p.m_chunkPayloadSize), long(p.m_usedChunks)});
                    }
                }
            });
            V r = seen[0];
            r.insert(r.begin(), long(seen[0].size()));
            r.push_back(long(seen[1].size()));
            r.insert(r.end(), seen[1].begin(), seen[1].end());
            r.push_back(long(seen[2].size()));
            r.insert(r.end(), seen[2].begin(), seen[2].end());
            r.push_back(fresh);
            r.insert(r.end(), pools.begin(), pools.end());
            list();
            return r;
        }
        if (o == "shutdown")
        {
            delete rd;
            rd = nullptr;
            fib::Quiet q;
            std::set<long> s;
            for (auto& k : g_kills)
            {
                s.insert(k[1] == SIGTERM ? k[0] : -k[0]);
            }
            return V(s.begin(), s.end());
        }
        if (ports.count(a[0]) && o != "reg" && o != "start" && o != "crash" && o != "create" && o != "term" && o != "prep" && o != "odd" && o != "beat")
        {
            auto& p = ports[a[0]];
            if (p.kind == PUB)
            {
                PublisherPortUserType u(static_cast<PublisherPortUserType::MemberType_t*>(p.data));
                if (o == "offer")
                {
                    u.offer();
                }
                else if (o == "stop")
                {
                    u.stopOffer();
                }
                else if (o == "loan")
                {
                    auto x = u.tryAllocateChunk(a[1] ? 400 : 64, 8);
                    if (x.has_error())
                    {
                        return {0};
                    }
                    p.loans.push_back({*x, a[1]});
                    return {1};
                }
                else if (o == "release")
                {
                    u.releaseChunk(p.loans.back().first);
                    p.loans.pop_back();
                }
                else
                {
                    p.gone = true;
                    u.destroy();
                }
                return {};
            }
            p.gone = true;
            switch (p.kind)
            {
            case SUB:
            {
                SubscriberPortUserType u(static_cast<SubscriberPortUserType::MemberType_t*>(p.data));
                p.gone = o == "destroy";
                o == "subscribe" ? u.subscribe() : o == "unsubscribe" ? u.unsubscribe() : u.destroy();
                break;
            }
            case SRV:
                popo::ServerPortUser(*static_cast<popo::ServerPortData*>(p.data)).destroy();
                break;
            case CLI:
                popo::ClientPortUser(*static_cast<popo::ClientPortData*>(p.data)).destroy();
                break;
            case ITF:
                popo::InterfacePort(static_cast<popo::InterfacePortData*>(p.data)).destroy();
                break;
            default:
                static_cast<popo::ConditionVariableData*>(p.data)->m_toBeDestroyed.store(true);
            }
            return {};
        }
        auto name = procName(int(a[0]));
        auto& app = apps[a[0]];
        if (o == "start")
        {
            auto x = runtime::IpcInterfaceCreator::create(name, domain, ResourceType::USER_DEFINED);
            if (x.has_error())
            {
                return {0};
            }
            app = App{};
            app.in.emplace(std::move(x.value()));
            return {1};
        }
        if (o == "crash")
        {
            app.in.reset();
            app.out.reset();
            app.beat = nullptr;
            for (auto& p : ports)
            {
                if (p.second.proc == a[0])
                {
                    p.second.gone = true;
                }
            }
            return {};
        }
        if (o == "beat")
        {
            app.beat->beat();
            app.last = ms();
            return {};
        }
        IpcMessage m, r;
        auto T = [](IpcMessageType t) { return runtime::IpcMessageTypeToString(t); };
        auto forget = [&] {
            for (auto& p : ports)
            {
                if (p.second.proc == a[0])
                {
                    p.second.gone = true;
                }
            }
        };
        if (o == "reg")
        {
            app.beat = nullptr;
            forget();
            known.insert(a[0]);
            auto st = ++stamp;
            m << T(IpcMessageType::REG) << name << convert::toString(a[1]) << convert::toString(PosixUser::getUserOfCurrentProcess().getID()) << convert::toString(st) << version(a[2]);
            send(app, m);
            if (!answer(app, r, true))
            {
                return {};
            }
            fib::Quiet q;
            app.fresh = false;
            app.last = a[3];
            app.silent = false;
            // what was sent back
            bool good = r.getNumberOfElements() == 6 && r.getElementAtIndex(0) == T(IpcMessageType::REG_ACK) && r.getElementAtIndex(1) == convert::toString(mm->mgmtMemoryProvider()->size())
                        && r.getElementAtIndex(3) == convert::toString(st) && r.getElementAtIndex(4) == convert::toString(*mm->mgmtMemoryProvider()->segmentId());
            if (good)
            {
                auto seg = segment_id_t{*mm->mgmtMemoryProvider()->segmentId()};
                auto sm = convert::from_string<uint64_t>(r.getElementAtIndex(2).c_str());
                good = sm.has_value() && UntypedRelativePointer::getPtr(seg, *sm) == *mm->segmentManager();
                auto hb = convert::from_string<uint64_t>(r.getElementAtIndex(5).c_str());
                if (hb.has_value() && *hb != UntypedRelativePointer::NULL_POINTER_OFFSET)
                {
                    app.beat = static_cast<runtime::Heartbeat*>(UntypedRelativePointer::getPtr(seg, *hb));
                    // nobody else has it
                    for (auto& x : apps)
                    {
                        if (&x.second != &app && x.second.beat == app.beat && known.count(x.first) && alive(x.first))
                        {
                            good = false;
                        }
                    }
                }
                good = good && (app.beat != nullptr) == monitored;
            }
            return {good ? 1 : 2};
        }
        if (o == "create")
        {
            auto d = service(int(a[2]));
            if (a[1] <= CLI)
            {
                std::string opts;
                if (a[1] == PUB)
                {
                    popo::PublisherOptions x;
                    x.offerOnCreate = a[3] != 0;
                    opts = x.serialize().toString();
                }
                if (a[1] == SUB)
                {
                    popo::SubscriberOptions x;
                    x.subscribeOnCreate = a[3] != 0;
                    x.queueCapacity = 2;
                    opts = x.serialize().toString();
                }
                if (a[1] == SRV)
                {
                    opts = popo::ServerOptions().serialize().toString();
                }
                if (a[1] == CLI)
                {
                    opts = popo::ClientOptions().serialize().toString();
                }
                static const IpcMessageType types[] = {IpcMessageType::CREATE_PUBLISHER, IpcMessageType::CREATE_SUBSCRIBER, IpcMessageType::CREATE_SERVER, IpcMessageType::CREATE_CLIENT};
                m << T(types[a[1] - 1]) << name << static_cast<Serialization>(d).toString() << opts << static_cast<Serialization>(runtime::PortConfigInfo()).toString();
            }
            else if (a[1] == ITF)
            {
                m << T(IpcMessageType::CREATE_INTERFACE) << name << convert::toString(static_cast<uint32_t>(capro::Interfaces::DDS)) << "node";
            }
            else
            {
                m << T(IpcMessageType::CREATE_CONDITION_VARIABLE) << name;
            }
            send(app, m);
            if (!answer(app, r, known.count(a[0]) != 0))
            {
                return {};
            }
            fib::Quiet q;
            auto t = r.getElementAtIndex(0);
            if (t == T(IpcMessageType::ERROR_RESPONSE))
            {
                auto e = runtime::stringToIpcMessageErrorType(r.getElementAtIndex(1).c_str());
                using X = runtime::IpcMessageErrorType;
                static const X full[] = {X::PUBLISHER_LIST_FULL, X::SUBSCRIBER_LIST_FULL, X::SERVER_LIST_FULL, X::CLIENT_LIST_FULL, X::NOTYPE, X::CONDITION_VARIABLE_LIST_FULL};
                return {0, e == full[a[1] - 1] ? 1 : 9};
            }
            static const IpcMessageType acks[] = {IpcMessageType::CREATE_PUBLISHER_ACK, IpcMessageType::CREATE_SUBSCRIBER_ACK, IpcMessageType::CREATE_SERVER_ACK, IpcMessageType::CREATE_CLIENT_ACK, IpcMessageType::CREATE_INTERFACE_ACK, IpcMessageType::CREATE_CONDITION_VARIABLE_ACK};
            auto off = convert::from_string<uint64_t>(r.getElementAtIndex(1).c_str());
            if (t != T(acks[a[1] - 1]) || !off.has_value() || r.getElementAtIndex(2) != convert::toString(*mm->mgmtMemoryProvider()->segmentId()))
            {
                return {0, 8};
            }
            void* ptr = *off == UntypedRelativePointer::NULL_POINTER_OFFSET ? nullptr : UntypedRelativePointer::getPtr(segment_id_t{*mm->mgmtMemoryProvider()->segmentId()}, *off);
            if (ptr == nullptr)
            {
                return {0, 1};
            }
            uint64_t u = 0;
            switch (a[1])
            {
            case PUB:
                u = uid(PublisherPortUserType(static_cast<PublisherPortUserType::MemberType_t*>(ptr)));
                break;
            case SUB:
                u = uid(SubscriberPortUserType(static_cast<SubscriberPortUserType::MemberType_t*>(ptr)));
                break;
            case SRV:
                u = uid(popo::ServerPortUser(*static_cast<popo::ServerPortData*>(ptr)));
                break;
            case CLI:
                u = uid(popo::ClientPortUser(*static_cast<popo::ClientPortData*>(ptr)));
                break;
            case ITF:
                u = uid(popo::InterfacePort(static_cast<popo::InterfacePortData*>(ptr)));
                break;
            default:
                break;
            }
            long n = a[1] == CND ? ++next : number(u);
            if (a[1] == CND)
            {
                cnds[ptr] = n;
            }
            if (ports.count(n))
            {
                return {1, -1};
            }
            ports[n] = {int(a[1]), a[0], ptr, false, {}};
            return {1, n};
        }
        if (o == "term" || o == "prep")
        {
            m << T(o == "term" ? IpcMessageType::TERMINATION : IpcMessageType::PREPARE_APP_TERMINATION) << name;
            if (o == "term")
            {
                app.beat = nullptr;
            }
            send(app, m);
            auto got = answer(app, r, known.count(a[0]) != 0);
            fib::Quiet q;
            if (o == "term")
            {
                known.erase(a[0]);
                forget();
            }
            bool stale = app.fresh;
            app.fresh = app.fresh || o == "term";
            if (stale)
            {
                return {9};
            }
            return {!got ? 0 : r.getNumberOfElements() == 1 && r.getElementAtIndex(0) == T(o == "term" ? IpcMessageType::TERMINATION_ACK : IpcMessageType::PREPARE_APP_TERMINATION_ACK) ? 1 : 2};
        }
        // odd: something no application sends
        auto svc = static_cast<Serialization>(service(1)).toString();
        switch (a[1])
        {
        case 0:
            m << "NO_SUCH_COMMAND" << name;
            break;
        case 1:
            m << T(IpcMessageType::REG) << name << convert::toString(7);
            break;
        case 2:
            m << T(IpcMessageType::CREATE_PUBLISHER) << name << svc;
            break;
        case 3:
            m << T(IpcMessageType::CREATE_SUBSCRIBER) << name << "garbage" << popo::SubscriberOptions().serialize().toString() << static_cast<Serialization>(runtime::PortConfigInfo()).toString();
            break;
        case 4:
            m << T(IpcMessageType::CREATE_PUBLISHER) << name << svc << "garbage" << static_cast<Serialization>(runtime::PortConfigInfo()).toString();
            break;
        case 5:
            m << T(IpcMessageType::TERMINATION) << "";
            break;
        case 6:
            m << T(IpcMessageType::REG) << "a/b" << convert::toString(7) << convert::toString(0) << convert::toString(1) << version(0);
            break;
        case 7:
            m << T(IpcMessageType::TERMINATION) << name << "more";
            break;
        case 8:
            m << T(IpcMessageType::TERMINATION) << "nobody";
            break;
        case 9:
            m << T(IpcMessageType::REG) << "q9" << "x" << convert::toString(0) << convert::toString(1) << version(0);
            break;
        case 10:
            m << T(IpcMessageType::CREATE_SERVER) << name << svc << "7" << static_cast<Serialization>(runtime::PortConfigInfo()).toString();
            break;
        default:
            m << T(IpcMessageType::REG_ACK) << name;
            break;
        }
        send(app, m);
        auto got = answer(app, r, false);
        fib::Quiet q;
        return {!got ? 0 : r.getNumberOfElements() == 1 && r.getElementAtIndex(0) == T(IpcMessageType::MESSAGE_NOT_SUPPORTED) ? 1 : 2};
    }
    bool alive(long p)
    {
        return apps.count(p) && apps[p].in.has_value();
    }
};
} // namespace
int main(int argc, char** argv)
{
    if (argc < 7)
    {
        return 2;
    }
    std::string kind = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    int programs = atoi(argv[3]), schedules = atoi(argv[4]);
    Collector c{size_t(atoi(argv[5]))};
    claimDomains();
    installErrorHandler();
    Rng r(seed);
    bool mon = false;
    int level = 0;
    bool intro = kind == "intro";
    auto gen = [&](Rng& g) {
        Program p;
        mon = g.chance(1, 2);
        level = int(g.below(6));
        p.cfg = fmt("{\"mon\":%d,\"level\":%d,\"procs\":%d,\"max\":[%d,%d,%d,%d,%d,%d],\"timeout\":%d,\"pools\":[[6,128],[3,512]],\"loans\":%d}",
                    mon,
                    level,
                    int(MAX_PROCESS_NUMBER),
                    int(MAX_PUBLISHERS) - 6,
                    int(MAX_SUBSCRIBERS) - (intro ? 4 : 0),
                    int(MAX_SERVERS),
                    int(MAX_CLIENTS),
                    int(MAX_INTERFACE_NUMBER),
                    int(MAX_NUMBER_OF_CONDITION_VARIABLES),
                    int(runtime::PROCESS_KEEP_ALIVE_TIMEOUT.toMilliseconds()),
                    int(MAX_CHUNKS_ALLOCATED_PER_PUBLISHER_SIMULTANEOUSLY));
        auto name = [&] { return 1 + long(g.below(g.chance(1, 3) ? 6 : 3)); };
        auto reg = [&](long n) { return Op{"reg", {n, 0, g.chance(3, 4) ? 0l : long(g.below(8))}}; };
        auto create = [&](long n) { return Op{"create", {n, intro ? 1 + long(g.below(2)) : 1 + long(g.below(6)), long(g.below(3)), long(g.chance(1, 2))}}; };
        if (kind == "threads")
        {
            for (long n = 1; n <= 3; ++n)
            {
                p.prelude.push_back({"start", {n}});
                if (g.chance(1, 2))
                {
                    p.prelude.push_back({"reg", {n, 0, 0}});
                }
            }
            p.threads.resize(3);
            auto k = 1 + long(g.below(6));
            for (long n = 1; n <= 3; ++n)
            {
                for (uint32_t i = 1 + g.below(4); i > 0; --i)
                {
                    auto x = g.below(10);
                    auto& t = p.threads[size_t(n - 1)];
                    auto cr = create(n);
                    cr.a[1] = g.chance(2, 3) ? k : cr.a[1];
                    t.push_back(x < 3 ? Op{"reg", {n, 0, 0}} : x < 8 ? cr : x < 9 ? Op{"term", {n}} : Op{"prep", {n}});
                }
            }
            p.tail.push_back({"list", {}});
            p.tail.push_back({"shutdown", {}});
            return p;
        }
        for (uint32_t i = 12 + g.below(25); i > 0; --i)
        {
            auto n = name();
            auto x = g.below(intro ? 22 : 16);
            if (x < 4)
            {
                p.prelude.push_back({"start", {n}});
                p.prelude.push_back(reg(n));
            }
            else if (x < 8)
            {
                p.prelude.push_back(create(n));
            }
            else if (x < 9)
            {
                p.prelude.push_back({"term", {n}});
            }
            else if (x < 10)
            {
                p.prelude.push_back({"crash", {n}});
            }
            else if (x < 11)
            {
                p.prelude.push_back(intro ? Op{"report", {}} : Op{"list", {}});
            }
            else if (x < 12)
            {
                p.prelude.push_back(intro ? create(n) : Op{"odd", {n, long(g.below(12))}});
            }
            else if (x < 13)
            {
                p.prelude.push_back({"wait", {100 * long(1 + g.below(20)), long(g.chance(2, 3))}});
            }
            else if (x < 14)
            {
                p.prelude.push_back(g.chance(1, 2) ? Op{"beat", {n}} : Op{"prep", {n}});
            }
            else if (x < 16)
            {
                p.prelude.push_back(intro ? Op{"report", {}} : g.chance(1, 2) ? Op{"destroy", {long(g.below(16))}} : reg(n));
            }
            else
            {
                static const char* const ops[] = {"offer", "stop", "subscribe", "unsubscribe", "destroy", "loan", "loan", "release"};
                std::string o = ops[g.below(8)];
                p.prelude.push_back({o, o == "loan" ? V{long(g.below(16)), long(g.below(2))} : V{long(g.below(16))}});
            }
        }
        p.prelude.push_back(intro ? Op{"report", {}} : Op{"list", {}});
        p.prelude.push_back({"shutdown", {}});
        return p;
    };
    beforeRun() = [] {
        UntypedRelativePointer::unregisterAll();
        fib::forgetLocks();
        if (g_domain >= 60)
        {
            g_domain = 0;
            removeLeftovers();
        }
    };
    explore(c, "rd " + kind, r, seed, programs, schedules, false, gen, [&](const Program&) -> Obj* { return new Rd(mon, level, intro); }, 4000000, 100000);
    removeLeftovers();
    c.write(argv[6]);
    return 0;
}
