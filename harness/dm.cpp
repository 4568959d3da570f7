// the daemon's view: ports come and go, services are offered and searched
#include "objrun.hpp"
#include "sys.hpp"
#include "iceoryx_posh/internal/popo/ports/client_port_user.hpp"
#include "iceoryx_posh/internal/popo/ports/interface_port.hpp"
#include "iceoryx_posh/internal/popo/ports/server_port_user.hpp"
#include "iceoryx_posh/internal/roudi/service_registry.hpp"
#include "iceoryx_posh/roudi/introspection_types.hpp"
#include "iceoryx_posh/runtime/service_discovery.hpp"
using namespace sys;
namespace
{
enum Kind
{
    PUB = 1,
    SUB,
    SRV,
    CLI,
    ITF,
    CND
};
constexpr int RESERVED = 90;
capro::ServiceDescription svc(int s)
{
    if (s >= RESERVED)
    {
        return s == RESERVED ? roudi::IntrospectionPortService
                             : capro::ServiceDescription(SERVICE_DISCOVERY_SERVICE_NAME, SERVICE_DISCOVERY_INSTANCE_NAME, SERVICE_DISCOVERY_EVENT_NAME);
    }
    return service(s);
}
long code(const capro::ServiceDescription& d)
{
    for (int s = 0; s < 24; ++s)
    {
        if (service(s) == d)
        {
            return s;
        }
    }
    return d == svc(RESERVED) ? RESERVED : d == svc(RESERVED + 1) ? RESERVED + 1 : -1;
}
optional<capro::IdString_t> name(char c, long n)
{
    if (n < 0)
    {
        return nullopt;
    }
    return capro::IdString_t(TruncateToCapacity, fmt("%c%ld", c, n).c_str());
}
long process(const RuntimeName_t& n)
{
    return n.size() == 2 && n.c_str()[0] == 'p' ? atoi(n.c_str() + 1) : -1;
}
V sorted(std::vector<V> x)
{
    std::sort(x.begin(), x.end());
    V r;
    for (auto& v : x)
    {
        r.insert(r.end(), v.begin(), v.end());
    }
    return r;
}
struct Registry : Obj
{
    roudi::ServiceRegistry r;
    V exec(int, const Op& op) override
    {
        auto& o = op.o;
        auto& a = op.a;
        if (o == "addPub")
        {
            return {!r.addPublisher(service(int(a[0]))).has_error()};
        }
        if (o == "addSrv")
        {
            return {!r.addServer(service(int(a[0]))).has_error()};
        }
        if (o == "remPub")
        {
            r.removePublisher(service(int(a[0])));
        }
        if (o == "remSrv")
        {
            r.removeServer(service(int(a[0])));
        }
        if (o == "purge")
        {
            r.purge(service(int(a[0])));
        }
        if (o == "changed")
        {
            return {r.hasDataChangedSinceLastCall()};
        }
        std::vector<V> f;
        auto each = [&](const roudi::ServiceRegistry::ServiceDescriptionEntry& e) { f.push_back({code(e.serviceDescription), long(e.publisherCount), long(e.serverCount)}); };
        if (o == "search")
        {
            r.find(name('S', a[0]), name('I', a[1]), name('E', a[2]), each);
            return sorted(f);
        }
        r.forEach(each);
        return sorted(f);
    }
};
struct Port
{
    int kind;
    void* data;
    bool gone{false};
};
Sys* g_sys{nullptr};
bool g_used{false};
struct Dm : Obj
{
    Sys& s{*g_sys};
    std::unique_ptr<runtime::ServiceDiscovery> sd;
    std::map<long, Port> ports; // by number
    std::map<uint64_t, long> ids;
    long next{0};
    long discoverySub{-1};
    popo::SubscriberPortUser* watch{nullptr};
    Dm()
    {
        g_used = true;
        Rt::me().subscriber = [&](const capro::ServiceDescription& d, const popo::SubscriberOptions& o) -> void* {
            auto x = s.pm->acquireSubscriberPortData(d, o, "watcher", {});
            watch = new popo::SubscriberPortUser(*x);
            return *x;
        };
        sd.reset(new runtime::ServiceDiscovery);
        Rt::me().subscriber = nullptr;
        s.pm->doDiscovery();
    }
    ~Dm() override
    {
        fib::Quiet q;
        s.pm->deletePortsOfProcess("p1");
        s.pm->deletePortsOfProcess("p2");
        s.pm->deletePortsOfProcess("p3");
        sd.reset();
        delete watch;
        s.pm->deletePortsOfProcess("watcher");
        s.pm->doDiscovery();
        g_used = false;
    }
    long number(uint64_t uid)
    {
        auto it = ids.find(uid);
        if (it != ids.end())
        {
            return it->second;
        }
        return ids[uid] = ++next;
    }
    template <typename P>
    static uint64_t uid(const P& p)
    {
        return static_cast<uint64_t>(static_cast<popo::UniquePortId::value_type>(p.getUniqueID()));
    }
    bool prepare(int, Op& op) override
    {
        if (op.o == "offer" || op.o == "stop" || op.o == "destroy")
        {
            // the n-th of the living ones
            std::vector<long> c;
            for (auto& p : ports)
            {
                if (!p.second.gone && (op.o == "destroy" || p.second.kind == PUB || p.second.kind == SRV))
                {
                    c.push_back(p.first);
                }
            }
            if (c.empty())
            {
                return false;
            }
            op.a[0] = c[size_t(op.a[0]) % c.size()];
        }
        return true;
    }
    V made(int kind, void* d, uint64_t u)
    {
        fib::Quiet q;
        // no living port has this place
        for (auto& p : ports)
        {
            if (p.second.data == d && alive(p.first))
            {
                if (!p.second.gone)
                {
                    return {1, -1};
                }
                dead.insert(p.first);
            }
        }
        auto n = kind == CND ? ++next : number(u);
        if (ports.count(n))
        {
            return {1, -2};
        }
        ports[n] = {kind, d, false};
        return {1, n};
    }
    std::set<long> dead;
    bool alive(long n)
    {
        return !dead.count(n);
    }
    template <typename E>
    static V error(E e)
    {
        using roudi::PortPoolError;
        return {0, e == PortPoolError::UNIQUE_SERVER_PORT_ALREADY_EXISTS || e == PortPoolError::UNIQUE_PUBLISHER_PORT_ALREADY_EXISTS ? 2 : e == PortPoolError::INTERNAL_SERVICE_DESCRIPTION_IS_FORBIDDEN ? 3 : 1};
    }
    // everything there is, and keeps track of what is gone
    V list()
    {
        fib::Quiet q;
        auto& pool = *s.mm->portPool().value();
        std::vector<V> v;
        std::set<void*> there;
        for (auto& d : pool.getPublisherPortDataList())
        {
            there.insert(&d);
            PublisherPortUserType p(&d);
            auto pr = process(d.m_runtimeName);
            if (pr >= 0)
            {
                v.push_back({number(uid(p)), PUB, pr, code(d.m_serviceDescription), d.m_offered.load()});
            }
        }
        for (auto& d : pool.getSubscriberPortDataList())
        {
            there.insert(&d);
            SubscriberPortUserType p(&d);
            auto pr = process(d.m_runtimeName);
            if (pr >= 0)
            {
                v.push_back({number(uid(p)), SUB, pr, code(d.m_serviceDescription), 0});
            }
        }
        for (auto& d : pool.getServerPortDataList())
        {
            there.insert(&d);
            popo::ServerPortUser p(d);
            v.push_back({number(uid(p)), SRV, process(d.m_runtimeName), code(d.m_serviceDescription), d.m_offered.load()});
        }
        for (auto& d : pool.getClientPortDataList())
        {
            there.insert(&d);
            popo::ClientPortUser p(d);
            v.push_back({number(uid(p)), CLI, process(d.m_runtimeName), code(d.m_serviceDescription), 0});
        }
        for (auto& d : pool.getInterfacePortDataList())
        {
            there.insert(&d);
            popo::InterfacePort p(&d);
            v.push_back({number(uid(p)), ITF, process(d.m_runtimeName), 0, 0});
        }
        for (auto& d : pool.getConditionVariableDataList())
        {
            there.insert(&d);
            for (auto& p : ports)
            {
                if (p.second.data == &d && alive(p.first))
                {
                    v.push_back({p.first, CND, process(d.m_runtimeName), 0, 0});
                }
            }
        }
        for (auto& p : ports)
        {
            if (!there.count(p.second.data))
            {
                dead.insert(p.first);
                p.second.gone = true;
            }
        }
        return sorted(v);
    }
    V exec(int, const Op& op) override
    {
        auto& o = op.o;
        auto& a = op.a;
        if (o == "create")
        {
            auto kind = a[0];
            auto proc = procName(int(a[1]));
            auto d = svc(int(a[2]));
            if (kind == PUB)
            {
                popo::PublisherOptions po;
                po.offerOnCreate = a[3] != 0;
                auto x = s.pm->acquirePublisherPortData(d, po, proc, s.payload, {});
                return x.has_error() ? error(x.error()) : made(PUB, *x, uid(PublisherPortUserType(*x)));
            }
            if (kind == SUB)
            {
                auto x = s.pm->acquireSubscriberPortData(d, {}, proc, {});
                return x.has_error() ? error(x.error()) : made(SUB, *x, uid(SubscriberPortUserType(*x)));
            }
            if (kind == SRV)
            {
                popo::ServerOptions so;
                so.offerOnCreate = a[3] != 0;
                auto x = s.pm->acquireServerPortData(d, so, proc, s.payload, {});
                return x.has_error() ? error(x.error()) : made(SRV, *x, uid(popo::ServerPortUser(**x)));
            }
            if (kind == CLI)
            {
                auto x = s.pm->acquireClientPortData(d, {}, proc, s.payload, {});
                return x.has_error() ? error(x.error()) : made(CLI, *x, uid(popo::ClientPortUser(**x)));
            }
            if (kind == ITF)
            {
                auto x = s.pm->acquireInterfacePortData(capro::Interfaces::DDS, proc);
                return x == nullptr ? V{0, 1} : made(ITF, x, uid(popo::InterfacePort(x)));
            }
            auto x = s.pm->acquireConditionVariableData(proc);
            return x.has_error() ? error(x.error()) : made(CND, *x, 0);
        }
        if (o == "offer" || o == "stop")
        {
            auto& p = ports[a[0]];
            if (p.kind == PUB)
            {
                PublisherPortUserType u(static_cast<PublisherPortUserType::MemberType_t*>(p.data));
                o == "offer" ? u.offer() : u.stopOffer();
            }
            else
            {
                popo::ServerPortUser u(*static_cast<popo::ServerPortData*>(p.data));
                o == "offer" ? u.offer() : u.stopOffer();
            }
            return {};
        }
        if (o == "destroy")
        {
            auto& p = ports[a[0]];
            p.gone = true;
            switch (p.kind)
            {
            case PUB:
                PublisherPortUserType(static_cast<PublisherPortUserType::MemberType_t*>(p.data)).destroy();
                break;
            case SUB:
                SubscriberPortUserType(static_cast<SubscriberPortUserType::MemberType_t*>(p.data)).destroy();
                break;
            case SRV:
                popo::ServerPortUser(*static_cast<popo::ServerPortData*>(p.data)).destroy();
                break;
            case CLI:
                popo::ClientPortUser(*static_cast<popo::ClientPortData*>(p.data)).destroy();
                break;
            case ITF:
                popo::InterfacePort(static_cast<popo::InterfacePortData*>(p.data)).destroy();
                break;
            default:
                static_cast<popo::ConditionVariableData*>(p.data)->m_toBeDestroyed.store(true);
            }
            return {};
        }
        if (o == "discover")
        {
            s.pm->doDiscovery();
            list();
            return {};
        }
        if (o == "unblock")
        {
            s.pm->unblockProcessShutdown(procName(int(a[0])));
            return {};
        }
        if (o == "end")
        {
            s.pm->deletePortsOfProcess(procName(int(a[0])));
            list();
            return {};
        }
        if (o == "find")
        {
            std::vector<V> f;
            sd->findService(
                name('S', a[0]), name('I', a[1]), name('E', a[2]), [&](auto& d) {
                    fib::Quiet q;
                    auto c = code(d);
                    if (c >= 0 && c < RESERVED)
                    {
                        f.push_back({c});
                    }
                },
                a[3] ? popo::MessagingPattern::REQ_RES : popo::MessagingPattern::PUB_SUB);
            fib::Quiet q;
            return sorted(f);
        }
        if (o == "news")
        {
            return {watch->hasNewChunks()};
        }
        return list();
    }
};
} // namespace
int main(int argc, char** argv)
{
    if (argc < 7)
    {
        return 2;
    }
    std::string kind = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    int programs = atoi(argv[3]), schedules = atoi(argv[4]);
    Collector c{size_t(atoi(argv[5]))};
    claimDomains();
    Rt::install();
    installErrorHandler();
    Rng r(seed);
    auto gen = [&](Rng& g) {
        Program p;
        p.cfg = fmt("{\"kind\":\"%s\",\"max\":[%d,%d,%d,%d,%d,%d],\"unique\":%d,\"cap\":%d}",
                    kind == "registry" ? "registry" : "daemon",
                    int(MAX_PUBLISHERS) - 4,
                    int(MAX_SUBSCRIBERS) - 1,
                    int(MAX_SERVERS),
                    int(MAX_CLIENTS),
                    int(MAX_INTERFACE_NUMBER),
                    int(MAX_NUMBER_OF_CONDITION_VARIABLES),
                    int(std::is_same<build::CommunicationPolicy, build::OneToManyPolicy>::value),
                    int(SERVICE_REGISTRY_CAPACITY));
        if (kind == "registry")
        {
            uint32_t n = g.chance(1, 2) ? 4 : 16;
            for (uint32_t i = 15 + g.below(n == 4 ? 20 : 50); i > 0; --i)
            {
                static const char* const names[] = {"addPub", "addPub", "addPub", "addSrv", "addSrv", "remPub", "remPub", "remSrv", "purge"};
                auto x = g.below(n == 4 ? 12 : 10);
                auto rem = n == 16 && i > 12 && g.chance(2, 3);
                if (x < 9)
                {
                    p.prelude.push_back({names[rem ? x % 5 : x], {long(g.below(n))}});
                    if (g.chance(1, 4))
                    {
                        p.prelude.push_back({"changed", {}});
                    }
                    continue;
                }
                p.prelude.push_back({"search", {long(g.below(3)) - 1, long(g.below(3)) - 1, long(g.below(3)) - 1}});
                p.prelude.push_back({"list", {}});
            }
            p.prelude.push_back({"list", {}});
            p.prelude.push_back({"changed", {}});
            return p;
        }
        bool slots = kind == "slots", threads = kind == "threads";
        auto find = [&] {
            auto any = [&] { return g.chance(1, 2) ? -1l : long(g.below(2)); };
            return Op{"find", {any(), any(), any(), long(g.chance(1, 3))}};
        };
        auto mk = [&](long k) { return Op{"create", {k, 1 + long(g.below(3)), k == PUB && g.chance(1, 12) ? RESERVED + long(g.below(2)) : k >= ITF ? 0 : long(g.below(slots ? 4 : 3)), long(g.chance(2, 3))}}; };
        auto focus = 1 + long(g.below(6));
        for (uint32_t i = threads ? 3 + g.below(6) : 12 + g.below(25); i > 0; --i)
        {
            auto x = g.below(14);
            if (x < 6)
            {
                p.prelude.push_back(mk(slots ? (g.chance(1, 2) ? focus : 1 + long(g.below(6))) : g.chance(1, 4) ? SRV : PUB));
            }
            else if (x < 8)
            {
                p.prelude.push_back({g.chance(1, 2) ? "offer" : "stop", {long(g.below(16))}});
            }
            else if (x < 9)
            {
                p.prelude.push_back({"destroy", {long(g.below(16))}});
            }
            else if (x < 10)
            {
                p.prelude.push_back({"discover", {}});
            }
            else if (x < 11)
            {
                p.prelude.push_back(g.chance(1, 3) ? Op{"end", {1 + long(g.below(3))}} : g.chance(1, 3) ? Op{"unblock", {1 + long(g.below(3))}} : Op{"discover", {}});
            }
            else if (slots)
            {
                p.prelude.push_back({"list", {}});
            }
            else
            {
                p.prelude.push_back(g.chance(2, 3) ? find() : g.chance(1, 2) ? Op{"news", {}} : Op{"discover", {}});
            }
        }
        if (!threads)
        {
            p.prelude.push_back({"discover", {}});
            p.prelude.push_back({"news", {}});
            p.prelude.push_back(find());
            p.prelude.push_back({"list", {}});
            return p;
        }
        p.threads.resize(3);
        for (uint32_t i = 1 + g.below(3); i > 0; --i)
        {
            p.threads[0].push_back({g.chance(1, 2) ? "offer" : "stop", {long(g.below(16))}});
        }
        for (uint32_t i = 1 + g.below(3); i > 0; --i)
        {
            p.threads[1].push_back({"discover", {}});
        }
        for (uint32_t i = 1 + g.below(3); i > 0; --i)
        {
            p.threads[2].push_back(find());
        }
        p.tail.push_back({"discover", {}});
        p.tail.push_back({"find", {-1, -1, -1, 0}});
        p.tail.push_back({"find", {-1, -1, -1, 1}});
        return p;
    };
    if (kind != "registry")
    {
        beforeRun() = [] {
            if (g_sys != nullptr)
            {
                if (!g_used)
                {
                    return;
                }
                g_sys->forget();
            }
            g_used = false;
            g_sys = new Sys(4, 128, true);
        };
    }
    explore(c, "dm " + kind, r, seed, programs, schedules, false, gen, [&](const Program&) -> Obj* {
        if (kind == "registry")
        {
            return new Registry;
        }
        return new Dm;
    });
    if (g_sys != nullptr)
    {
        g_used ? g_sys->forget() : g_sys->destroy();
    }
    removeLeftovers();
    c.write(argv[6]);
    return 0;
}
