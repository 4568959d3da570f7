// control messages and serialised values
#include "objrun.hpp"
#include "iceoryx_posh/capro/service_description.hpp"
#include "iceoryx_posh/internal/runtime/ipc_message.hpp"
#include "iceoryx_posh/popo/client_options.hpp"
#include "iceoryx_posh/popo/publisher_options.hpp"
#include "iceoryx_posh/popo/server_options.hpp"
#include "iceoryx_posh/popo/subscriber_options.hpp"
#include "iceoryx_posh/runtime/port_config_info.hpp"
#include "iceoryx_posh/version/version_info.hpp"
#include "iox/detail/serialization.hpp"
#include "iox/std_string_support.hpp"
using namespace iox;
namespace
{
using S = std::string;
using F = std::vector<S>;
S text(const V& v, size_t from, size_t n)
{
    S s;
    for (size_t i = from; i < from + n; ++i)
    {
        s += char(v[i]);
    }
    return s;
}
void put(V& v, const S& s)
{
    v.push_back(long(s.size()));
    for (auto c : s)
    {
        v.push_back(long(static_cast<unsigned char>(c)));
    }
}
V many(const F& f)
{
    V v;
    for (auto& s : f)
    {
        put(v, s);
    }
    return v;
}
F split(const V& v, size_t from)
{
    F f;
    while (from < v.size())
    {
        f.push_back(text(v, from + 1, size_t(v[from])));
        from += 1 + size_t(v[from]);
    }
    return f;
}
struct Msg : Obj
{
    runtime::IpcMessage m;
    bool prepare(int, Op& op) override
    {
        return op.o != "send" || m.isValid();
    }
    V exec(int, const Op& op) override
    {
        auto& o = op.o;
        if (o == "add")
        {
            m << text(op.a, 0, op.a.size());
        }
        else if (o == "addN")
        {
            m << op.a[0];
        }
        else if (o == "set")
        {
            m.setMessage(text(op.a, 0, op.a.size()));
        }
        else if (o == "clear")
        {
            m.clearMessage();
        }
        else if (o == "send") // what the receiver gets
        {
            runtime::IpcMessage n(m.getMessage());
            if (m.isValid() && !(n == m))
            {
                return {-1};
            }
            m = n;
        }
        else if (o == "ctor")
        {
            auto f = split(op.a, 0);
            m = f.size() == 2 ? runtime::IpcMessage({f[0], f[1]}) : runtime::IpcMessage({f[0], f[1], f[2]});
        }
        if (!m.isValid())
        {
            return {0};
        }
        V r{1, long(m.getNumberOfElements())};
        for (uint32_t i = 0; i <= m.getNumberOfElements(); ++i) // one more than there are
        {
            put(r, m.getElementAtIndex(i));
        }
        return r;
    }
};
// fields of a serialised object: strings of limited length or unsigned numbers of limited size
struct Layout
{
    virtual ~Layout() = default;
    std::vector<long> cap; // >= 0: string, -1: number
    std::vector<S> max;
    std::vector<long> keep; // longer strings are shortened
    virtual S write(const F& f) = 0;
    virtual bool read(const S& s, F& f) = 0;
    void s(long n, long k = 0)
    {
        keep.push_back(k ? k : n);
        cap.push_back(n);
        max.push_back("");
    }
    void u(const S& m)
    {
        cap.push_back(-1);
        keep.push_back(0);
        max.push_back(m);
    }
};
template <typename T>
T num(const S& s)
{
    return T(strtoull(s.c_str(), nullptr, 10));
}
template <typename T>
S str(T x)
{
    return std::to_string(uint64_t(x));
}
const S U8 = "255", U16 = "65535", U32 = "4294967295", U64 = "18446744073709551615", B = "1";
// separator of the encoding as documented
F own(const S& s)
{
    F f;
    size_t i = 0;
    while (i < s.size())
    {
        auto p = s.find(':', i);
        auto n = strtoull(s.substr(i, p - i).c_str(), nullptr, 10);
        f.push_back(s.substr(p + 1, n));
        i = p + 1 + n;
    }
    return f;
}
struct Values : Layout // std::string, uint64, uint8, string<5>, bool, uint32
{
    Values()
    {
        s(100000);
        u(U64);
        u(U8);
        s(5);
        u(B);
        u(U32);
    }
    S write(const F& f) override
    {
        return Serialization::create(f[0], num<uint64_t>(f[1]), num<uint8_t>(f[2]), string<5>(TruncateToCapacity, f[3].c_str()), num<int>(f[4]) != 0, num<uint32_t>(f[5])).toString();
    }
    bool read(const S& s, F& f) override
    {
        S a;
        uint64_t b;
        uint8_t c;
        string<5> d;
        bool e;
        uint32_t g;
        if (!Serialization(s).extract(a, b, c, d, e, g))
        {
            return false;
        }
        f = {a, str(b), str(c), S(d.c_str()), str(e), str(g)};
        return true;
    }
};
struct Service : Layout
{
    Service()
    {
        auto n = long(capro::IdString_t::capacity());
        s(n);
        s(n);
        s(n);
        u(U32);
        u(U32);
        u(U32);
        u(U32);
        u("1");
        u(str(uint32_t(capro::Interfaces::INTERFACE_END) - 1));
    }
    static capro::IdString_t id(const S& x)
    {
        return capro::IdString_t(TruncateToCapacity, x.c_str());
    }
    S write(const F& f) override
    {
        capro::ServiceDescription d(id(f[0]),
                                    id(f[1]),
                                    id(f[2]),
                                    {num<uint32_t>(f[3]), num<uint32_t>(f[4]), num<uint32_t>(f[5]), num<uint32_t>(f[6])},
                                    capro::Interfaces(num<uint16_t>(f[8])));
        if (f[7] == "1")
        {
            d.setLocal();
        }
        return static_cast<Serialization>(d).toString();
    }
    bool read(const S& s, F& f) override
    {
        auto x = capro::ServiceDescription::deserialize(Serialization(s));
        if (x.has_error())
        {
            return false;
        }
        auto& d = *x;
        auto h = d.getClassHash();
        f = {d.getServiceIDString().c_str(), d.getInstanceIDString().c_str(), d.getEventIDString().c_str(), str(h[0]), str(h[1]), str(h[2]), str(h[3]), str(uint32_t(d.getScope())), str(uint32_t(d.getSourceInterface()))};
        return true;
    }
};
NodeName_t node(const S& x)
{
    return NodeName_t(TruncateToCapacity, x.c_str());
}
using popo::ConsumerTooSlowPolicy;
using popo::QueueFullPolicy;
struct Publisher : Layout
{
    Publisher()
    {
        u(U64);
        s(long(NodeName_t::capacity()));
        u(B);
        u("1");
    }
    S write(const F& f) override
    {
        popo::PublisherOptions o;
        o.historyCapacity = num<uint64_t>(f[0]);
        o.nodeName = node(f[1]);
        o.offerOnCreate = f[2] == "1";
        o.subscriberTooSlowPolicy = ConsumerTooSlowPolicy(num<uint8_t>(f[3]));
        return o.serialize().toString();
    }
    bool read(const S& s, F& f) override
    {
        auto x = popo::PublisherOptions::deserialize(Serialization(s));
        if (x.has_error())
        {
            return false;
        }
        f = {str(x->historyCapacity), x->nodeName.c_str(), str(x->offerOnCreate), str(uint8_t(x->subscriberTooSlowPolicy))};
        return true;
    }
};
struct Subscriber : Layout
{
    Subscriber()
    {
        u(U64);
        u(U64);
        s(long(NodeName_t::capacity()));
        u(B);
        u("1");
        u(B);
    }
    S write(const F& f) override
    {
        popo::SubscriberOptions o;
        o.queueCapacity = num<uint64_t>(f[0]);
        o.historyRequest = num<uint64_t>(f[1]);
        o.nodeName = node(f[2]);
        o.subscribeOnCreate = f[3] == "1";
        o.queueFullPolicy = QueueFullPolicy(num<uint8_t>(f[4]));
        o.requiresPublisherHistorySupport = f[5] == "1";
        return o.serialize().toString();
    }
    bool read(const S& s, F& f) override
    {
        auto x = popo::SubscriberOptions::deserialize(Serialization(s));
        if (x.has_error())
        {
            return false;
        }
        f = {str(x->queueCapacity), str(x->historyRequest), x->nodeName.c_str(), str(x->subscribeOnCreate), str(uint8_t(x->queueFullPolicy)), str(x->requiresPublisherHistorySupport)};
        return true;
    }
};
struct Server : Layout
{
    Server()
    {
        u(U64);
        s(long(NodeName_t::capacity()));
        u(B);
        u("1");
        u("1");
    }
    S write(const F& f) override
    {
        popo::ServerOptions o;
        o.requestQueueCapacity = num<uint64_t>(f[0]);
        o.nodeName = node(f[1]);
        o.offerOnCreate = f[2] == "1";
        o.requestQueueFullPolicy = QueueFullPolicy(num<uint8_t>(f[3]));
        o.clientTooSlowPolicy = ConsumerTooSlowPolicy(num<uint8_t>(f[4]));
        return o.serialize().toString();
    }
    bool read(const S& s, F& f) override
    {
        auto x = popo::ServerOptions::deserialize(Serialization(s));
        if (x.has_error())
        {
            return false;
        }
        f = {str(x->requestQueueCapacity), x->nodeName.c_str(), str(x->offerOnCreate), str(uint8_t(x->requestQueueFullPolicy)), str(uint8_t(x->clientTooSlowPolicy))};
        return true;
    }
};
struct Client : Layout
{
    Client()
    {
        u(U64);
        s(long(NodeName_t::capacity()));
        u(B);
        u("1");
        u("1");
    }
    S write(const F& f) override
    {
        popo::ClientOptions o;
        o.responseQueueCapacity = num<uint64_t>(f[0]);
        o.nodeName = node(f[1]);
        o.connectOnCreate = f[2] == "1";
        o.responseQueueFullPolicy = QueueFullPolicy(num<uint8_t>(f[3]));
        o.serverTooSlowPolicy = ConsumerTooSlowPolicy(num<uint8_t>(f[4]));
        return o.serialize().toString();
    }
    bool read(const S& s, F& f) override
    {
        auto x = popo::ClientOptions::deserialize(Serialization(s));
        if (x.has_error())
        {
            return false;
        }
        f = {str(x->responseQueueCapacity), x->nodeName.c_str(), str(x->connectOnCreate), str(uint8_t(x->responseQueueFullPolicy)), str(uint8_t(x->serverTooSlowPolicy))};
        return true;
    }
};
struct Version : Layout
{
    Version()
    {
        u(U16);
        u(U16);
        u(U16);
        u(U16);
        s(100, long(version::BuildDateString_t::capacity()));
        s(100, long(version::CommitIdString_t::capacity()));
    }
    S write(const F& f) override
    {
        version::VersionInfo v(num<uint16_t>(f[0]), num<uint16_t>(f[1]), num<uint16_t>(f[2]), num<uint16_t>(f[3]), version::BuildDateString_t(TruncateToCapacity, f[4].c_str()), version::CommitIdString_t(TruncateToCapacity, f[5].c_str()));
        return static_cast<Serialization>(v).toString();
    }
    bool read(const S& s, F& f) override
    {
        version::VersionInfo v{Serialization(s)};
        if (!v.isValid())
        {
            return false;
        }
        f = own(static_cast<Serialization>(v).toString());
        return true;
    }
};
struct PortConfig : Layout
{
    PortConfig()
    {
        u(U32);
        u(U32);
        u(U32);
    }
    S write(const F& f) override
    {
        return static_cast<Serialization>(runtime::PortConfigInfo(num<uint32_t>(f[0]), num<uint32_t>(f[1]), num<uint32_t>(f[2]))).toString();
    }
    bool read(const S& s, F& f) override
    {
        runtime::PortConfigInfo x{Serialization(s)};
        f = {str(x.portType), str(x.memoryInfo.deviceId), str(x.memoryInfo.memoryType)};
        return true;
    }
};
struct Ser : Obj
{
    std::unique_ptr<Layout> l;
    S enc;
    V exec(int, const Op& op) override
    {
        auto& o = op.o;
        auto& a = op.a;
        if (o == "write") // the encoding is what the decoder understands: only the round trip is promised
        {
            enc = l->write(split(a, 0));
            return {1};
        }
        if (o == "read")
        {
            F f;
            if (!l->read(enc, f))
            {
                return {0};
            }
            V r{1};
            auto m = many(f);
            r.insert(r.end(), m.begin(), m.end());
            return r;
        }
        if (o == "nth")
        {
            S x;
            if (!Serialization(enc).getNth(unsigned(a[0]), x))
            {
                return {0};
            }
            V r{1};
            put(r, x);
            return r;
        }
        if (o == "raw")
        {
            enc = text(a, 0, a.size());
            return {1};
        }
        if (o == "remove") // position, count
        {
            if (size_t(a[0]) < enc.size())
            {
                enc.erase(size_t(a[0]), size_t(a[1]));
            }
            return {1};
        }
        if (o == "insert")
        {
            enc.insert(std::min(size_t(a[0]), enc.size()), text(a, 1, a.size() - 1));
            return {1};
        }
        exit(2);
    }
};
} // namespace
int main(int argc, char** argv)
{
    if (argc < 6)
    {
        return 2;
    }
    std::string kind = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    int programs = atoi(argv[3]);
    Collector c{size_t(atoi(argv[4]))};
    installErrorHandler();
    Rng r(seed);
    std::function<Obj*()> make;
    std::vector<std::function<Layout*()>> layouts{[] { return new Values; },
                                                  [] { return new Service; },
                                                  [] { return new Publisher; },
                                                  [] { return new Subscriber; },
                                                  [] { return new Server; },
                                                  [] { return new Client; },
                                                  [] { return new Version; },
                                                  [] { return new PortConfig; }};
    auto gen = [&](Rng& g) {
        Program p;
        static const char chars[] = "aab:,0123459-_\x7f\xc3";
        auto word = [&](uint32_t max, bool comma) {
            S s;
            for (uint32_t k = g.below(max + 1); k > 0; --k)
            {
                char ch = chars[g.below(sizeof chars - 1)];
                s += ch == ',' && !comma ? 'c' : ch;
            }
            return s;
        };
        auto codes = [](const S& s) {
            V v;
            for (auto ch : s)
            {
                v.push_back(long(static_cast<unsigned char>(ch)));
            }
            return v;
        };
        if (kind == "msg")
        {
            p.cfg = "{\"kind\":\"msg\",\"fields\":[]}";
            make = [] { return new Msg; };
            for (uint32_t i = 5 + g.below(15); i > 0; --i)
            {
                auto x = g.below(12);
                if (x < 6)
                {
                    p.prelude.push_back({"add", codes(word(g.chance(1, 6) ? 20 : 4, g.chance(1, 12)))});
                }
                else if (x < 7)
                {
                    p.prelude.push_back({"addN", {long(g.below(100000)) - 20000}});
                }
                else if (x < 9)
                {
                    p.prelude.push_back({"set", codes(word(8, true) + (g.chance(2, 3) ? "," : ""))});
                }
                else if (x < 10)
                {
                    p.prelude.push_back({"clear", {}});
                }
                else if (x < 11)
                {
                    p.prelude.push_back({"send", {}});
                }
                else
                {
                    F f{word(5, false), word(5, false)};
                    if (g.chance(1, 2))
                    {
                        f.push_back(word(5, g.chance(1, 5)));
                    }
                    p.prelude.push_back({"ctor", many(f)});
                }
            }
            return p;
        }
        auto which = g.below(uint32_t(layouts.size()));
        std::shared_ptr<Layout> l(layouts[which]());
        S fields = "[";
        for (size_t i = 0; i < l->cap.size(); ++i)
        {
            fields += fmt("%s{\"n\":%ld,\"k\":%ld,\"m\":%s}", i ? "," : "", l->cap[i], l->keep[i], jseq(codes(l->max[i])).c_str());
        }
        p.cfg = "{\"kind\":\"ser\",\"fields\":" + fields + "]}";
        auto mk = layouts[which];
        make = [mk] {
            auto s = new Ser;
            s->l.reset(mk());
            return s;
        };
        auto number = [&](const S& max) {
            auto m = strtoull(max.c_str(), nullptr, 10);
            auto x = g.chance(1, 4) ? m : g.chance(1, 4) ? 0 : g.chance(1, 3) && m > 3 ? m - 1 : (uint64_t(g.next()) % (m == ~0ull ? m : m + 1)) >> (g.chance(1, 2) && m > 1000 ? g.below(30) : 0);
            return std::to_string(x);
        };
        for (uint32_t round = 1 + g.below(3); round > 0; --round)
        {
            F f;
            for (size_t i = 0; i < l->cap.size(); ++i)
            {
                auto n = l->cap[i];
                f.push_back(n < 0 ? number(l->max[i]) : g.chance(1, 8) && n <= 100 ? S(size_t(l->keep[i]), 'z') : word(uint32_t(std::min<long>(n, 6)), true));
            }
            p.prelude.push_back({"write", many(f)});
            p.prelude.push_back({"read", {}});
            p.prelude.push_back({"nth", {long(g.below(uint32_t(f.size() + 1)))}});
            if (which == 7) // reports no errors
            {
                continue;
            }
            S enc;
            for (auto& x : f)
            {
                enc += std::to_string(x.size()) + ":" + x;
            }
            auto at = [&] { return long(g.below(uint32_t(enc.size()))); };
            for (uint32_t k = g.below(4); k > 0; --k)
            {
                switch (g.below(6))
                {
                case 0:
                    p.prelude.push_back({"remove", {at(), 1}});
                    break;
                case 1:
                    p.prelude.push_back({"remove", {at(), 1000}});
                    break;
                case 2:
                    p.prelude.push_back({"insert", [&] {
                                             V v = codes(S(1, "0123456789:-a"[g.below(13)]));
                                             v.insert(v.begin(), at());
                                             return v;
                                         }()});
                    break;
                case 3:
                {
                    auto pos = at();
                    p.prelude.push_back({"remove", {pos, 1}});
                    V v = codes(S(1, "0123456789:-a"[g.below(13)]));
                    v.insert(v.begin(), pos);
                    p.prelude.push_back({"insert", v});
                    break;
                }
                case 4: // huge lengths
                {
                    V v = codes(std::to_string(0ull - g.below(40)));
                    v.insert(v.begin(), g.chance(1, 2) ? 0 : at());
                    p.prelude.push_back({"remove", {v[0], 1 + long(g.below(2))}});
                    p.prelude.push_back({"insert", v});
                    break;
                }
                default: // a huge length before part of a message that repeats itself
                {
                    auto big = std::to_string(0ull - (1 + g.below(10)));
                    p.prelude.push_back({"raw", codes(big + ":" + S(g.below(8), 'a') + (g.chance(1, 2) ? enc : S()))});
                }
                }
                p.prelude.push_back({"read", {}});
                p.prelude.push_back({"nth", {long(g.below(uint32_t(f.size() + 1)))}});
            }
        }
        return p;
    };
    explore(c, "codec " + kind, r, seed, programs, 0, false, gen, [&](const Program&) { return make(); });
    c.write(argv[5]);
    return 0;
}
