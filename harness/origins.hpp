// things that can be attached to a WaitSet or Listener: 0, 1 user triggers; 2, 3 subscribers; 4 server; 5 client
#ifndef ORIGINS_HPP
#define ORIGINS_HPP
#include "objrun.hpp"
#include "sys.hpp"
namespace org
{
using namespace sys;
struct Data
{
    long x;
};
using Pub = popo::Publisher<Data>;
using Sub = popo::Subscriber<Data>;
using Cli = popo::Client<Data, Data>;
using Srv = popo::Server<Data, Data>;
inline Sys*& theSys()
{
    static Sys* s = nullptr;
    return s;
}
inline void renewSys(bool forget)
{
    static int n = 0;
    if (theSys() && (forget || ++n > 300))
    {
        forget ? theSys()->forget() : theSys()->destroy();
        delete theSys();
        theSys() = nullptr;
        n = 0;
    }
    if (!theSys())
    {
        theSys() = new Sys(60, 160);
    }
}
struct World
{
    std::unique_ptr<popo::UserTrigger> tr[2];
    std::unique_ptr<Pub> pub[2];
    std::unique_ptr<Sub> sub[2];
    std::unique_ptr<Cli> cli4, cli5;
    std::unique_ptr<Srv> srv4, srv5;
    std::set<long> used;
    template <typename T, typename O, typename A>
    T* mk(A acquire, int svc, const O& o)
    {
        void* port = nullptr;
        acquire(service(svc), o).and_then([&](auto& x) { port = x; });
        if (!port)
        {
            fprintf(stderr, "no port\n");
            exit(3);
        }
        Rt::me().next = port;
        return new T(service(svc), o);
    }
    explicit World(const std::set<long>& u)
        : used(u)
    {
        auto& s = *theSys();
        for (auto k : used)
        {
            make(k);
        }
        s.pm->doDiscovery();
        s.pm->doDiscovery();
    }
    void make(long k)
    {
        auto& s = *theSys();
        if (k < 2)
        {
            tr[k].reset(new popo::UserTrigger);
        }
        else if (k < 4)
        {
            auto i = k - 2;
            popo::PublisherOptions po;
            popo::SubscriberOptions so;
            so.queueCapacity = 3;
            if (!pub[i])
            {
                pub[i].reset(mk<Pub>([&](auto sd, auto& o) { return s.pm->acquirePublisherPortData(sd, o, procName(1), s.payload, {}); }, int(k), po));
            }
            sub[i].reset(mk<Sub>([&](auto sd, auto& o) { return s.pm->acquireSubscriberPortData(sd, o, procName(1), {}); }, int(k), so));
        }
        else
        {
            popo::ClientOptions co;
            co.responseQueueCapacity = 3;
            popo::ServerOptions so;
            so.requestQueueCapacity = 3;
            (k == 4 ? srv4 : srv5).reset(mk<Srv>([&](auto sd, auto& o) { return s.pm->acquireServerPortData(sd, o, procName(1), s.payload, {}); }, int(k), so));
            (k == 4 ? cli4 : cli5).reset(mk<Cli>([&](auto sd, auto& o) { return s.pm->acquireClientPortData(sd, o, procName(1), s.payload, {}); }, int(k), co));
        }
    }
    // calls f with the origin (and its event and state enumerators where it has them)
    template <typename F>
    void with(long k, F f)
    {
        if (k < 2)
        {
            f(*tr[k]);
        }
        else if (k < 4)
        {
            f(*sub[k - 2], popo::SubscriberEvent::DATA_RECEIVED, popo::SubscriberState::HAS_DATA);
        }
        else if (k == 4)
        {
            f(*srv4, popo::ServerEvent::REQUEST_RECEIVED, popo::ServerState::HAS_REQUEST);
        }
        else
        {
            f(*cli5, popo::ClientEvent::RESPONSE_RECEIVED, popo::ClientState::HAS_RESPONSE);
        }
    }
    const void* ptr(long k)
    {
        const void* p = nullptr;
        with(k, [&](auto& o, auto...) { p = &o; });
        return p;
    }
    void fire(long k)
    {
        if (k < 2)
        {
            tr[k]->trigger();
        }
        else if (k < 4)
        {
            fib::setQuiet(true);
            auto l = pub[k - 2]->loan();
            fib::setQuiet(false);
            l.value().publish();
        }
        else if (k == 4)
        {
            fib::setQuiet(true);
            auto l = cli4->loan();
            fib::setQuiet(false);
            IOX_DISCARD_RESULT(cli4->send(std::move(l.value())));
        }
        else
        {
            fib::setQuiet(true);
            auto q = cli5->loan();
            IOX_DISCARD_RESULT(cli5->send(std::move(q.value())));
            auto req = srv5->take();
            auto l = srv5->loan(req.value());
            fib::setQuiet(false);
            IOX_DISCARD_RESULT(srv5->send(std::move(l.value())));
        }
    }
    bool take(long k)
    {
        return k < 4 ? sub[k - 2]->take().has_value() : k == 4 ? srv4->take().has_value() : cli5->take().has_value();
    }
    template <typename T>
    static void end(std::unique_ptr<T>& p)
    {
        // stays reachable for callbacks that run meanwhile
        delete p.get();
        p.release();
    }
    void kill(long k)
    {
        if (k < 2)
        {
            end(tr[k]);
        }
        else if (k < 4)
        {
            end(sub[k - 2]);
        }
        else
        {
            end(k == 4 ? cli4 : cli5);
            end(k == 4 ? srv4 : srv5);
        }
    }
    void renew(long k)
    {
        make(k);
        theSys()->pm->doDiscovery();
        theSys()->pm->doDiscovery();
    }
    ~World()
    {
        for (auto& x : tr)
        {
            x.reset();
        }
        for (auto& x : sub)
        {
            x.reset();
        }
        for (auto& x : pub)
        {
            x.reset();
        }
        cli4.reset();
        cli5.reset();
        srv4.reset();
        srv5.reset();
        theSys()->pm->doDiscovery();
    }
};
} // namespace org
#endif
