// the C functions in the shape of the C++ classes the harnesses use: the same programs then run through the C API and
// their histories have to satisfy the same specifications
#ifndef CAPI_HPP
#define CAPI_HPP
#include "sys.hpp"
#include "iceoryx_binding_c/internal/c2cpp_binding.h"
#include "iceoryx_binding_c/internal/cpp2c_subscriber.hpp"
extern "C" {
#include "iceoryx_binding_c/chunk.h"
#include "iceoryx_binding_c/client.h"
#include "iceoryx_binding_c/enums.h"
#include "iceoryx_binding_c/listener.h"
#include "iceoryx_binding_c/notification_info.h"
#include "iceoryx_binding_c/publisher.h"
#include "iceoryx_binding_c/request_header.h"
#include "iceoryx_binding_c/response_header.h"
#include "iceoryx_binding_c/server.h"
#include "iceoryx_binding_c/service_description.h"
#include "iceoryx_binding_c/subscriber.h"
#include "iceoryx_binding_c/types.h"
#include "iceoryx_binding_c/user_trigger.h"
#include "iceoryx_binding_c/wait_set.h"
}
namespace capi
{
using namespace iox;
inline std::function<void(const char*)>& onBad()
{
    static std::function<void(const char*)> f;
    return f;
}
inline void expect(bool b, const char* what)
{
    if (!b && onBad())
    {
        fib::Quiet q;
        onBad()(what);
    }
}
// user memory around a storage is not touched
template <typename S>
struct Storage
{
    uint64_t before[2]{0xA5A5A5A5A5A5A5A5ull, 0xA5A5A5A5A5A5A5A5ull};
    S s;
    uint64_t after[2]{0x5A5A5A5A5A5A5A5Aull, 0x5A5A5A5A5A5A5A5Aull};
    void check()
    {
        expect(before[0] == 0xA5A5A5A5A5A5A5A5ull && before[1] == before[0] && after[0] == 0x5A5A5A5A5A5A5A5Aull && after[1] == after[0], "storage overrun");
    }
};
inline std::map<const void*, const void*>& shims()
{
    static std::map<const void*, const void*> m;
    return m;
}
template <typename T>
T* shim(const void* h)
{
    fib::Quiet q;
    auto it = shims().find(h);
    return it == shims().end() ? nullptr : static_cast<T*>(const_cast<void*>(it->second));
}
inline void name(const void* h, const void* o)
{
    fib::Quiet q;
    o ? void(shims()[h] = o) : void(shims().erase(h));
}
inline bool same(const iox_service_description_t& c, const capro::ServiceDescription& d)
{
    return std::string(c.serviceString) == d.getServiceIDString().c_str() && std::string(c.instanceString) == d.getInstanceIDString().c_str()
           && std::string(c.eventString) == d.getEventIDString().c_str();
}
// the options in C; `defaults` are what the init function has to produce
template <typename P>
iox_ConsumerTooSlowPolicy slow(P p)
{
    return p == popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER ? ConsumerTooSlowPolicy_WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy_DISCARD_OLDEST_DATA;
}
inline iox_QueueFullPolicy full(popo::QueueFullPolicy p)
{
    return p == popo::QueueFullPolicy::BLOCK_PRODUCER ? QueueFullPolicy_BLOCK_PRODUCER : QueueFullPolicy_DISCARD_OLDEST_DATA;
}
inline popo::AllocationError allocError(iox_AllocationResult r)
{
    return r == AllocationResult_RUNNING_OUT_OF_CHUNKS                                ? popo::AllocationError::RUNNING_OUT_OF_CHUNKS
           : r == AllocationResult_TOO_MANY_CHUNKS_ALLOCATED_IN_PARALLEL ? popo::AllocationError::TOO_MANY_CHUNKS_ALLOCATED_IN_PARALLEL
                                                                         : popo::AllocationError::UNDEFINED_ERROR;
}
inline const mepoo::ChunkHeader* header(const void* p)
{
    auto c = iox_chunk_header_from_user_payload_const(p);
    expect(iox_chunk_header_to_user_payload_const(c) == p, "chunk header");
    expect(iox_chunk_header_from_user_payload(const_cast<void*>(p)) == c && iox_chunk_header_to_user_payload(const_cast<iox_chunk_header_t*>(c)) == p, "chunk header");
    return reinterpret_cast<const mepoo::ChunkHeader*>(c);
}

// a loaned or received chunk; gives it back unless it was sent
template <typename T, typename Owner>
struct Ref
{
    Owner* o{nullptr};
    T* p{nullptr};
    Ref(Owner& x, T* y)
        : o(&x)
        , p(y)
    {
    }
    Ref(Ref&& r) noexcept
        : o(r.o)
        , p(r.p)
    {
        r.p = nullptr;
    }
    Ref& operator=(Ref&& r) noexcept
    {
        reset();
        o = r.o;
        p = r.p;
        r.p = nullptr;
        return *this;
    }
    ~Ref()
    {
        reset();
    }
    void reset()
    {
        auto q = p;
        p = nullptr;
        if (q)
        {
            o->giveBack(q);
        }
    }
    T* release()
    {
        auto q = p;
        p = nullptr;
        return q;
    }
    T* operator->()
    {
        return p;
    }
    const T* operator->() const
    {
        return p;
    }
    const mepoo::ChunkHeader* getChunkHeader() const
    {
        return header(p);
    }
};
template <typename D>
struct Publisher;
template <typename D>
struct Subscriber;
template <typename D>
struct SampleOf
{
    struct type : Ref<D, Publisher<D>>
    {
        using Ref<D, Publisher<D>>::Ref;
        void publish()
        {
            iox_pub_publish_chunk(this->o->h, this->release());
        }
    };
};
template <typename D>
struct SampleOf<const D>
{
    using type = Ref<const D, Subscriber<D>>;
};
template <typename D>
using Sample = typename SampleOf<D>::type;

template <typename D>
struct Publisher
{
    Storage<iox_pub_storage_t> st;
    iox_pub_t h{nullptr};
    Publisher(const capro::ServiceDescription& d, const popo::PublisherOptions& x = {})
    {
        popo::PublisherOptions def;
        iox_pub_options_t o;
        memset(&o, 0xcc, sizeof o);
        expect(!iox_pub_options_is_initialized(&o), "uninitialised options");
        iox_pub_options_init(&o);
        expect(iox_pub_options_is_initialized(&o) && o.historyCapacity == def.historyCapacity && o.offerOnCreate == def.offerOnCreate && o.nodeName == nullptr
                   && o.subscriberTooSlowPolicy == slow(def.subscriberTooSlowPolicy),
               "publisher options");
        o.historyCapacity = x.historyCapacity;
        o.offerOnCreate = x.offerOnCreate;
        o.subscriberTooSlowPolicy = slow(x.subscriberTooSlowPolicy);
        o.nodeName = "node";
        sys::Rt::me().seen = [&](const capro::ServiceDescription& e, const void* v) {
            auto& y = *static_cast<const popo::PublisherOptions*>(v);
            expect(e == d && y.historyCapacity == x.historyCapacity && y.offerOnCreate == x.offerOnCreate && y.subscriberTooSlowPolicy == x.subscriberTooSlowPolicy
                       && y.nodeName == NodeName_t("node"),
                   "publisher options");
        };
        h = iox_pub_init(&st.s, d.getServiceIDString().c_str(), d.getInstanceIDString().c_str(), d.getEventIDString().c_str(), &o);
        sys::Rt::me().seen = nullptr;
        st.check();
        expect(same(iox_pub_get_service_description(h), d), "publisher description");
    }
    ~Publisher()
    {
        iox_pub_deinit(h);
        st.check();
    }
    expected<Sample<D>, popo::AllocationError> loan()
    {
        void* p = nullptr;
        auto r = iox_pub_loan_aligned_chunk(h, &p, sizeof(D), alignof(D));
        if (r != AllocationResult_SUCCESS)
        {
            return err(allocError(r));
        }
        fib::Quiet q;
        return ok(Sample<D>(*this, new (p) D()));
    }
    void giveBack(D* p)
    {
        iox_pub_release_chunk(h, p);
    }
    void offer()
    {
        iox_pub_offer(h);
    }
    void stopOffer()
    {
        iox_pub_stop_offer(h);
    }
    bool isOffered()
    {
        return iox_pub_is_offered(h);
    }
    bool hasSubscribers()
    {
        return iox_pub_has_subscribers(h);
    }
};
template <typename D>
struct Subscriber
{
    Storage<iox_sub_storage_t> st;
    iox_sub_t h{nullptr};
    Subscriber(const capro::ServiceDescription& d, const popo::SubscriberOptions& x = {})
    {
        popo::SubscriberOptions def;
        iox_sub_options_t o;
        memset(&o, 0xcc, sizeof o);
        expect(!iox_sub_options_is_initialized(&o), "uninitialised options");
        iox_sub_options_init(&o);
        expect(iox_sub_options_is_initialized(&o) && o.queueCapacity == def.queueCapacity && o.historyRequest == def.historyRequest && o.nodeName == nullptr
                   && o.subscribeOnCreate == def.subscribeOnCreate && o.queueFullPolicy == full(def.queueFullPolicy)
                   && o.requirePublisherHistorySupport == def.requiresPublisherHistorySupport,
               "subscriber options");
        o.queueCapacity = x.queueCapacity;
        o.historyRequest = x.historyRequest;
        o.subscribeOnCreate = x.subscribeOnCreate;
        o.queueFullPolicy = full(x.queueFullPolicy);
        o.requirePublisherHistorySupport = x.requiresPublisherHistorySupport;
        o.nodeName = "node";
        sys::Rt::me().seen = [&](const capro::ServiceDescription& e, const void* v) {
            auto& y = *static_cast<const popo::SubscriberOptions*>(v);
            expect(e == d && y.queueCapacity == x.queueCapacity && y.historyRequest == x.historyRequest && y.subscribeOnCreate == x.subscribeOnCreate
                       && y.queueFullPolicy == x.queueFullPolicy && y.requiresPublisherHistorySupport == x.requiresPublisherHistorySupport
                       && y.nodeName == NodeName_t("node"),
                   "subscriber options");
        };
        h = iox_sub_init(&st.s, d.getServiceIDString().c_str(), d.getInstanceIDString().c_str(), d.getEventIDString().c_str(), &o);
        sys::Rt::me().seen = nullptr;
        st.check();
        name(h, this);
        expect(same(iox_sub_get_service_description(h), d), "subscriber description");
    }
    ~Subscriber()
    {
        iox_sub_deinit(h);
        name(h, nullptr);
        st.check();
    }
    expected<Sample<const D>, popo::ChunkReceiveResult> take()
    {
        const void* p = nullptr;
        auto r = iox_sub_take_chunk(h, &p);
        if (r != ChunkReceiveResult_SUCCESS)
        {
            expect(r == ChunkReceiveResult_NO_CHUNK_AVAILABLE || r == ChunkReceiveResult_TOO_MANY_CHUNKS_HELD_IN_PARALLEL, "take result");
            return err(r == ChunkReceiveResult_NO_CHUNK_AVAILABLE ? popo::ChunkReceiveResult::NO_CHUNK_AVAILABLE
                                                                  : popo::ChunkReceiveResult::TOO_MANY_CHUNKS_HELD_IN_PARALLEL);
        }
        return ok(Sample<const D>(*this, static_cast<const D*>(p)));
    }
    void giveBack(const D* p)
    {
        iox_sub_release_chunk(h, p);
    }
    void subscribe()
    {
        iox_sub_subscribe(h);
    }
    void unsubscribe()
    {
        iox_sub_unsubscribe(h);
    }
    void releaseQueuedData()
    {
        iox_sub_release_queued_chunks(h);
    }
    bool hasMissedData()
    {
        return iox_sub_has_lost_chunks(h);
    }
    bool hasData()
    {
        return iox_sub_has_chunks(h);
    }
    SubscribeState getSubscriptionState()
    {
        auto s = iox_sub_get_subscription_state(h);
        expect(s != SubscribeState_UNDEFINED_ERROR, "subscription state");
        return s == SubscribeState_SUBSCRIBED ? SubscribeState::SUBSCRIBED : SubscribeState::NOT_SUBSCRIBED;
    }
};

// ------------------------------------------------------------------------------------------ request/response
struct ReqHeader
{
    iox_const_request_header_t h;
    void setSequenceId(int64_t i)
    {
        iox_request_header_set_sequence_id(const_cast<iox_request_header_t>(h), i);
    }
    int64_t getSequenceId() const
    {
        auto i = iox_request_header_get_sequence_id_const(h);
        expect(i == iox_request_header_get_sequence_id(const_cast<iox_request_header_t>(h)), "sequence id");
        return i;
    }
};
struct ResHeader
{
    iox_const_response_header_t h;
    int64_t getSequenceId() const
    {
        auto i = iox_response_header_get_sequence_id_const(h);
        expect(i == iox_response_header_get_sequence_id(const_cast<iox_response_header_t>(h)), "sequence id");
        return i;
    }
};
template <typename T, typename Owner>
struct ReqRef : Ref<T, Owner>
{
    using Ref<T, Owner>::Ref;
    ReqHeader getRequestHeader()
    {
        auto h = iox_request_header_from_payload_const(this->p);
        expect(iox_request_header_get_user_payload_const(h) == this->p
                   && reinterpret_cast<const mepoo::ChunkHeader*>(iox_request_header_get_chunk_header_const(h)) == header(this->p),
               "request header");
        return {h};
    }
};
template <typename T, typename Owner>
struct ResRef : Ref<T, Owner>
{
    using Ref<T, Owner>::Ref;
    ResHeader getResponseHeader()
    {
        auto h = iox_response_header_from_payload_const(this->p);
        expect(iox_response_header_get_user_payload_const(h) == this->p
                   && reinterpret_cast<const mepoo::ChunkHeader*>(iox_response_header_get_chunk_header_const(h)) == header(this->p),
               "response header");
        // every second response was marked as an error by the server
        expect(iox_response_header_has_server_error_const(h) == (long(iox_response_header_get_sequence_id_const(h)) % 2 == 1), "server error");
        return {h};
    }
};
template <typename A, typename B>
struct Client
{
    struct Out
    {
        Client* c;
        void giveBack(const void* p)
        {
            iox_client_release_request(c->h, const_cast<void*>(p));
        }
    };
    struct In
    {
        Client* c;
        void giveBack(const void* p)
        {
            iox_client_release_response(c->h, p);
        }
    };
    using Req = ReqRef<A, Out>;
    using Res = ResRef<const B, In>;
    Out out{this};
    In in{this};
    Storage<iox_client_storage_t> st;
    iox_client_t h{nullptr};
    Client(const capro::ServiceDescription& d, const popo::ClientOptions& x = {})
    {
        popo::ClientOptions def;
        iox_client_options_t o;
        memset(&o, 0xcc, sizeof o);
        expect(!iox_client_options_is_initialized(&o), "uninitialised options");
        iox_client_options_init(&o);
        expect(iox_client_options_is_initialized(&o) && o.responseQueueCapacity == def.responseQueueCapacity && o.connectOnCreate == def.connectOnCreate
                   && o.responseQueueFullPolicy == full(def.responseQueueFullPolicy) && o.serverTooSlowPolicy == slow(def.serverTooSlowPolicy) && o.nodeName[0] == 0,
               "client options");
        o.responseQueueCapacity = x.responseQueueCapacity;
        o.connectOnCreate = x.connectOnCreate;
        o.responseQueueFullPolicy = full(x.responseQueueFullPolicy);
        o.serverTooSlowPolicy = slow(x.serverTooSlowPolicy);
        strcpy(o.nodeName, "node");
        sys::Rt::me().seen = [&](const capro::ServiceDescription& e, const void* v) {
            auto& y = *static_cast<const popo::ClientOptions*>(v);
            expect(e == d && y.responseQueueCapacity == x.responseQueueCapacity && y.connectOnCreate == x.connectOnCreate
                       && y.responseQueueFullPolicy == x.responseQueueFullPolicy && y.serverTooSlowPolicy == x.serverTooSlowPolicy
                       && y.nodeName == NodeName_t("node"),
                   "client options");
        };
        h = iox_client_init(&st.s, d.getServiceIDString().c_str(), d.getInstanceIDString().c_str(), d.getEventIDString().c_str(), &o);
        sys::Rt::me().seen = nullptr;
        st.check();
        name(h, this);
        expect(same(iox_client_get_service_description(h), d), "client description");
    }
    ~Client()
    {
        iox_client_deinit(h);
        name(h, nullptr);
        st.check();
    }
    expected<Req, popo::AllocationError> loan()
    {
        void* p = nullptr;
        auto r = iox_client_loan_aligned_request(h, &p, sizeof(A), alignof(A));
        if (r != AllocationResult_SUCCESS)
        {
            return err(allocError(r));
        }
        fib::Quiet q;
        return ok(Req(out, new (p) A()));
    }
    expected<void, popo::ClientSendError> send(Req&& q)
    {
        auto r = iox_client_send(h, q.release());
        expect(r != ClientSendResult_UNDEFINED_ERROR && r != ClientSendResult_INVALID_REQUEST, "send result");
        if (r != ClientSendResult_SUCCESS)
        {
            return err(r == ClientSendResult_NO_CONNECT_REQUESTED ? popo::ClientSendError::NO_CONNECT_REQUESTED : popo::ClientSendError::SERVER_NOT_AVAILABLE);
        }
        return ok();
    }
    expected<Res, popo::ChunkReceiveResult> take()
    {
        const void* p = nullptr;
        auto r = iox_client_take_response(h, &p);
        if (r != ChunkReceiveResult_SUCCESS)
        {
            expect(r == ChunkReceiveResult_NO_CHUNK_AVAILABLE || r == ChunkReceiveResult_TOO_MANY_CHUNKS_HELD_IN_PARALLEL, "take result");
            return err(r == ChunkReceiveResult_NO_CHUNK_AVAILABLE ? popo::ChunkReceiveResult::NO_CHUNK_AVAILABLE
                                                                  : popo::ChunkReceiveResult::TOO_MANY_CHUNKS_HELD_IN_PARALLEL);
        }
        return ok(Res(in, static_cast<const B*>(p)));
    }
    void connect()
    {
        iox_client_connect(h);
    }
    void disconnect()
    {
        iox_client_disconnect(h);
    }
    void releaseQueuedResponses()
    {
        iox_client_release_queued_responses(h);
    }
    bool hasMissedResponses()
    {
        return iox_client_has_missed_responses(h);
    }
    bool hasResponses()
    {
        return iox_client_has_responses(h);
    }
    ConnectionState getConnectionState()
    {
        return iox_client_get_connection_state(h) == ConnectionState_CONNECTED ? ConnectionState::CONNECTED : ConnectionState::NOT_CONNECTED;
    }
};
template <typename A, typename B>
struct Server
{
    struct Out
    {
        Server* c;
        void giveBack(const void* p)
        {
            iox_server_release_response(c->h, const_cast<void*>(p));
        }
    };
    struct In
    {
        Server* c;
        void giveBack(const void* p)
        {
            iox_server_release_request(c->h, p);
        }
    };
    using Req = ReqRef<const A, In>;
    using Res = ResRef<B, Out>;
    Out out{this};
    In in{this};
    Storage<iox_server_storage_t> st;
    iox_server_t h{nullptr};
    Server(const capro::ServiceDescription& d, const popo::ServerOptions& x = {})
    {
        popo::ServerOptions def;
        iox_server_options_t o;
        memset(&o, 0xcc, sizeof o);
        expect(!iox_server_options_is_initialized(&o), "uninitialised options");
        iox_server_options_init(&o);
        expect(iox_server_options_is_initialized(&o) && o.requestQueueCapacity == def.requestQueueCapacity && o.offerOnCreate == def.offerOnCreate
                   && o.requestQueueFullPolicy == full(def.requestQueueFullPolicy) && o.clientTooSlowPolicy == slow(def.clientTooSlowPolicy) && o.nodeName[0] == 0,
               "server options");
        o.requestQueueCapacity = x.requestQueueCapacity;
        o.offerOnCreate = x.offerOnCreate;
        o.requestQueueFullPolicy = full(x.requestQueueFullPolicy);
        o.clientTooSlowPolicy = slow(x.clientTooSlowPolicy);
        strcpy(o.nodeName, "node");
        sys::Rt::me().seen = [&](const capro::ServiceDescription& e, const void* v) {
            auto& y = *static_cast<const popo::ServerOptions*>(v);
            expect(e == d && y.requestQueueCapacity == x.requestQueueCapacity && y.offerOnCreate == x.offerOnCreate
                       && y.requestQueueFullPolicy == x.requestQueueFullPolicy && y.clientTooSlowPolicy == x.clientTooSlowPolicy
                       && y.nodeName == NodeName_t("node"),
                   "server options");
        };
        h = iox_server_init(&st.s, d.getServiceIDString().c_str(), d.getInstanceIDString().c_str(), d.getEventIDString().c_str(), &o);
        sys::Rt::me().seen = nullptr;
        st.check();
        name(h, this);
        expect(same(iox_server_get_service_description(h), d), "server description");
    }
    ~Server()
    {
        iox_server_deinit(h);
        name(h, nullptr);
        st.check();
    }
    expected<Req, popo::ServerRequestResult> take()
    {
        const void* p = nullptr;
        auto r = iox_server_take_request(h, &p);
        if (r != ServerRequestResult_SUCCESS)
        {
            return err(r == ServerRequestResult_NO_PENDING_REQUESTS                                ? popo::ServerRequestResult::NO_PENDING_REQUESTS
                       : r == ServerRequestResult_TOO_MANY_REQUESTS_HELD_IN_PARALLEL               ? popo::ServerRequestResult::TOO_MANY_REQUESTS_HELD_IN_PARALLEL
                       : r == ServerRequestResult_NO_PENDING_REQUESTS_AND_SERVER_DOES_NOT_OFFER ? popo::ServerRequestResult::NO_PENDING_REQUESTS_AND_SERVER_DOES_NOT_OFFER
                                                                                                   : popo::ServerRequestResult::UNDEFINED_CHUNK_RECEIVE_ERROR);
        }
        return ok(Req(in, static_cast<const A*>(p)));
    }
    expected<Res, popo::AllocationError> loan(const Req& q)
    {
        void* p = nullptr;
        auto r = iox_server_loan_aligned_response(h, q.p, &p, sizeof(B), alignof(B));
        if (r != AllocationResult_SUCCESS)
        {
            return err(allocError(r));
        }
        fib::Quiet z;
        auto rh = iox_response_header_from_payload(p);
        expect(!iox_response_header_has_server_error(rh), "server error");
        if (iox_response_header_get_sequence_id(rh) % 2 == 1)
        {
            iox_response_header_set_server_error(rh);
        }
        return ok(Res(out, new (p) B()));
    }
    expected<void, popo::ServerSendError> send(Res&& q)
    {
        auto r = iox_server_send(h, q.release());
        expect(r != ServerSendResult_UNDEFINED_ERROR && r != ServerSendResult_INVALID_RESPONSE, "send result");
        if (r != ServerSendResult_SUCCESS)
        {
            return err(r == ServerSendResult_NOT_OFFERED ? popo::ServerSendError::NOT_OFFERED : popo::ServerSendError::CLIENT_NOT_AVAILABLE);
        }
        return ok();
    }
    void offer()
    {
        iox_server_offer(h);
    }
    void stopOffer()
    {
        iox_server_stop_offer(h);
    }
    void releaseQueuedRequests()
    {
        iox_server_release_queued_requests(h);
    }
    bool hasMissedRequests()
    {
        return iox_server_has_missed_requests(h);
    }
    bool hasRequests()
    {
        return iox_server_has_requests(h);
    }
    bool isOffered()
    {
        return iox_server_is_offered(h);
    }
    bool hasClients()
    {
        return iox_server_has_clients(h);
    }
};

// ------------------------------------------------------------------------------------------ notifications
struct UserTrigger
{
    Storage<iox_user_trigger_storage_t> st;
    iox_user_trigger_t h;
    UserTrigger()
    {
        h = iox_user_trigger_init(&st.s);
        st.check();
        name(h, this);
    }
    ~UserTrigger()
    {
        iox_user_trigger_deinit(h);
        name(h, nullptr);
        st.check();
    }
    void trigger()
    {
        iox_user_trigger_trigger(h);
    }
};
template <typename T, typename C>
struct Cb
{
    void (*f)(T*, C*);
    C* c;
};
template <typename T, typename C>
Cb<T, C> createNotificationCallback(void (&f)(T*, C*), C& c)
{
    return {&f, &c};
}
// the context of a callback in C; kept as long as the harness runs
template <typename T, typename C>
void* context(const Cb<T, C>& cb)
{
    fib::Quiet q;
    return new Cb<T, C>(cb);
}
template <typename T, typename C, typename H>
void tramp(H h, void* c)
{
    auto x = static_cast<Cb<T, C>*>(c);
    x->f(shim<T>(h), x->c);
}
struct Info
{
    iox_notification_info_t n;
    uint64_t getNotificationId() const
    {
        return iox_notification_info_get_notification_id(n);
    }
    void operator()() const
    {
        iox_notification_info_call(n);
    }
    template <typename D>
    bool doesOriginateFrom(Subscriber<D>* o) const
    {
        return iox_notification_info_does_originate_from_subscriber(n, o->h);
    }
    bool doesOriginateFrom(UserTrigger* o) const
    {
        return iox_notification_info_does_originate_from_user_trigger(n, o->h);
    }
    template <typename A, typename B>
    bool doesOriginateFrom(Client<A, B>* o) const
    {
        return iox_notification_info_does_originate_from_client(n, o->h);
    }
    template <typename A, typename B>
    bool doesOriginateFrom(Server<A, B>* o) const
    {
        return iox_notification_info_does_originate_from_server(n, o->h);
    }
    const void* originOf(UserTrigger*) const
    {
        return iox_notification_info_get_user_trigger_origin(n);
    }
    template <typename D>
    const void* originOf(Subscriber<D>*) const
    {
        return iox_notification_info_get_subscriber_origin(n);
    }
    template <typename A, typename B>
    const void* originOf(Client<A, B>*) const
    {
        return iox_notification_info_get_client_origin(n);
    }
    template <typename A, typename B>
    const void* originOf(Server<A, B>*) const
    {
        return iox_notification_info_get_server_origin(n);
    }
    template <typename T>
    T* getOrigin() const
    {
        return shim<T>(originOf(static_cast<T*>(nullptr)));
    }
    const Info* operator->() const
    {
        return this;
    }
    const Info& operator*() const
    {
        return *this;
    }
};
inline popo::WaitSetError wsError(iox_WaitSetResult r)
{
    expect(r != WaitSetResult_UNDEFINED_ERROR, "attach result");
    return r == WaitSetResult_WAIT_SET_FULL ? popo::WaitSetError::WAIT_SET_FULL : popo::WaitSetError::ALREADY_ATTACHED;
}
inline expected<void, popo::WaitSetError> answer(iox_WaitSetResult r)
{
    if (r != WaitSetResult_SUCCESS)
    {
        return err(wsError(r));
    }
    return ok();
}
template <uint64_t CAP>
struct WaitSet
{
    Storage<iox_ws_storage_t> st;
    iox_ws_t h;
    WaitSet()
    {
        h = iox_ws_init(&st.s);
        st.check();
        expect(iox_ws_capacity(h) == CAP, "capacity");
    }
    ~WaitSet()
    {
        iox_ws_deinit(h);
        st.check();
    }
    uint64_t size()
    {
        return iox_ws_size(h);
    }
    void markForDestruction()
    {
        iox_ws_mark_for_destruction(h);
    }
    template <typename F>
    std::vector<Info> collect(F f)
    {
        std::vector<iox_notification_info_t> a(CAP + 2, nullptr);
        uint64_t missed = 77;
        auto n = f(a.data() + 1, CAP, &missed);
        fib::Quiet q;
        expect(missed == 0 && n <= CAP && a[0] == nullptr, "notification array");
        std::vector<Info> r;
        for (uint64_t i = 0; i < CAP + 1; ++i)
        {
            i < n ? r.push_back({a[i + 1]}) : expect(a[i + 1] == nullptr, "notification array");
        }
        return r;
    }
    std::vector<Info> wait()
    {
        return collect([&](auto a, auto n, auto m) { return iox_ws_wait(h, a, n, m); });
    }
    std::vector<Info> timedWait(units::Duration d)
    {
        struct timespec t = d.timespec();
        return collect([&](auto a, auto n, auto m) { return iox_ws_timed_wait(h, t, a, n, m); });
    }
    template <typename D, typename C>
    auto attachEvent(Subscriber<D>& o, popo::SubscriberEvent, uint64_t id, Cb<Subscriber<D>, C> cb)
    {
        return answer(iox_ws_attach_subscriber_event_with_context_data(h, o.h, SubscriberEvent_DATA_RECEIVED, id, tramp<Subscriber<D>, C, iox_sub_t>, context(cb)));
    }
    template <typename D, typename C>
    auto attachState(Subscriber<D>& o, popo::SubscriberState, uint64_t id, Cb<Subscriber<D>, C> cb)
    {
        return answer(iox_ws_attach_subscriber_state_with_context_data(h, o.h, SubscriberState_HAS_DATA, id, tramp<Subscriber<D>, C, iox_sub_t>, context(cb)));
    }
    template <typename C>
    auto attachEvent(UserTrigger& o, uint64_t id, Cb<UserTrigger, C> cb)
    {
        return answer(iox_ws_attach_user_trigger_event_with_context_data(h, o.h, id, tramp<UserTrigger, C, iox_user_trigger_t>, context(cb)));
    }
    template <typename A, typename B, typename C>
    auto attachEvent(Client<A, B>& o, popo::ClientEvent, uint64_t id, Cb<Client<A, B>, C> cb)
    {
        return answer(iox_ws_attach_client_event_with_context_data(h, o.h, ClientEvent_RESPONSE_RECEIVED, id, tramp<Client<A, B>, C, iox_client_t>, context(cb)));
    }
    template <typename A, typename B, typename C>
    auto attachState(Client<A, B>& o, popo::ClientState, uint64_t id, Cb<Client<A, B>, C> cb)
    {
        return answer(iox_ws_attach_client_state_with_context_data(h, o.h, ClientState_HAS_RESPONSE, id, tramp<Client<A, B>, C, iox_client_t>, context(cb)));
    }
    template <typename A, typename B, typename C>
    auto attachEvent(Server<A, B>& o, popo::ServerEvent, uint64_t id, Cb<Server<A, B>, C> cb)
    {
        return answer(iox_ws_attach_server_event_with_context_data(h, o.h, ServerEvent_REQUEST_RECEIVED, id, tramp<Server<A, B>, C, iox_server_t>, context(cb)));
    }
    template <typename A, typename B, typename C>
    auto attachState(Server<A, B>& o, popo::ServerState, uint64_t id, Cb<Server<A, B>, C> cb)
    {
        return answer(iox_ws_attach_server_state_with_context_data(h, o.h, ServerState_HAS_REQUEST, id, tramp<Server<A, B>, C, iox_server_t>, context(cb)));
    }
    template <typename D>
    void detachEvent(Subscriber<D>& o, popo::SubscriberEvent)
    {
        iox_ws_detach_subscriber_event(h, o.h, SubscriberEvent_DATA_RECEIVED);
    }
    template <typename D>
    void detachState(Subscriber<D>& o, popo::SubscriberState)
    {
        iox_ws_detach_subscriber_state(h, o.h, SubscriberState_HAS_DATA);
    }
    void detachEvent(UserTrigger& o)
    {
        iox_ws_detach_user_trigger_event(h, o.h);
    }
    template <typename A, typename B>
    void detachEvent(Client<A, B>& o, popo::ClientEvent)
    {
        iox_ws_detach_client_event(h, o.h, ClientEvent_RESPONSE_RECEIVED);
    }
    template <typename A, typename B>
    void detachState(Client<A, B>& o, popo::ClientState)
    {
        iox_ws_detach_client_state(h, o.h, ClientState_HAS_RESPONSE);
    }
    template <typename A, typename B>
    void detachEvent(Server<A, B>& o, popo::ServerEvent)
    {
        iox_ws_detach_server_event(h, o.h, ServerEvent_REQUEST_RECEIVED);
    }
    template <typename A, typename B>
    void detachState(Server<A, B>& o, popo::ServerState)
    {
        iox_ws_detach_server_state(h, o.h, ServerState_HAS_REQUEST);
    }
};
inline expected<void, popo::ListenerError> answer(iox_ListenerResult r)
{
    expect(r != ListenerResult_UNDEFINED_ERROR, "attach result");
    if (r != ListenerResult_SUCCESS)
    {
        return err(r == ListenerResult_LISTENER_FULL            ? popo::ListenerError::LISTENER_FULL
                   : r == ListenerResult_EVENT_ALREADY_ATTACHED ? popo::ListenerError::EVENT_ALREADY_ATTACHED
                                                                : popo::ListenerError::EMPTY_EVENT_CALLBACK);
    }
    return ok();
}
struct Listener
{
    Storage<iox_listener_storage_t> st;
    iox_listener_t h;
    static uint64_t capacity()
    {
        return popo::Listener::capacity();
    }
    Listener()
    {
        h = iox_listener_init(&st.s);
        st.check();
        expect(iox_listener_capacity(h) == capacity(), "capacity");
    }
    ~Listener()
    {
        iox_listener_deinit(h);
        st.check();
    }
    uint64_t size()
    {
        return iox_listener_size(h);
    }
    template <typename D, typename C>
    auto attachEvent(Subscriber<D>& o, popo::SubscriberEvent, Cb<Subscriber<D>, C> cb)
    {
        return answer(iox_listener_attach_subscriber_event_with_context_data(h, o.h, SubscriberEvent_DATA_RECEIVED, tramp<Subscriber<D>, C, iox_sub_t>, context(cb)));
    }
    template <typename C>
    auto attachEvent(UserTrigger& o, Cb<UserTrigger, C> cb)
    {
        return answer(iox_listener_attach_user_trigger_event_with_context_data(h, o.h, tramp<UserTrigger, C, iox_user_trigger_t>, context(cb)));
    }
    template <typename A, typename B, typename C>
    auto attachEvent(Client<A, B>& o, popo::ClientEvent, Cb<Client<A, B>, C> cb)
    {
        return answer(iox_listener_attach_client_event_with_context_data(h, o.h, ClientEvent_RESPONSE_RECEIVED, tramp<Client<A, B>, C, iox_client_t>, context(cb)));
    }
    template <typename A, typename B, typename C>
    auto attachEvent(Server<A, B>& o, popo::ServerEvent, Cb<Server<A, B>, C> cb)
    {
        return answer(iox_listener_attach_server_event_with_context_data(h, o.h, ServerEvent_REQUEST_RECEIVED, tramp<Server<A, B>, C, iox_server_t>, context(cb)));
    }
    template <typename D>
    void detachEvent(Subscriber<D>& o, popo::SubscriberEvent)
    {
        iox_listener_detach_subscriber_event(h, o.h, SubscriberEvent_DATA_RECEIVED);
    }
    void detachEvent(UserTrigger& o)
    {
        iox_listener_detach_user_trigger_event(h, o.h);
    }
    template <typename A, typename B>
    void detachEvent(Client<A, B>& o, popo::ClientEvent)
    {
        iox_listener_detach_client_event(h, o.h, ClientEvent_RESPONSE_RECEIVED);
    }
    template <typename A, typename B>
    void detachEvent(Server<A, B>& o, popo::ServerEvent)
    {
        iox_listener_detach_server_event(h, o.h, ServerEvent_REQUEST_RECEIVED);
    }
};
// loaned requests and received responses belong to the client, the others to the server
template <typename D>
struct RequestOf
{
    using type = typename Client<D, D>::Req;
};
template <typename D>
struct RequestOf<const D>
{
    using type = typename Server<D, D>::Req;
};
template <typename D>
struct ResponseOf
{
    using type = typename Server<D, D>::Res;
};
template <typename D>
struct ResponseOf<const D>
{
    using type = typename Client<D, D>::Res;
};
template <typename D>
using Request = typename RequestOf<D>::type;
template <typename D>
using Response = typename ResponseOf<D>::type;
} // namespace capi
#endif
