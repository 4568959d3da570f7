// ipc channels: named pipe, unix domain socket, message queue
#include "objrun.hpp"
#include "iox/message_queue.hpp"
#include "iox/named_pipe.hpp"
#include "iox/unix_domain_socket.hpp"
#include "net.hpp"
using namespace iox;

static std::string content(long id, long len)
{
    std::string s;
    for (long i = 0; i < len; ++i)
    {
        s += char(33 + (id * 7 + i * 13 + (i >> 5) * id) % 90);
    }
    return s;
}
// which message is it (0: none of those sent, -1: the empty one)
static V identify(const std::string& s, const std::map<long, long>& sent)
{
    for (auto& m : sent)
    {
        if (m.second == long(s.size()) && content(m.first, m.second) == s)
        {
            return {1, s.empty() ? -1 : m.first, m.second};
        }
    }
    return {1, 0, long(s.size())};
}
static long code(PosixIpcChannelError e)
{
    switch (e)
    {
    case PosixIpcChannelError::MESSAGE_TOO_LONG:
        return 2;
    case PosixIpcChannelError::TIMEOUT:
        return 3;
    case PosixIpcChannelError::NO_SUCH_CHANNEL:
        return 4;
    default:
        return 9;
    }
}
static std::string g_name;
template <typename C>
struct Make;
template <>
struct Make<NamedPipe>
{
    static auto make(PosixIpcChannelSide s, uint64_t size, uint64_t n)
    {
        return NamedPipeBuilder().name(PosixIpcChannelName_t(TruncateToCapacity, g_name.c_str())).channelSide(s).maxMsgSize(size).maxMsgNumber(n).create();
    }
    static constexpr uint64_t N = NamedPipe::MAX_MESSAGE_SIZE;
};
template <>
struct Make<MessageQueue>
{
    static auto make(PosixIpcChannelSide s, uint64_t size, uint64_t n)
    {
        return MessageQueueBuilder().name(PosixIpcChannelName_t(TruncateToCapacity, g_name.c_str())).channelSide(s).maxMsgSize(size).maxMsgNumber(n).create();
    }
    static constexpr uint64_t N = MessageQueue::MAX_MESSAGE_SIZE;
};
template <>
struct Make<UnixDomainSocket>
{
    static auto make(PosixIpcChannelSide s, uint64_t size, uint64_t n)
    {
        return UnixDomainSocketBuilder().name(PosixIpcChannelName_t(TruncateToCapacity, g_name.c_str())).channelSide(s).maxMsgSize(size).maxMsgNumber(n).create();
    }
    static constexpr uint64_t N = UnixDomainSocket::MAX_MESSAGE_SIZE;
};
template <typename C>
struct Chan : Obj
{
    uint64_t size, num;
    bool life;
    std::map<int, optional<C>> ends; // 0: the receiving end, others: sending ends
    std::map<long, long> sent;
    Chan(uint64_t s, uint64_t n, bool l, int threads)
        : size(s)
        , num(n)
        , life(l)
    {
        (void)C::unlinkIfExists(PosixIpcChannelName_t(TruncateToCapacity, g_name.c_str()));
        if (!life)
        {
            for (int t = 0; t <= threads + 1; ++t)
            {
                auto r = Make<C>::make(t == 0 ? PosixIpcChannelSide::SERVER : PosixIpcChannelSide::CLIENT, size, num);
                if (r.has_error())
                {
                    fprintf(stderr, "no channel\n");
                    _exit(78);
                }
                ends[t].emplace(std::move(r.value()));
            }
        }
    }
    ~Chan() override
    {
        while (!ends.empty())
        {
            ends.erase(std::prev(ends.end()));
        }
    }
    bool prepare(int t, Op& op) override
    {
        int e = life ? int(op.a[0]) : t;
        if (op.o == "open")
        {
            return !ends[e].has_value();
        }
        if (op.o == "close")
        {
            return ends[e].has_value();
        }
        if (op.o == "foreign")
        {
            return ends[0].has_value();
        }
        if (op.o.find("eceive") != std::string::npos)
        {
            if (!ends[0].has_value())
            {
                return false;
            }
        }
        else if (!ends[e].has_value())
        {
            return false;
        }
        return true;
    }
    template <typename R>
    V sendResult(const R& r, uint64_t t0, long ms)
    {
        if (!r.has_error())
        {
            return {1};
        }
        auto e = code(r.error());
        if (e == 3)
        {
            return {0, 3, fib::virtualNs() >= t0 + uint64_t(ms) * 1000000 ? 1 : 0};
        }
        return {0, e};
    }
    V exec(int t, const Op& op) override
    {
        int e = life ? int(op.a[0]) : t == 0 && op.o.find("end") != std::string::npos ? int(ends.size()) - 1 : t;
        auto t0 = fib::virtualNs();
        if (op.o == "open")
        {
            auto r = Make<C>::make(e == 0 ? PosixIpcChannelSide::SERVER : PosixIpcChannelSide::CLIENT, size, num);
            if (r.has_error())
            {
                return {0, code(r.error())};
            }
            ends[e].emplace(std::move(r.value()));
            return {1};
        }
        if (op.o == "close")
        {
            ends[e].reset();
            return {};
        }
        if (op.o == "move")
        {
            auto& x = ends[e];
            C y(std::move(*x));
            *x = std::move(y);
            return {};
        }
        if (op.o == "foreign")
        {
            // someone else sends something that is not a message: nothing at all, or no zero at the end
            sockaddr_un a{};
            a.sun_family = AF_UNIX;
            snprintf(a.sun_path, sizeof a.sun_path, "/tmp/%s", g_name.c_str());
            int s = socket(AF_UNIX, SOCK_DGRAM, 0);
            std::string m(size_t(op.a[1]), 'x');
            auto n = sendto(s, m.data(), m.size(), MSG_DONTWAIT, reinterpret_cast<sockaddr*>(&a), sizeof a);
            close(s);
            return {n >= 0};
        }
        size_t b = life ? 1 : 0;
        if (op.o == "send" || op.o == "trySend" || op.o == "timedSend")
        {
            auto& x = *ends[e];
            long id = op.a[b], len = op.a[b + 1], ms = op.a[b + 2], fixed = op.a[b + 3];
            std::string s;
            {
                fib::Quiet q;
                s = content(id, len);
                sent[id] = len;
            }
            auto d = units::Duration::fromMilliseconds(uint64_t(ms));
            if (fixed && uint64_t(len) <= Make<C>::N)
            {
                iox::string<Make<C>::N> f(TruncateToCapacity, s.c_str());
                if constexpr (std::is_same<C, NamedPipe>::value)
                {
                    if (op.o == "trySend")
                    {
                        return sendResult(x.trySend(f), t0, 0);
                    }
                }
                return sendResult(op.o == "send" ? x.send(f) : x.timedSend(f, d), t0, ms);
            }
            if constexpr (std::is_same<C, NamedPipe>::value)
            {
                if (op.o == "trySend")
                {
                    return sendResult(x.trySend(s), t0, 0);
                }
            }
            return sendResult(op.o == "send" ? x.send(s) : x.timedSend(s, d), t0, ms);
        }
        auto& x = *ends[0];
        long ms = op.a[b], fixed = op.a[b + 1];
        auto d = units::Duration::fromMilliseconds(uint64_t(ms));
        if (fixed)
        {
            iox::string<Make<C>::N> f;
            auto get = [&]() -> expected<void, PosixIpcChannelError> {
                if constexpr (std::is_same<C, NamedPipe>::value)
                {
                    if (op.o == "tryReceive")
                    {
                        return x.tryReceive(f);
                    }
                }
                return op.o == "receive" ? x.receive(f) : x.timedReceive(f, d);
            };
            auto r = get();
            if (r.has_error())
            {
                return sendResult(r, t0, op.o == "timedReceive" ? ms : 0);
            }
            fib::Quiet q;
            return identify(f.c_str(), sent);
        }
        auto get = [&]() -> expected<std::string, PosixIpcChannelError> {
            if constexpr (std::is_same<C, NamedPipe>::value)
            {
                if (op.o == "tryReceive")
                {
                    return x.tryReceive();
                }
            }
            return op.o == "receive" ? x.receive() : x.timedReceive(d);
        };
        auto r = get();
        if (r.has_error())
        {
            return sendResult(r, t0, op.o == "timedReceive" ? ms : 0);
        }
        fib::Quiet q;
        return identify(r.value(), sent);
    }
};
// how many datagrams the kernel keeps for a receiver
static long dgramLimit()
{
    int fd[2];
    if (socketpair(AF_UNIX, SOCK_DGRAM, 0, fd) != 0)
    {
        return 11;
    }
    char d[] = "/tmp/verif_ch_XXXXXX";
    if (!mkdtemp(d))
    {
        return 11;
    }
    sockaddr_un a{};
    a.sun_family = AF_UNIX;
    snprintf(a.sun_path, sizeof a.sun_path, "%s/s", d);
    int s = socket(AF_UNIX, SOCK_DGRAM, 0), c = socket(AF_UNIX, SOCK_DGRAM, 0);
    long n = 0;
    if (bind(s, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0 && connect(c, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0)
    {
        while (n < 1000 && sendto(c, "x", 1, MSG_DONTWAIT, nullptr, 0) == 1)
        {
            ++n;
        }
    }
    for (int x : {fd[0], fd[1], s, c})
    {
        close(x);
    }
    unlink(a.sun_path);
    rmdir(d);
    return n;
}
int main(int argc, char** argv)
{
    if (argc < 6)
    {
        return 2;
    }
    std::string mode = argv[1]; // pipe | uds | mq, then optionally life
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    int programs = atoi(argv[3]), schedules = atoi(argv[4]);
    Collector c{size_t(atoi(argv[5]))};
    installErrorHandler();
    Rng r(seed);
    bool life = mode.size() > 4 && mode.substr(mode.size() - 4) == "life";
    std::string kind = life ? mode.substr(0, mode.size() - 4) : mode;
    g_name = fmt("verif_ch_%d", int(getpid()));
    long limit = dgramLimit();
    uint64_t size = 0, num = 0;
    int senders = 0;
    auto gen = [&](Rng& g) {
        Program p;
        num = 1 + g.below(kind == "uds" ? 10 : 4);
        uint64_t top = kind == "pipe" ? NamedPipe::MAX_MESSAGE_SIZE : kind == "uds" ? UnixDomainSocket::MAX_MESSAGE_SIZE : MessageQueue::MAX_MESSAGE_SIZE;
        size = kind == "pipe" || g.chance(1, 4) ? top : 8 + g.below(200);
        long longest = kind == "mq" ? long(size) - 1 : long(size);
        long cap = kind == "uds" ? limit : long(num);
        p.cfg = fmt("{\"kind\":\"%s\",\"cap\":%ld,\"longest\":%ld,\"life\":%d}", kind.c_str(), cap, longest, life);
        long id = 0;
        auto send = [&](V pre, bool mayBlock) {
            auto k = g.below(10);
            long len = k < 5 ? long(1 + g.below(8)) : k < 6 ? 0 : k < 7 ? longest : k < 8 ? longest - 1 : k < 9 ? longest + 1 : long(1 + g.below(uint32_t(longest)));
            auto w = g.below(10);
            std::string o = w < 4 && mayBlock ? "send" : w < 7 && kind == "pipe" ? "trySend" : "timedSend";
            V a = pre;
            a.insert(a.end(), {++id, len, long(g.below(20)), long(g.below(2))});
            return Op{o, a};
        };
        auto recv = [&](V pre, bool mayBlock) {
            auto w = g.below(10);
            std::string o = w < 4 && mayBlock ? "receive" : w < 7 && kind == "pipe" ? "tryReceive" : "timedReceive";
            V a = pre;
            a.insert(a.end(), {long(g.below(20)), long(g.below(2))});
            return Op{o, a};
        };
        if (life)
        {
            senders = 2;
            for (uint32_t i = 10 + g.below(20); i > 0; --i)
            {
                auto k = g.below(12);
                long e = long(1 + g.below(2));
                if (k < 2)
                {
                    p.prelude.push_back({"open", {0}});
                }
                else if (k < 4)
                {
                    p.prelude.push_back({"open", {e}});
                }
                else if (k < 5)
                {
                    p.prelude.push_back({"close", {g.chance(1, 2) ? 0 : e}});
                }
                else if (k < 6 && kind == "uds" && g.chance(1, 2))
                {
                    p.prelude.push_back({"foreign", {0, long(g.chance(1, 2) ? 0 : 1 + g.below(6000))}});
                }
                else if (k < 6)
                {
                    p.prelude.push_back({"move", {long(g.below(3))}});
                }
                else if (k < 9)
                {
                    p.prelude.push_back(send({e}, false));
                }
                else
                {
                    p.prelude.push_back(recv({0}, false));
                }
            }
            return p;
        }
        // one receiving thread per pipe and queue or several, several senders
        auto th = 2 + g.below(3);
        auto receivers = 1 + g.below(kind == "uds" ? 1 : 2);
        senders = int(th);
        // some are there already: the calls reach the limit
        for (long i = g.chance(1, 2) ? long(g.below(uint32_t(cap))) : kind == "uds" ? cap - 1 - long(g.below(3)) : 0; i > 0; --i)
        {
            p.prelude.push_back({"timedSend", {++id, 2, 1, 0}});
        }
        for (uint32_t t = 0; t < th; ++t)
        {
            p.threads.emplace_back();
            for (uint32_t i = 1 + g.below(4); i > 0; --i)
            {
                p.threads.back().push_back(t < receivers ? recv({}, true) : send({}, true));
            }
        }
        for (int i = 0; i < 30; ++i)
        {
            // tryReceive-like: brings senders on; when only receivers wait, the next is a message
            p.rescue.push_back(i % 2 ? Op{"timedReceive", {1, 0}} : Op{"timedSend", {++id, 3, 1, 0}});
        }
        for (long i = 0; i < cap + 1; ++i)
        {
            p.tail.push_back({"timedReceive", {2, long(i % 2)}});
        }
        return p;
    };
    explore(c, "ch " + mode, r, seed, programs, schedules, false, gen, [&](const Program&) -> Obj* {
        if (kind == "pipe")
        {
            return new Chan<NamedPipe>(size, num, life, senders);
        }
        if (kind == "uds")
        {
            return new Chan<UnixDomainSocket>(size, num, life, senders);
        }
        return new Chan<MessageQueue>(size, num, life, senders);
    }, 200000);
    c.write(argv[6]);
    return 0;
}
