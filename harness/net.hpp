// calls that may block in the kernel: made without blocking, the wait is the scheduler's
#ifndef NET_HPP
#define NET_HPP
#include "fib.hpp"
#include <cerrno>
#include <dlfcn.h>
#include <mqueue.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
template <typename F>
static F realOf(const char* n)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
static bool can(int fd, short what)
{
    pollfd p{fd, what, 0};
    return poll(&p, 1, 0) == 1;
}
static bool waitFor(int fd, short what, int opt)
{
    timeval tv{};
    socklen_t l = sizeof tv;
    getsockopt(fd, SOL_SOCKET, opt, &tv, &l);
    uint64_t ns = uint64_t(tv.tv_sec) * 1000000000ull + uint64_t(tv.tv_usec) * 1000ull;
    if (ns == 0)
    {
        fib::block([=] { return can(fd, what); });
        return true;
    }
    return fib::blockUntil([=] { return can(fd, what); }, fib::virtualNs() + ns);
}
static uint64_t absNs(const timespec* t)
{
    return uint64_t(t->tv_sec) * 1000000000ull + uint64_t(t->tv_nsec);
}
static const timespec PAST{1, 0};
extern "C" {
ssize_t sendto(int fd, const void* b, size_t n, int fl, const sockaddr* a, socklen_t l)
{
    static auto r = realOf<ssize_t (*)(int, const void*, size_t, int, const sockaddr*, socklen_t)>("sendto");
    if (!fib::active())
    {
        return r(fd, b, n, fl, a, l);
    }
    fib::point();
    int before = errno;
    while (true)
    {
        auto x = r(fd, b, n, fl | MSG_DONTWAIT, a, l);
        if (x >= 0)
        {
            errno = before;
        }
        if (x >= 0 || (errno != EAGAIN && errno != EWOULDBLOCK) || (fl & MSG_DONTWAIT))
        {
            return x;
        }
        if (!waitFor(fd, POLLOUT, SO_SNDTIMEO))
        {
            errno = EAGAIN;
            return -1;
        }
    }
}
ssize_t recvfrom(int fd, void* __restrict b, size_t n, int fl, sockaddr* __restrict a, socklen_t* __restrict l)
{
    static auto r = realOf<ssize_t (*)(int, void*, size_t, int, sockaddr*, socklen_t*)>("recvfrom");
    if (!fib::active())
    {
        return r(fd, b, n, fl, a, l);
    }
    fib::point();
    int before = errno;
    while (true)
    {
        auto x = r(fd, b, n, fl | MSG_DONTWAIT, a, l);
        if (x >= 0)
        {
            errno = before;
        }
        if (x >= 0 || (errno != EAGAIN && errno != EWOULDBLOCK) || (fl & MSG_DONTWAIT))
        {
            return x;
        }
        if (!waitFor(fd, POLLIN, SO_RCVTIMEO))
        {
            errno = EAGAIN;
            return -1;
        }
    }
}
static ssize_t mqTry(const std::function<ssize_t()>& f, mqd_t q, short what, const timespec* t)
{
    fib::point();
    int before = errno;
    while (true)
    {
        auto x = f();
        if (x >= 0)
        {
            errno = before;
        }
        if (x >= 0 || errno != ETIMEDOUT)
        {
            return x;
        }
        if (t == nullptr)
        {
            fib::block([=] { return can(q, what); });
        }
        else if (!fib::blockUntil([=] { return can(q, what); }, absNs(t)))
        {
            errno = ETIMEDOUT;
            return -1;
        }
    }
}
int mq_timedsend(mqd_t q, const char* b, size_t n, unsigned p, const timespec* t)
{
    static auto r = realOf<int (*)(mqd_t, const char*, size_t, unsigned, const timespec*)>("mq_timedsend");
    if (!fib::active())
    {
        return r(q, b, n, p, t);
    }
    return int(mqTry([&] { return ssize_t(r(q, b, n, p, &PAST)); }, q, POLLOUT, t));
}
int mq_send(mqd_t q, const char* b, size_t n, unsigned p)
{
    static auto r = realOf<int (*)(mqd_t, const char*, size_t, unsigned, const timespec*)>("mq_timedsend");
    if (!fib::active())
    {
        return r(q, b, n, p, nullptr);
    }
    return int(mqTry([&] { return ssize_t(r(q, b, n, p, &PAST)); }, q, POLLOUT, nullptr));
}
ssize_t mq_timedreceive(mqd_t q, char* __restrict b, size_t n, unsigned* __restrict p, const timespec* __restrict t)
{
    static auto r = realOf<ssize_t (*)(mqd_t, char*, size_t, unsigned*, const timespec*)>("mq_timedreceive");
    if (!fib::active())
    {
        return r(q, b, n, p, t);
    }
    return mqTry([&] { return r(q, b, n, p, &PAST); }, q, POLLIN, t);
}
ssize_t mq_receive(mqd_t q, char* b, size_t n, unsigned* p)
{
    static auto r = realOf<ssize_t (*)(mqd_t, char*, size_t, unsigned*, const timespec*)>("mq_timedreceive");
    if (!fib::active())
    {
        return r(q, b, n, p, nullptr);
    }
    return mqTry([&] { return r(q, b, n, p, &PAST); }, q, POLLIN, nullptr);
}
}

#endif
