// locks, semaphores and file locks
#include "objrun.hpp"
#include "iox/file_lock.hpp"
#include "iox/mutex.hpp"
#include "iox/named_semaphore.hpp"
#include "iox/smart_lock.hpp"
#include "iox/spin_lock.hpp"
#include "iox/spin_semaphore.hpp"
#include "iox/unnamed_semaphore.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace iox;

// ---------------------------------------------------------------- file operations are scheduling points
static std::map<int, int> g_fds; // descriptor -> fiber that opened it
template <typename F>
static F realOf(const char* n)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
extern "C" {
int open(const char* path, int flags, ...)
{
    static auto r = realOf<int (*)(const char*, int, ...)>("open");
    va_list a;
    va_start(a, flags);
    mode_t m = (flags & O_CREAT) ? mode_t(va_arg(a, unsigned)) : 0;
    va_end(a);
    if (!fib::active())
    {
        return r(path, flags, m);
    }
    fib::point();
    int fd = r(path, flags, m);
    if (fd >= 0)
    {
        fib::Quiet q;
        g_fds[fd] = fib::self();
    }
    return fd;
}
int close(int fd)
{
    static auto r = realOf<int (*)(int)>("close");
    if (fib::active())
    {
        fib::point();
        fib::Quiet q;
        g_fds.erase(fd);
    }
    return r(fd);
}
int flock(int fd, int op) noexcept
{
    static auto r = realOf<int (*)(int, int)>("flock");
    if (fib::active())
    {
        fib::point();
    }
    return r(fd, op);
}
int remove(const char* p) noexcept
{
    static auto r = realOf<int (*)(const char*)>("remove");
    if (fib::active())
    {
        fib::point();
    }
    return r(p);
}
int unlink(const char* p) noexcept
{
    static auto r = realOf<int (*)(const char*)>("unlink");
    if (fib::active())
    {
        fib::point();
    }
    return r(p);
}
int stat(const char* p, struct stat* s) noexcept
{
    static auto r = realOf<int (*)(const char*, struct stat*)>("stat");
    if (fib::active())
    {
        fib::point();
    }
    return r(p, s);
}
int fstat(int fd, struct stat* s) noexcept
{
    static auto r = realOf<int (*)(int, struct stat*)>("fstat");
    if (fib::active())
    {
        fib::point();
    }
    return r(fd, s);
}
}

static std::string g_scratch;
static bool g_twins = false; // threads of different processes with the same thread id

template <typename L>
static V doLock(L& l)
{
    auto r = l.lock();
    if (!r.has_error())
    {
        return {1};
    }
    return {r.error() == LockError::DEADLOCK_CONDITION ? 2 : r.error() == LockError::LOCK_ACQUIRED_BUT_HAS_INCONSISTENT_STATE_SINCE_OWNER_DIED ? 3 : 4};
}
template <typename L>
static V doTry(L& l)
{
    auto r = l.try_lock();
    if (!r.has_error())
    {
        return {r.value() == TryLock::LOCK_SUCCEEDED ? 1 : 0};
    }
    return {r.error() == TryLockError::LOCK_ACQUIRED_BUT_HAS_INCONSISTENT_STATE_SINCE_OWNER_DIED ? 3 : 4};
}
template <typename L>
static V doUnlock(L& l)
{
    auto r = l.unlock();
    if (!r.has_error())
    {
        return {1};
    }
    return {r.error() == UnlockError::NOT_OWNED_BY_THREAD ? 2 : r.error() == UnlockError::NOT_LOCKED ? 3 : 4};
}
struct LockObj : Obj
{
    optional<concurrent::SpinLock> s;
    optional<mutex> m;
    std::string type;
    std::map<int, int> held;
    LockObj(const std::string& kind, const std::string& ty, bool robust, bool prio)
        : type(ty)
    {
        auto b = ty == "normal" ? LockBehavior::NORMAL : ty == "recursive" ? LockBehavior::RECURSIVE : LockBehavior::WITH_DEADLOCK_DETECTION;
        if (kind == "spin")
        {
            concurrent::SpinLockBuilder().lock_behavior(b).create(s).expect("");
        }
        else
        {
            MutexBuilder()
                .lock_behavior(b)
                .priority_inheritance(prio ? MutexPriorityInheritance::INHERIT : MutexPriorityInheritance::NONE)
                .thread_termination_behavior(robust ? MutexThreadTerminationBehavior::RELEASE_WHEN_LOCKED
                                                    : MutexThreadTerminationBehavior::STALL_WHEN_LOCKED)
                .create(m)
                .expect("");
        }
    }
    bool prepare(int t, Op& op) override
    {
        if (op.o == "lock")
        {
            return held[t] == 0 || !(m && type == "normal"); // not: locks up
        }
        if (op.o == "unlock")
        {
            return held[t] > 0;
        }
        if (op.o == "badUnlock")
        {
            op.o = "unlock";
            return held[t] == 0 && !(m && type == "normal");
        }
        if (op.o == "consistent")
        {
            return held[t] > 0;
        }
        return true;
    }
    V exec(int t, const Op& op) override
    {
        V r;
        if (op.o == "lock")
        {
            r = s ? doLock(*s) : doLock(*m);
        }
        else if (op.o == "try")
        {
            r = s ? doTry(*s) : doTry(*m);
        }
        else if (op.o == "unlock")
        {
            // from here on others may own it
            if (held[t] > 0)
            {
                --held[t];
            }
            return s ? doUnlock(*s) : doUnlock(*m);
        }
        else
        {
            if (m)
            {
                m->make_consistent();
            }
            return {};
        }
        if (r[0] == 1 || r[0] == 3)
        {
            ++held[t];
        }
        return r;
    }
    void died(int t) override
    {
        h->add(fmt("{\"k\":\"x\",\"t\":%d,\"o\":\"died\",\"a\":[],\"r\":[]}", t));
    }
};
struct SemObj : Obj
{
    optional<concurrent::SpinSemaphore> s;
    optional<UnnamedSemaphore> u;
    optional<NamedSemaphore> n;
    SemObj(const std::string& kind, uint32_t init)
    {
        if (kind == "spin")
        {
            concurrent::SpinSemaphoreBuilder().initialValue(init).create(s).expect("");
        }
        else if (kind == "unnamed")
        {
            UnnamedSemaphoreBuilder().initialValue(init).create(u).expect("");
        }
        else
        {
            NamedSemaphoreBuilder()
                .name(NamedSemaphore::Name_t(TruncateToCapacity, fmt("verif_lk_%d", int(getpid())).c_str()))
                .openMode(OpenMode::PurgeAndCreate)
                .permissions(perms::owner_all)
                .initialValue(init)
                .create(n)
                .expect("");
        }
    }
    template <typename S>
    V run(S& x, const Op& op)
    {
        if (op.o == "post")
        {
            auto r = x.post();
            return {r.has_error() ? (r.error() == SemaphoreError::SEMAPHORE_OVERFLOW ? 0 : 9) : 1};
        }
        if (op.o == "wait")
        {
            return {x.wait().has_error() ? 9 : 1};
        }
        if (op.o == "tryWait")
        {
            auto r = x.tryWait();
            return {r.has_error() ? 9 : long(r.value())};
        }
        auto t0 = fib::virtualNs();
        auto r = x.timedWait(units::Duration::fromMilliseconds(uint64_t(op.a[0])));
        if (r.has_error())
        {
            return {9};
        }
        if (r.value() == SemaphoreWaitState::NO_TIMEOUT)
        {
            return {1};
        }
        return {0, fib::virtualNs() >= t0 + uint64_t(op.a[0]) * 1000000 ? 1 : 0};
    }
    V exec(int, const Op& op) override
    {
        return s ? run(*s, op) : u ? run(*u, op) : run(*n, op);
    }
};
struct FileObj : Obj
{
    std::map<int, std::map<long, optional<FileLock>>> l;
    FileObj()
    {
        wipe();
    }
    ~FileObj() override
    {
        l.clear();
        wipe();
    }
    static void wipe()
    {
        for (int i = 0; i < 2; ++i)
        {
            auto f = g_scratch + "/" + char('a' + i) + ".lock";
            static auto r = realOf<int (*)(const char*)>("unlink");
            r(f.c_str());
        }
    }
    bool prepare(int t, Op& op) override
    {
        bool mine = l[t][op.a[0]].has_value();
        return (op.o == "acquire") ? !mine : mine;
    }
    V exec(int t, const Op& op) override
    {
        auto& x = l[t][op.a[0]];
        if (op.o == "acquire")
        {
            auto r = FileLockBuilder()
                         .name(FileLock::FileName_t(TruncateToCapacity, std::string(1, char('a' + op.a[0])).c_str()))
                         .path(FileLock::PathName_t(TruncateToCapacity, g_scratch.c_str()))
                         .permission(perms::owner_all)
                         .create();
            if (r.has_error())
            {
                return {r.error() == FileLockError::LOCKED_BY_OTHER_PROCESS ? 0 : 9};
            }
            x.emplace(std::move(r.value()));
            return {1};
        }
        if (op.o == "move")
        {
            FileLock y(std::move(*x));
            *x = std::move(y);
            return {};
        }
        x.reset();
        return {};
    }
    void died(int t) override
    {
        static auto r = realOf<int (*)(int)>("close");
        for (auto i = g_fds.begin(); i != g_fds.end();)
        {
            if (i->second == t)
            {
                r(i->first);
                i = g_fds.erase(i);
            }
            else
            {
                ++i;
            }
        }
        h->add(fmt("{\"k\":\"x\",\"t\":%d,\"o\":\"died\",\"a\":[],\"r\":[]}", t));
        new std::map<long, optional<FileLock>>(std::move(l[t])); // never destroyed
        l.erase(t);
    }
};
struct NamedObj : Obj
{
    std::map<long, optional<NamedSemaphore>> hs;
    static NamedSemaphore::Name_t name(long n)
    {
        return NamedSemaphore::Name_t(TruncateToCapacity, fmt("verif_lk_%d_%ld", int(getpid()), n).c_str());
    }
    static void wipe()
    {
        for (long n = 0; n < 2; ++n)
        {
            sem_unlink(("/" + std::string(name(n).c_str())).c_str());
        }
    }
    NamedObj()
    {
        wipe();
    }
    ~NamedObj() override
    {
        hs.clear();
        wipe();
    }
    bool prepare(int, Op& op) override
    {
        bool has = hs[op.a[0]].has_value();
        return op.o == "create" ? !has : has;
    }
    V exec(int, const Op& op) override
    {
        auto& x = hs[op.a[0]];
        if (op.o == "create")
        {
            OpenMode ms[] = {OpenMode::OpenExisting, OpenMode::OpenOrCreate, OpenMode::ExclusiveCreate, OpenMode::PurgeAndCreate};
            auto r = NamedSemaphoreBuilder()
                         .name(name(op.a[2]))
                         .openMode(ms[op.a[1]])
                         .permissions(perms::owner_all)
                         .initialValue(op.a[3] < 0 ? uint32_t(INT32_MAX) + 1u : uint32_t(op.a[3]))
                         .create(x);
            if (!r.has_error())
            {
                return {long(x.has_value())};
            }
            if (x.has_value())
            {
                return {99};
            }
            switch (r.error())
            {
            case SemaphoreError::SEMAPHORE_OVERFLOW:
                return {2};
            case SemaphoreError::NO_SEMAPHORE_WITH_THAT_NAME_EXISTS:
                return {3};
            case SemaphoreError::ALREADY_EXIST:
                return {4};
            default:
                return {9};
            }
        }
        if (op.o == "post")
        {
            return {!x->post().has_error()};
        }
        if (op.o == "tryWait")
        {
            auto r = x->tryWait();
            return {r.has_error() ? 9 : long(r.value())};
        }
        x.reset();
        return {};
    }
};
struct Cell
{
    long v{0};
    long add(long d)
    {
        auto x = v;
        fib::point();
        v = x + d;
        return v;
    }
    Cell() = default;
    Cell(const Cell& o)
        : v(o.v)
    {
        fib::point();
    }
    Cell& operator=(const Cell& o)
    {
        auto x = o.v;
        fib::point();
        v = x;
        return *this;
    }
};
struct SmartObj : Obj
{
    concurrent::smart_lock<Cell> x[2];
    V exec(int, const Op& op) override
    {
        auto& y = x[op.a[0]];
        if (op.o == "add")
        {
            return {y->add(op.a[1])};
        }
        if (op.o == "guard")
        {
            auto g = y.get_scope_guard();
            auto a = g->v;
            fib::point();
            g->v = a + op.a[1];
            return {g->v};
        }
        if (op.o == "copy")
        {
            return {y.get_copy().v};
        }
        if (op.o == "clone")
        {
            concurrent::smart_lock<Cell> z(y);
            return {z.get_copy().v};
        }
        if (op.o == "move")
        {
            y = std::move(x[op.a[1]]);
            return {};
        }
        y = x[op.a[1]];
        return {};
    }
};

int main(int argc, char** argv)
{
    if (argc < 6)
    {
        return 2;
    }
    std::string mode = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    int programs = atoi(argv[3]), schedules = atoi(argv[4]);
    Collector c{size_t(atoi(argv[5]))};
    installErrorHandler();
    char d[] = "/tmp/verif_lk_XXXXXX";
    g_scratch = mkdtemp(d);
    Rng r(seed);
    std::string kind, type;
    bool robust = false, prio = false;
    uint32_t init = 0;
    bool kill = mode.size() > 4 && mode.substr(mode.size() - 4) == "kill";
    auto gen = [&](Rng& g) {
        Program p;
        auto th = 2 + g.below(2);
        if (mode == "spin" || mode == "mutex" || mode == "mutexkill")
        {
            kind = mode == "spin" ? "spin" : "mutex";
            const char* ty[] = {"normal", "recursive", "check"};
            type = ty[g.below(kind == "spin" ? 2 : 3)];
            robust = kill || (kind == "mutex" && g.chance(1, 2));
            prio = g.chance(1, 3);
            g_twins = kind == "spin" && g.chance(1, 2);
            p.cfg = fmt("{\"kind\":\"lock\",\"type\":\"%s\",\"robust\":%d,\"spin\":%d}", type.c_str(), robust, kind == "spin");
            for (uint32_t t = 0; t < th; ++t)
            {
                p.threads.emplace_back();
                auto& o = p.threads.back();
                for (uint32_t i = 2 + g.below(5); i > 0; --i)
                {
                    auto k = g.below(20);
                    o.push_back({k < 6 ? "lock" : k < 11 ? "try" : k < 17 ? "unlock" : k < 19 && kill ? "consistent" : "badUnlock", {}});
                }
                for (int i = 0; i < 7; ++i)
                {
                    if (kill && i == 0 && g.chance(2, 3))
                    {
                        o.push_back({"consistent", {}});
                    }
                    o.push_back({"unlock", {}});
                }
            }
            for (int i = 0; i < 3; ++i)
            {
                p.tail.push_back({"try", {}});
            }
            if (kill)
            {
                p.tail.push_back({"consistent", {}});
            }
            for (int i = 0; i < 3; ++i)
            {
                p.tail.push_back({"unlock", {}});
            }
            p.tail.push_back({"try", {}});
            p.tail.push_back({"unlock", {}});
        }
        else if (mode == "sem" || mode == "semkill")
        {
            const char* ks[] = {"unnamed", "named", "spin"};
            kind = ks[g.below(kill ? 2 : 3)];
            bool top = g.chance(1, 6);
            init = top ? uint32_t(INT32_MAX) - g.below(3) : g.below(3);
            p.cfg = fmt("{\"kind\":\"sem\",\"init\":%u,\"max\":%d}", init, INT32_MAX);
            for (uint32_t t = 0; t < th; ++t)
            {
                p.threads.emplace_back();
                for (uint32_t i = 1 + g.below(4); i > 0; --i)
                {
                    auto k = g.below(10);
                    p.threads.back().push_back(k < (top ? 7 : 4) ? Op{"post", {}} : k < 6 ? Op{"wait", {}} : k < 8 ? Op{"tryWait", {}} : Op{"timedWait", {long(1 + g.below(20))}});
                }
            }
            for (int i = 0; i < 12; ++i)
            {
                p.rescue.push_back({"post", {}});
            }
            p.tail = {{"timedWait", {5}}, {"tryWait", {}}, {"tryWait", {}}, {"timedWait", {0}}, {"post", {}}, {"tryWait", {}}, {"post", {}}, {"wait", {}}};
        }
        else if (mode == "file" || mode == "filekill")
        {
            p.cfg = "{\"kind\":\"file\"}";
            for (uint32_t t = 0; t < th + 1; ++t)
            {
                p.threads.emplace_back();
                for (uint32_t i = 2 + g.below(4); i > 0; --i)
                {
                    auto k = g.below(12);
                    p.threads.back().push_back({k < 6 ? "acquire" : k < 11 ? "release" : "move", {long(g.chance(1, 6))}});
                }
            }
            p.tail = {{"acquire", {0}}, {"release", {0}}, {"acquire", {1}}, {"release", {1}}};
        }
        else if (mode == "named")
        {
            p.cfg = "{\"kind\":\"named\"}";
            for (uint32_t i = 8 + g.below(20); i > 0; --i)
            {
                auto k = g.below(12);
                long hd = long(g.below(3));
                p.prelude.push_back(k < 4 ? Op{"create", {hd, long(g.below(4)), long(g.below(2)), g.chance(1, 12) ? -1L : long(g.below(3))}}
                                    : k < 7 ? Op{"post", {hd}} : k < 10 ? Op{"tryWait", {hd}} : Op{"destroy", {hd}});
            }
        }
        else
        {
            p.cfg = "{\"kind\":\"smart\"}";
            for (uint32_t t = 0; t < th; ++t)
            {
                p.threads.emplace_back();
                for (uint32_t i = 1 + g.below(3); i > 0; --i)
                {
                    auto k = g.below(12);
                    long w = long(g.below(2));
                    p.threads.back().push_back(k < 3 ? Op{"add", {w, long(1 + g.below(3))}} : k < 6 ? Op{"guard", {w, long(1 + g.below(3))}}
                                               : k < 8 ? Op{"copy", {w}} : k < 9 ? Op{"clone", {w}} : k < 11 ? Op{"assign", {w, g.chance(1, 8) ? w : 1 - w}} : Op{"move", {w, g.chance(1, 8) ? w : 1 - w}});
                }
            }
            p.tail = {{"copy", {0}}, {"copy", {1}}};
        }
        return p;
    };
    fib::g_tidOf = [](int f) { return g_twins ? 1 : f; };
    fib::g_pidOf = [](int f) { return g_twins ? 4000 + f : 4000; };
    explore(c, "lk " + mode, r, seed, programs, schedules, kill, gen, [&](const Program&) -> Obj* {
        if (mode.rfind("sem", 0) == 0)
        {
            return new SemObj(kind, init);
        }
        if (mode.rfind("file", 0) == 0)
        {
            return new FileObj;
        }
        if (mode == "named")
        {
            return new NamedObj;
        }
        if (mode == "smart")
        {
            return new SmartObj;
        }
        return new LockObj(kind, type, robust, prio);
    }, 200000);
    c.write(argv[6]);
    FileObj::wipe();
    rmdir(g_scratch.c_str());
    NamedObj::wipe();
    sem_unlink(fmt("/verif_lk_%d", 4000).c_str());
    return 0;
}
