// The daemon's core (memory, port pool, PortManager) and user processes inside one OS thread.
#ifndef SYS_HPP
#define SYS_HPP
#include "util.hpp"
#include "iceoryx_posh/iceoryx_posh_config.hpp"
#include "iceoryx_posh/internal/roudi/port_manager.hpp"
#include "iceoryx_posh/popo/client.hpp"
#include "iceoryx_posh/popo/listener.hpp"
#include "iceoryx_posh/popo/publisher.hpp"
#include "iceoryx_posh/popo/server.hpp"
#include "iceoryx_posh/popo/subscriber.hpp"
#include "iceoryx_posh/popo/untyped_client.hpp"
#include "iceoryx_posh/popo/untyped_publisher.hpp"
#include "iceoryx_posh/popo/untyped_server.hpp"
#include "iceoryx_posh/popo/untyped_subscriber.hpp"
#include "iceoryx_posh/popo/user_trigger.hpp"
#include "iceoryx_posh/popo/wait_set.hpp"
#include "iceoryx_posh/roudi/memory/iceoryx_roudi_memory_manager.hpp"
#include "iceoryx_posh/runtime/posh_runtime.hpp"
#include "iox/posix_user.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <mutex>
#include <memory>
#include <sys/file.h>
#include <sys/mman.h>
#include <unistd.h>

namespace sys
{
using namespace iox;

// every harness process owns 64 domain ids
inline int& domainBase()
{
    static int b = -1;
    return b;
}
inline void claimDomains()
{
    uint32_t s = uint32_t(getpid());
    for (uint32_t i = 0; i < 1000; ++i)
    {
        uint32_t n = (s + i) % 1000;
        int fd = open(fmt("/tmp/verif_domain_%u", n).c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0666);
        if (fd >= 0 && flock(fd, LOCK_EX | LOCK_NB) == 0)
        {
            domainBase() = int(n * 64 + 1);
            experimental::hasExperimentalPoshFeaturesEnabled(true); // own domain ids
            return;
        }
        if (fd >= 0)
        {
            close(fd);
        }
    }
    fprintf(stderr, "no free domain\n");
    exit(2);
}
inline void removeLeftovers()
{
    for (const char* dir : {"/dev/shm", "/tmp"})
    {
        if (DIR* d = opendir(dir))
        {
            while (auto e = readdir(d))
            {
                int dom = -1;
                if (sscanf(e->d_name, "iox1_%d_", &dom) == 1 && dom >= domainBase() && dom < domainBase() + 64)
                {
                    unlink((std::string(dir) + "/" + e->d_name).c_str());
                }
            }
            closedir(d);
        }
    }
}

// the runtime of the user processes: hands out what the daemon created
class Rt : public runtime::PoshRuntime
{
  public:
    void* next{nullptr};
    std::function<void*(const capro::ServiceDescription&, const popo::SubscriberOptions&)> subscriber; // creates one
    explicit Rt(const RuntimeName_t* n)
        : runtime::PoshRuntime(n)
    {
    }
    static Rt& me()
    {
        static RuntimeName_t n{"verif"};
        static Rt* r = new Rt(&n);
        return *r;
    }
    static runtime::PoshRuntime& factory(optional<const RuntimeName_t*>)
    {
        return me();
    }
    static void install()
    {
        runtime::PoshRuntime::setRuntimeFactory(&Rt::factory);
    }
    template <typename T>
    T* take()
    {
        auto r = static_cast<T*>(next);
        next = nullptr;
        return r;
    }
    PublisherPortUserType::MemberType_t*
    getMiddlewarePublisher(const capro::ServiceDescription&, const popo::PublisherOptions&, const runtime::PortConfigInfo&) noexcept override
    {
        return take<PublisherPortUserType::MemberType_t>();
    }
    SubscriberPortUserType::MemberType_t*
    getMiddlewareSubscriber(const capro::ServiceDescription& d, const popo::SubscriberOptions& o, const runtime::PortConfigInfo&) noexcept override
    {
        if (subscriber)
        {
            next = subscriber(d, o);
        }
        return take<SubscriberPortUserType::MemberType_t>();
    }
    popo::ClientPortData*
    getMiddlewareClient(const capro::ServiceDescription&, const popo::ClientOptions&, const runtime::PortConfigInfo&) noexcept override
    {
        return take<popo::ClientPortData>();
    }
    popo::ServerPortData*
    getMiddlewareServer(const capro::ServiceDescription&, const popo::ServerOptions&, const runtime::PortConfigInfo&) noexcept override
    {
        return take<popo::ServerPortData>();
    }
    popo::InterfacePortData* getMiddlewareInterface(const capro::Interfaces, const NodeName_t&) noexcept override
    {
        return take<popo::InterfacePortData>();
    }
    popo::ConditionVariableData* getMiddlewareConditionVariable() noexcept override
    {
        return take<popo::ConditionVariableData>();
    }
    bool sendRequestToRouDi(const runtime::IpcMessage&, runtime::IpcMessage&, optional<units::Duration>) noexcept override
    {
        return false;
    }
};

// the port manager, with its internals open
class Pm : public roudi::PortManager
{
  public:
    using roudi::PortManager::PortManager;
    const roudi::ServiceRegistry& registry()
    {
        return serviceRegistry();
    }
};

inline RuntimeName_t procName(int p)
{
    return RuntimeName_t(TruncateToCapacity, fmt("p%d", p).c_str());
}
inline capro::ServiceDescription service(int s)
{
    return capro::ServiceDescription(capro::IdString_t(TruncateToCapacity, fmt("S%d", s / 4).c_str()),
                                     capro::IdString_t(TruncateToCapacity, fmt("I%d", s / 2 % 2).c_str()),
                                     capro::IdString_t(TruncateToCapacity, fmt("E%d", s % 2).c_str()));
}

struct Sys
{
    roudi::IceOryxRouDiMemoryManager* mm{nullptr};
    Pm* pm{nullptr};
    mepoo::MemoryManager* payload{nullptr};
    std::mutex daemon; // the daemon handles one request at a time
    std::map<const void*, int> blockIds;
    uint32_t chunks;

    explicit Sys(uint32_t chunkCount, uint64_t chunkSize = 128, bool internalPorts = false, const std::vector<std::pair<uint64_t, uint32_t>>& pools = {})
        : chunks(chunkCount)
    {
        static int counter = 0;
        IceoryxConfig c;
        mepoo::MePooConfig m;
        if (pools.empty())
        {
            m.addMemPool({chunkSize, chunkCount});
        }
        for (auto& p : pools)
        {
            m.addMemPool({p.first, p.second});
        }
        auto g = PosixGroup::getGroupOfCurrentProcess();
        c.m_sharedMemorySegments.push_back({g.getName(), g.getName(), m});
        c.introspectionChunkCount = 2;
        c.discoveryChunkCount = 2;
        c.domainId = DomainId{uint16_t(domainBase() + counter++ % 64)};
        bool ok = fib::guarded([&] {
            mm = new roudi::IceOryxRouDiMemoryManager(c);
            if (mm->createAndAnnounceMemory().has_error())
            {
                fib::abandon();
            }
            pm = new Pm(mm);
            auto info = mm->segmentManager().value()->getSegmentInformationWithWriteAccessForUser(
                PosixUser::getUserOfCurrentProcess());
            payload = &info.m_memoryManager.value().get();
            pm->stopPortIntrospection();
            if (!internalPorts)
            {
                pm->deletePortsOfProcess(roudi::IPC_CHANNEL_ROUDI_NAME);
            }
        });
        if (!ok)
        {
            fprintf(stderr, "could not create the daemon's memory\n");
            removeLeftovers();
            exit(3);
        }
    }
    // only when nothing is left behind in it
    void destroy()
    {
        fib::guarded([&] {
            delete pm;
            delete mm;
        });
        UntypedRelativePointer::unregisterAll();
        fib::forgetLocks();
    }
    // after a crash: it is only forgotten
    void forget()
    {
        UntypedRelativePointer::unregisterAll();
        // its shared memory and files would pile up
        std::vector<std::pair<uint64_t, uint64_t>> maps;
        if (FILE* f = fopen("/proc/self/maps", "r"))
        {
            char b[1024];
            while (fgets(b, sizeof b, f))
            {
                unsigned long lo = 0, hi = 0;
                if (strstr(b, "/iox1_") && sscanf(b, "%lx-%lx", &lo, &hi) == 2)
                {
                    maps.push_back({lo, hi});
                }
            }
            fclose(f);
        }
        for (auto& m : maps)
        {
            munmap(reinterpret_cast<void*>(m.first), m.second - m.first);
        }
        if (DIR* d = opendir("/proc/self/fd"))
        {
            std::vector<int> fds;
            while (auto e = readdir(d))
            {
                char b[512];
                auto n = readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), b, sizeof b - 1);
                if (n > 0)
                {
                    b[n] = 0;
                    if (strstr(b, "/iox1_"))
                    {
                        fds.push_back(atoi(e->d_name));
                    }
                }
            }
            closedir(d);
            for (int x : fds)
            {
                close(x);
            }
        }
        fib::forgetLocks();
        removeLeftovers();
    }
    int block(const void* p)
    {
        auto it = blockIds.find(p);
        if (it != blockIds.end())
        {
            return it->second;
        }
        int n = int(blockIds.size());
        return blockIds[p] = n;
    }
    uint32_t used()
    {
        uint32_t n = 0;
        for (uint32_t i = 0; i < payload->getNumberOfMemPools(); ++i)
        {
            n += payload->getMemPoolInfo(i).m_usedChunks;
        }
        return n;
    }
};
} // namespace sys
#endif
