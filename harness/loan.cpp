// loans of blocks: from the pools directly, by several threads, and by a publisher port
#include "objrun.hpp"
#include "iceoryx_posh/internal/mepoo/memory_manager.hpp"
#include "iceoryx_posh/internal/mepoo/shared_chunk.hpp"
#include "iceoryx_posh/internal/popo/ports/publisher_port_data.hpp"
#include "iceoryx_posh/internal/popo/ports/publisher_port_roudi.hpp"
#include "iceoryx_posh/internal/popo/ports/publisher_port_user.hpp"
#include "iceoryx_posh/mepoo/chunk_header.hpp"
#include "iceoryx_posh/mepoo/chunk_settings.hpp"
#include "iceoryx_posh/mepoo/mepoo_config.hpp"
#include "iox/bump_allocator.hpp"
using namespace iox;
namespace
{
constexpr size_t SLOTS = 12;
struct Pool
{
    uint64_t size; // payload
    uint32_t count;
};
std::vector<Pool> g_pools;
uint64_t g_shift{0};  // of the payload memory
uint64_t g_history{0};
uint64_t size(const Op& op) // 0: as is, 1: counted down from the maximum, 2: in 2^40
{
    return op.a[1] == 0 ? uint64_t(op.a[2]) : op.a[1] == 1 ? uint64_t(0) - uint64_t(op.a[2]) : uint64_t(op.a[2]) << 40;
}
struct Base : Obj
{
    std::vector<uint8_t> memory, management;
    mepoo::MemoryManager mm;
    std::vector<uint8_t*> start;
    struct Request
    {
        uint64_t size{0};
        uint32_t al{1}, uh{0}, uha{1};
        uint8_t mark{0};
    };
    Request req[SLOTS];
    uint8_t marks{0};
    Base()
    {
        mepoo::MePooConfig c;
        for (auto& p : g_pools)
        {
            c.m_mempoolConfig.push_back({p.size, p.count});
        }
        auto n = mepoo::MemoryManager::requiredChunkMemorySize(c), m = mepoo::MemoryManager::requiredManagementMemorySize(c);
        memory.resize(n + 4096 + 64);
        management.resize(m + 64);
        auto up = [](uint8_t* p, uint64_t a) { return reinterpret_cast<uint8_t*>((reinterpret_cast<uint64_t>(p) + a - 1) / a * a); };
        auto* first = up(memory.data(), 2048) + g_shift;
        BumpAllocator a(first, n), b(up(management.data(), 8), m);
        mm.configureMemoryManager(c, b, a);
        for (auto& p : g_pools)
        {
            start.push_back(first);
            first += p.count * (p.size + sizeof(mepoo::ChunkHeader));
        }
    }
    // pool and block of an address
    void where(const void* p, long& pool, long& block)
    {
        pool = block = -1;
        for (size_t i = 0; i < g_pools.size(); ++i)
        {
            auto bs = g_pools[i].size + sizeof(mepoo::ChunkHeader);
            auto* x = static_cast<const uint8_t*>(p);
            if (x >= start[i] && x < start[i] + g_pools[i].count * bs)
            {
                pool = long(i) + 1;
                block = long(uint64_t(x - start[i]) / bs) + 1;
            }
        }
    }
    V got(int t, const Op& op, mepoo::ChunkHeader* c)
    {
        fib::Quiet q;
        long pool, block;
        where(c, pool, block);
        auto slot = size_t(op.a[0]);
        req[slot] = {size(op), uint32_t(std::max(1l, op.a[3])), uint32_t(op.a[4]), uint32_t(std::max(1l, op.a[5])), ++marks};
        auto& r = req[slot];
        auto* base = pool < 0 ? nullptr : start[size_t(pool - 1)] + uint64_t(block - 1) * (g_pools[size_t(pool - 1)].size + sizeof(mepoo::ChunkHeader));
        auto off = [&](const void* p) { return p == nullptr ? -1 : long(static_cast<const uint8_t*>(p) - base); };
        auto* pay = static_cast<uint8_t*>(c->userPayload());
        auto* uh = static_cast<uint8_t*>(c->userHeader());
        auto back = mepoo::ChunkHeader::fromUserPayload(pay);
        auto backH = uh == nullptr ? c : mepoo::ChunkHeader::fromUserHeader(uh);
        V v(op.a.begin() + 1, op.a.end());
        for (long x : {pool,
                       block,
                       off(c),
                       off(uh),
                       off(pay),
                       long(reinterpret_cast<uint64_t>(pay) % r.al),
                       long(reinterpret_cast<uint64_t>(uh) % r.uha),
                       long(back == c && backH == c),
                       long(c->userPayloadSize() == r.size && c->userHeaderSize() == r.uh && c->userPayloadAlignment() == r.al),
                       long(c->chunkSize()),
                       long(c->usedSizeOfChunk() <= c->chunkSize())})
        {
            v.push_back(x);
        }
        h->add(fmt("{\"k\":\"o\",\"t\":%d,\"o\":\"layout\",\"a\":%s}", t, jseq(v).c_str()));
        if (pool > 0 && off(pay) >= 0 && uint64_t(off(pay)) + r.size <= g_pools[size_t(pool - 1)].size + sizeof(mepoo::ChunkHeader))
        {
            memset(pay, r.mark, r.size);
            if (uh != nullptr)
            {
                memset(uh, r.mark, r.uh);
            }
        }
        return {1, pool, block};
    }
    // still as its owner left it?
    bool intact(size_t slot, const mepoo::ChunkHeader* c)
    {
        fib::Quiet q;
        auto& r = req[slot];
        auto* pay = static_cast<const uint8_t*>(c->userPayload());
        auto* uh = static_cast<const uint8_t*>(c->userHeader());
        bool ok = c->userPayloadSize() == r.size && c->userHeaderSize() == r.uh && (uh != nullptr) == (r.uh > 0) && mepoo::ChunkHeader::fromUserPayload(pay) == c;
        for (uint64_t i = 0; ok && i < r.size; ++i)
        {
            ok = pay[i] == r.mark;
        }
        for (uint64_t i = 0; ok && i < r.uh; ++i)
        {
            ok = uh[i] == r.mark;
        }
        return ok;
    }
    V info()
    {
        V v;
        for (uint32_t i = 0; i < mm.getNumberOfMemPools(); ++i)
        {
            auto x = mm.getMemPoolInfo(i);
            v.push_back(x.m_usedChunks);
            v.push_back(x.m_numChunks);
            v.push_back(long(x.m_chunkSize));
        }
        return v;
    }
};
struct Pools : Base
{
    mepoo::SharedChunk s[SLOTS];
    bool prepare(int, Op& op) override
    {
        if (op.o == "loan")
        {
            return !s[size_t(op.a[0])];
        }
        if (op.o == "copy")
        {
            return s[size_t(op.a[0])] && !s[size_t(op.a[1])];
        }
        return op.o == "info" || bool(s[size_t(op.a[0])]);
    }
    V exec(int t, const Op& op) override
    {
        if (op.o == "info")
        {
            return info();
        }
        auto i = size_t(op.a[0]);
        if (op.o == "loan")
        {
            auto cs = mepoo::ChunkSettings::create(size(op), uint32_t(op.a[3]), uint32_t(op.a[4]), uint32_t(op.a[5]));
            if (cs.has_error())
            {
                return {0, 1};
            }
            auto c = mm.getChunk(*cs);
            if (c.has_error())
            {
                return {0, c.error() == mepoo::MemoryManager::Error::NO_MEMPOOL_FOR_REQUESTED_CHUNK_SIZE ? 2 : c.error() == mepoo::MemoryManager::Error::MEMPOOL_OUT_OF_CHUNKS ? 3 : 5};
            }
            s[i] = std::move(*c);
            return got(t, op, s[i].getChunkHeader());
        }
        if (op.o == "copy")
        {
            s[size_t(op.a[1])] = s[i];
            req[size_t(op.a[1])] = req[i];
            return {};
        }
        // drop
        long r = intact(i, s[i].getChunkHeader());
        s[i] = mepoo::SharedChunk();
        return {r};
    }
};
struct Port : Base
{
    popo::PublisherPortData d{{"a", "b", "c"}, "app", roudi::DEFAULT_UNIQUE_ROUDI_ID, &mm, [] {
                                  popo::PublisherOptions o;
                                  o.historyCapacity = g_history;
                                  return o;
                              }()};
    popo::PublisherPortUser u{&d};
    mepoo::ChunkHeader* s[SLOTS]{};
    ~Port() override
    {
        popo::PublisherPortRouDi(&d).releaseAllChunks();
    }
    bool prepare(int, Op& op) override
    {
        return op.o == "info" || op.o == "previous" || (op.o == "loan") == (s[size_t(op.a[0])] == nullptr);
    }
    V exec(int t, const Op& op) override
    {
        if (op.o == "info")
        {
            return info();
        }
        if (op.o == "previous")
        {
            auto x = u.tryGetPreviousChunk();
            long p = 0, b = 0;
            if (x.has_value())
            {
                where(*x, p, b);
            }
            return {p, b};
        }
        auto i = size_t(op.a[0]);
        if (op.o == "loan")
        {
            auto c = u.tryAllocateChunk(size(op), uint32_t(op.a[3]), uint32_t(op.a[4]), uint32_t(op.a[5]));
            if (c.has_error())
            {
                using E = popo::AllocationError;
                auto e = c.error();
                return {0, e == E::INVALID_PARAMETER_FOR_USER_PAYLOAD_OR_USER_HEADER ? 1 : e == E::RUNNING_OUT_OF_CHUNKS ? 3 : e == E::TOO_MANY_CHUNKS_ALLOCATED_IN_PARALLEL ? 4 : e == E::NO_MEMPOOLS_AVAILABLE ? 2 : 5};
            }
            s[i] = *c;
            return got(t, op, s[i]);
        }
        long r = intact(i, s[i]);
        if (op.o == "send")
        {
            u.sendChunk(s[i]);
        }
        else
        {
            u.releaseChunk(s[i]);
        }
        s[i] = nullptr;
        return {r};
    }
};
} // namespace
int main(int argc, char** argv)
{
    if (argc < 7)
    {
        return 2;
    }
    std::string kind = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    int programs = atoi(argv[3]), schedules = atoi(argv[4]);
    Collector c{size_t(atoi(argv[5]))};
    installErrorHandler();
    Rng r(seed);
    auto gen = [&](Rng& g) {
        Program p;
        g_pools.clear();
        g_shift = 8 * g.below(200);
        g_history = g.below(3);
        uint64_t last = 0;
        std::string pools;
        for (uint32_t i = 0, n = 1 + g.below(3); i < n; ++i)
        {
            last += 8 * (1 + g.below(g.chance(1, 3) ? 60 : 6));
            g_pools.push_back({last, 1 + g.below(3)});
            pools += fmt("%s{\"size\":%ld,\"n\":%ld}", i ? "," : "", long(last + sizeof(mepoo::ChunkHeader)), long(g_pools.back().count));
        }
        p.cfg = fmt("{\"kind\":\"%s\",\"hs\":%ld,\"ha\":%ld,\"pools\":[%s],\"history\":%ld,\"max\":%ld}",
                    kind == "port" ? "port" : "pools",
                    long(sizeof(mepoo::ChunkHeader)),
                    long(alignof(mepoo::ChunkHeader)),
                    pools.c_str(),
                    long(g_history),
                    long(MAX_CHUNKS_ALLOCATED_PER_PUBLISHER_SIMULTANEOUSLY));
        auto loan = [&](long slot, bool simple) {
            V a{slot, 0, 0, 8, 0, 1};
            auto& pool = g_pools[g.below(uint32_t(g_pools.size()))];
            if (simple)
            {
                a[2] = long(pool.size);
                return Op{"loan", a};
            }
            if (g.chance(1, 2))
            {
                a[3] = g.chance(1, 15) ? long(g.below(40)) : g.chance(1, 10) ? 1l << g.below(31) : 1l << g.below(8);
            }
            if (g.chance(1, 2))
            {
                a[5] = g.chance(1, 15) ? long(g.below(17)) : 1l << g.below(4);
                a[4] = g.chance(1, 12) ? long(g.below(30)) : a[5] * long(g.below(6));
                if (g.chance(1, 30))
                {
                    a[4] = long(g.below(1000000000)) / 8 * 8;
                }
            }
            switch (g.below(8))
            {
            case 0:
                a[1] = 1;
                a[2] = 1 + long(g.below(g.chance(1, 2) ? 60 : 300));
                break;
            case 1:
                a[1] = g.chance(1, 2) ? 2 : 0;
                a[2] = 1 + long(g.below(1000));
                break;
            default: // near what fits
                a[2] = std::max(0l, long(pool.size) - (a[4] > 0 ? a[4] + 4 : 0) - (a[3] > 8 && a[3] < 300 ? a[3] - 8 : 0) + long(g.below(13)) - 8);
            }
            return Op{"loan", a};
        };
        if (kind == "port")
        {
            for (uint32_t i = 10 + g.below(20); i > 0; --i)
            {
                auto x = g.below(10);
                long slot = long(g.below(5));
                p.prelude.push_back(x < 5 ? loan(slot, g.chance(1, 3)) : x < 7 ? Op{"send", {slot}} : x < 8 ? Op{"release", {slot}} : x < 9 ? Op{"previous", {}} : Op{"info", {}});
            }
            p.prelude.push_back({"info", {}});
            return p;
        }
        bool alone = kind == "layout";
        for (uint32_t i = alone ? 10 + g.below(20) : g.below(5); i > 0; --i)
        {
            auto x = g.below(10);
            long slot = long(g.below(uint32_t(SLOTS)));
            p.prelude.push_back(x < 6 ? loan(slot, !alone || g.chance(1, 4)) : x < 8 ? Op{"drop", {slot}} : x < 9 ? Op{"copy", {slot, long(g.below(uint32_t(SLOTS)))}} : Op{"info", {}});
        }
        if (alone)
        {
            p.prelude.push_back({"info", {}});
            return p;
        }
        for (long s : {0, 4}) // shared between threads
        {
            p.prelude.push_back({"copy", {s, s == 0 ? 4 : 8}});
        }
        for (int t = 0, n = 2 + int(g.below(2)); t < n; ++t)
        {
            p.threads.emplace_back();
            for (uint32_t i = 2 + g.below(4); i > 0; --i)
            {
                long slot = long(t * 4) + long(g.below(4));
                p.threads.back().push_back(g.chance(1, 2) ? loan(slot, true) : g.chance(1, 6) ? Op{"copy", {slot, long(t * 4) + long(g.below(4))}} : Op{"drop", {slot}});
            }
        }
        p.tail.push_back({"info", {}});
        for (long s = 0; s < long(SLOTS); ++s)
        {
            p.tail.push_back({"drop", {s}});
        }
        p.tail.push_back({"info", {}});
        for (long s = 0; s < 6; ++s)
        {
            p.tail.push_back(loan(s, true));
        }
        return p;
    };
    explore(c, "loan " + kind, r, seed, programs, schedules, false, gen, [&](const Program&) -> Obj* {
        if (kind == "port")
        {
            return new Port;
        }
        return new Pools;
    });
    c.write(argv[6]);
    return 0;
}
