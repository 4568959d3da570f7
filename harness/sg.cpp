// segments, pools and who may use them: the daemon's memory, and applications of users with any set of groups
#include "objrun.hpp"
#include "sys.hpp"
#include "iceoryx_posh/internal/mepoo/segment_manager.hpp"
#include "iceoryx_posh/internal/runtime/shared_memory_user.hpp"
#include <dlfcn.h>
#include <grp.h>
#include <pwd.h>
#include <sys/acl.h>
#include <acl/libacl.h>
using namespace sys;
namespace
{
// one user with these groups (the first one is its primary one); groups g0..g31
constexpr unsigned UID = 46000, GID = 45000;
V g_groups;
bool g_fake = false;
char g_name[16];
char g_user[] = "someone";
struct passwd g_pw;
struct group g_gr;
char* g_none[] = {nullptr};
struct passwd* user()
{
    memset(&g_pw, 0, sizeof g_pw);
    g_pw.pw_name = g_user;
    g_pw.pw_uid = UID;
    g_pw.pw_gid = g_groups.empty() ? GID + 99 : unsigned(GID + g_groups[0]);
    return &g_pw;
}
struct group* entry(unsigned id)
{
    memset(&g_gr, 0, sizeof g_gr);
    snprintf(g_name, sizeof g_name, "g%u", id - GID);
    g_gr.gr_name = g_name;
    g_gr.gr_gid = id;
    g_gr.gr_mem = g_none;
    return &g_gr;
}
template <typename F>
F* real(const char* n)
{
    return reinterpret_cast<F*>(dlsym(RTLD_NEXT, n));
}
} // namespace
extern "C" {
struct passwd* getpwuid(uid_t u)
{
    return u == UID ? user() : real<struct passwd*(uid_t)>("getpwuid")(u);
}
struct passwd* getpwnam(const char* n)
{
    return strcmp(n, g_user) == 0 ? user() : real<struct passwd*(const char*)>("getpwnam")(n);
}
struct group* getgrgid(gid_t g)
{
    return g >= GID && g < GID + 100 ? entry(g) : real<struct group*(gid_t)>("getgrgid")(g);
}
struct group* getgrnam(const char* n)
{
    return n[0] == 'g' && n[1] >= '0' && n[1] <= '9' ? entry(unsigned(GID + atoi(n + 1))) : real<struct group*(const char*)>("getgrnam")(n);
}
int getgrouplist(const char* n, gid_t g, gid_t* out, int* num)
{
    if (strcmp(n, g_user) != 0)
    {
        return real<int(const char*, gid_t, gid_t*, int*)>("getgrouplist")(n, g, out, num);
    }
    if (int(g_groups.size()) > *num)
    {
        *num = int(g_groups.size());
        return -1;
    }
    *num = 0;
    for (auto x : g_groups)
    {
        out[(*num)++] = gid_t(GID + x);
    }
    return *num;
}
uid_t getuid() noexcept
{
    return g_fake ? UID : real<uid_t()>("getuid")();
}
uid_t geteuid() noexcept
{
    return g_fake ? UID : real<uid_t()>("geteuid")();
}
}
namespace
{
int g_domain = 0;
bool g_open = false;
struct Seg
{
    long r, w;
    std::vector<std::pair<long, long>> pools;
};
using Segs = std::vector<Seg>;
struct Sg : Obj
{
    Segs segs;
    roudi::IceOryxRouDiMemoryManager* mm{nullptr};
    mepoo::SegmentManager<>* sm{nullptr};
    DomainId domain{uint16_t(1)};
    uint64_t mgmt{0}, first{0};
    std::vector<std::tuple<uint64_t, void*, uint64_t>> known; // the daemon's segments

    explicit Sg(const Segs& s)
        : segs(s)
    {
        g_open = true;
        domain = DomainId{uint16_t(domainBase() + g_domain++ % 64)};
    }
    ~Sg() override
    {
        fib::Quiet q;
        delete mm;
        g_open = false;
    }
    static PosixUser someone(const V& groups)
    {
        g_groups = groups;
        return PosixUser(UID);
    }
    mepoo::MemoryManager& manager(long s)
    {
        return sm->getSegmentInformationWithWriteAccessForUser(someone({segs[size_t(s)].w})).m_memoryManager->get();
    }
    std::string file(long s)
    {
        return fmt("/dev/shm/%sg%ld", iceoryxResourcePrefix(domain, ResourceType::USER_DEFINED).c_str(), segs[size_t(s)].w);
    }
    void create()
    {
        IceoryxConfig c;
        for (auto& s : segs)
        {
            mepoo::MePooConfig m;
            for (auto& p : s.pools)
            {
                m.addMemPool({uint64_t(p.second), uint32_t(p.first)});
            }
            c.m_sharedMemorySegments.push_back({PosixGroup::groupName_t(TruncateToCapacity, fmt("g%ld", s.r).c_str()), PosixGroup::groupName_t(TruncateToCapacity, fmt("g%ld", s.w).c_str()), m});
        }
        c.introspectionChunkCount = 2;
        c.discoveryChunkCount = 2;
        c.domainId = domain;
        mm = new roudi::IceOryxRouDiMemoryManager(c);
        if (mm->createAndAnnounceMemory().has_error())
        {
            fprintf(stderr, "no memory for the daemon\n");
            _exit(78);
        }
        sm = *mm->segmentManager();
        mgmt = *mm->mgmtMemoryProvider()->segmentId();
        first = 0;
        for (size_t i = 0; i < segs.size(); ++i)
        {
            auto id = sm->getSegmentInformationWithWriteAccessForUser(someone({segs[i].w})).m_segmentID;
            first = i == 0 ? id : first;
        }
        for (uint64_t i = 1; i <= std::max(mgmt, first + segs.size()); ++i)
        {
            if (auto b = UntypedRelativePointer::getBasePtr(segment_id_t{i}))
            {
                known.emplace_back(i, b, 0);
            }
        }
    }
    bool prepare(int, Op& op) override
    {
        if (op.o != "create" && mm == nullptr)
        {
            return false;
        }
        if (op.o == "layout")
        {
            layout(op);
        }
        return true;
    }
    // takes every block of every segment, writes to all of it, reads it back
    void layout(Op& op)
    {
        std::vector<mepoo::SharedChunk> chunks;
        std::vector<std::tuple<uint8_t*, uint64_t, uint64_t>> mem;
        for (size_t s = 0; s < segs.size(); ++s)
        {
            auto& m = manager(long(s));
            op.a.push_back(-1);
            struct stat st;
            op.a.push_back(stat(file(long(s)).c_str(), &st) == 0 ? long(st.st_size) : -1);
            auto* base = static_cast<uint8_t*>(UntypedRelativePointer::getBasePtr(segment_id_t{first + s}));
            for (uint32_t p = 0; p < m.getNumberOfMemPools(); ++p)
            {
                auto info = m.getMemPoolInfo(p);
                op.a.insert(op.a.end(), {-2, long(info.m_numChunks), long(info.m_chunkSize), long(info.m_usedChunks)});
                for (;;)
                {
                    auto c = m.getChunk(mepoo::ChunkSettings::create(info.m_chunkSize - sizeof(mepoo::ChunkHeader), 8).value());
                    if (c.has_error())
                    {
                        break;
                    }
                    auto* h = c->getChunkHeader();
                    auto size = h->chunkSize();
                    op.a.insert(op.a.end(), {long(reinterpret_cast<uint8_t*>(h) - base), long(size)});
                    mem.emplace_back(static_cast<uint8_t*>(h->userPayload()), h->usedSizeOfChunk() - uint64_t(static_cast<uint8_t*>(h->userPayload()) - reinterpret_cast<uint8_t*>(h)), mem.size());
                    chunks.push_back(*c);
                }
            }
        }
        auto fill = [](uint64_t n) { return uint8_t(n * 37 + 11); };
        for (auto& x : mem)
        {
            memset(std::get<0>(x), fill(std::get<2>(x)), std::get<1>(x));
        }
        long damaged = 0;
        for (auto& x : mem)
        {
            for (uint64_t i = 0; i < std::get<1>(x); ++i)
            {
                if (std::get<0>(x)[i] != fill(std::get<2>(x)))
                {
                    ++damaged;
                    break;
                }
            }
        }
        op.a.insert(op.a.end(), {-3, damaged});
    }
    V flat(std::vector<V> x)
    {
        std::sort(x.begin(), x.end());
        V r;
        for (auto& v : x)
        {
            r.insert(r.end(), v.begin(), v.end());
        }
        return r;
    }
    // how the memory at p is mapped: file and whether it can be written
    std::pair<std::string, bool> mapped(void* p)
    {
        std::pair<std::string, bool> r;
        if (FILE* f = fopen("/proc/self/maps", "r"))
        {
            char line[1024];
            while (fgets(line, sizeof line, f))
            {
                unsigned long a, b;
                char perm[8], path[512] = "";
                if (sscanf(line, "%lx-%lx %7s %*s %*s %*s %511s", &a, &b, perm, path) >= 3 && a <= reinterpret_cast<unsigned long>(p) && reinterpret_cast<unsigned long>(p) < b)
                {
                    r = {path, perm[1] == 'w'};
                }
            }
            fclose(f);
        }
        return r;
    }
    V exec(int, const Op& op) override
    {
        fib::Quiet q;
        auto& o = op.o;
        auto& a = op.a;
        if (o == "create")
        {
            create();
            return {};
        }
        if (o == "layout")
        {
            return {};
        }
        if (o == "map")
        {
            std::vector<V> v;
            for (auto& m : sm->getSegmentMappings(someone(a)))
            {
                auto s = long(m.m_segmentId - first);
                struct stat st;
                bool good = s >= 0 && s < long(segs.size()) && std::string(m.m_sharedMemoryName.c_str()) == fmt("g%ld", segs[size_t(s)].w) && stat(file(s).c_str(), &st) == 0 && uint64_t(st.st_size) == m.m_size;
                v.push_back({good ? s + 1 : -1, m.m_isWritable});
            }
            return flat(v);
        }
        if (o == "attach")
        {
            // another process: nothing is registered there
            someone(a);
            auto off = UntypedRelativePointer::getOffset(segment_id_t{mgmt}, sm);
            auto size = mm->mgmtMemoryProvider()->size();
            UntypedRelativePointer::unregisterAll();
            g_fake = true;
            V r;
            {
                auto u = runtime::SharedMemoryUser::create(domain, mgmt, size, off);
                g_fake = false;
                if (u.has_error())
                {
                    r = {0};
                }
                else
                {
                    std::vector<V> v;
                    for (size_t s = 0; s < MAX_SHM_SEGMENTS + 2; ++s)
                    {
                        if (first + s == mgmt)
                        {
                            continue;
                        }
                        if (auto* b = UntypedRelativePointer::getBasePtr(segment_id_t{first + s}))
                        {
                            auto m = mapped(b);
                            v.push_back({s < segs.size() && m.first == file(long(s)) ? long(s) + 1 : -1, m.second});
                        }
                    }
                    r = flat(v);
                    r.insert(r.begin(), 1);
                }
            }
            UntypedRelativePointer::unregisterAll();
            for (auto& k : known)
            {
                if (!UntypedRelativePointer::registerPtrWithId(segment_id_t{std::get<0>(k)}, std::get<1>(k), 1u << 30))
                {
                    fprintf(stderr, "cannot restore\n");
                    _exit(78);
                }
            }
            return r;
        }
        if (o == "write")
        {
            auto x = sm->getSegmentInformationWithWriteAccessForUser(someone(a));
            if (!x.m_memoryManager.has_value())
            {
                return {};
            }
            // where does what he gets lie
            auto c = x.m_memoryManager->get().getChunk(mepoo::ChunkSettings::create(8, 8).value());
            if (c.has_error())
            {
                return {-2};
            }
            auto m = mapped(c->getChunkHeader());
            long s = long(x.m_segmentID - first);
            return {s >= 0 && s < long(segs.size()) && m.first == file(s) ? s + 1 : -1};
        }
        if (o == "alloc")
        {
            auto& m = manager(a[0] - 1);
            auto c = m.getChunk(mepoo::ChunkSettings::create(uint64_t(a[1]), 8).value());
            if (c.has_error())
            {
                return {0};
            }
            for (uint32_t p = 0; p < m.getNumberOfMemPools(); ++p)
            {
                if (m.getMemPoolInfo(p).m_usedChunks == 1)
                {
                    return {long(p) + 1, long(c->getChunkHeader()->chunkSize())};
                }
            }
            return {-1};
        }
        // acl
        std::vector<V> v;
        auto acl = acl_get_file(file(a[0] - 1).c_str(), ACL_TYPE_ACCESS);
        if (acl == nullptr)
        {
            return {-1};
        }
        acl_entry_t e;
        for (int w = ACL_FIRST_ENTRY; acl_get_entry(acl, w, &e) == 1; w = ACL_NEXT_ENTRY)
        {
            acl_tag_t tag;
            acl_permset_t perm;
            acl_get_tag_type(e, &tag);
            acl_get_permset(e, &perm);
            long bits = 4 * acl_get_perm(perm, ACL_READ) + 2 * acl_get_perm(perm, ACL_WRITE) + acl_get_perm(perm, ACL_EXECUTE);
            if (tag == ACL_GROUP || tag == ACL_USER)
            {
                auto* id = static_cast<gid_t*>(acl_get_qualifier(e));
                v.push_back({tag == ACL_GROUP ? long(*id) - long(GID) : -9, bits});
                acl_free(id);
            }
            else if (tag == ACL_OTHER)
            {
                v.push_back({-1, bits});
            }
            else if (tag == ACL_USER_OBJ)
            {
                v.push_back({-3, bits});
            }
        }
        acl_free(acl);
        return flat(v);
    }
};
// what an execution that ended early left mapped and open
void tidy()
{
    std::vector<std::pair<unsigned long, unsigned long>> maps;
    if (FILE* f = fopen("/proc/self/maps", "r"))
    {
        char line[1024];
        while (fgets(line, sizeof line, f))
        {
            unsigned long a, b;
            if (strstr(line, "/dev/shm/iox1_") && sscanf(line, "%lx-%lx", &a, &b) == 2)
            {
                maps.push_back({a, b});
            }
        }
        fclose(f);
    }
    for (auto& m : maps)
    {
        munmap(reinterpret_cast<void*>(m.first), m.second - m.first);
    }
    for (int fd = 3; fd < 200; ++fd)
    {
        char path[512];
        auto n = readlink(fmt("/proc/self/fd/%d", fd).c_str(), path, sizeof path - 1);
        if (n > 0 && (path[n] = 0, strstr(path, "/dev/shm/iox1_")))
        {
            close(fd);
        }
    }
}
} // namespace
int main(int argc, char** argv)
{
    if (argc < 7)
    {
        return 2;
    }
    std::string kind = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    int programs = atoi(argv[3]), schedules = atoi(argv[4]);
    Collector c{size_t(atoi(argv[5]))};
    claimDomains();
    installErrorHandler();
    Rng r(seed);
    Segs segs;
    auto gen = [&](Rng& g) {
        Program p;
        segs.clear();
        long total = 12, half = g.chance(1, 2);
        std::vector<long> writers;
        for (long i = 0; i < 10; ++i)
        {
            writers.push_back(i);
        }
        for (size_t i = writers.size(); i > 1; --i)
        {
            std::swap(writers[i - 1], writers[g.below(uint32_t(i))]);
        }
        size_t n = g.chance(1, 6) ? MAX_SHM_SEGMENTS : 1 + g.below(4);
        std::string cfg;
        for (size_t i = 0; i < n; ++i)
        {
            Seg s;
            s.w = writers[i];
            s.r = g.chance(1, 4) && !half ? s.w : half ? 10 + long(g.chance(1, 12)) : long(g.below(uint32_t(total)));
            long size = 0;
            std::string ps;
            size_t np = g.chance(1, 8) ? MAX_NUMBER_OF_MEMPOOLS : 1 + g.below(3);
            for (size_t k = 0; k < np; ++k)
            {
                size += 8 * (1 + long(g.below(g.chance(1, 3) ? 60 : 6)));
                // sometimes not in order, sometimes not aligned
                long sz = g.chance(1, 60) ? std::max(8l, size - 56) : size;
                sz += g.chance(1, 100) ? 4 : 0;
                s.pools.push_back({1 + long(g.below(4)), sz});
                ps += fmt("%s[%ld,%ld]", ps.empty() ? "" : ",", s.pools.back().first, sz);
            }
            segs.push_back(s);
            cfg += fmt("%s{\"r\":%ld,\"w\":%ld,\"pools\":[%s]}", cfg.empty() ? "" : ",", s.r, s.w, ps.c_str());
        }
        p.cfg = fmt("{\"segs\":[%s],\"hdr\":%d}", cfg.c_str(), int(sizeof(mepoo::ChunkHeader)));
        p.prelude.push_back({"create", {}});
        p.prelude.push_back({"layout", {}});
        for (uint32_t i = 6 + g.below(10); i > 0; --i)
        {
            V groups;
            auto x = g.below(8);
            bool all = g.chance(1, 6);
            long w = -1;
            if (g.chance(2, 3))
            {
                w = segs[g.below(uint32_t(n))].w;
                groups.push_back(w);
            }
            for (long k = 0; k < total; ++k)
            {
                bool writer = false;
                for (auto& s : segs)
                {
                    writer = writer || s.w == k;
                }
                // rarely a second one with write access
                if (k != w && (writer ? (w < 0 && groups.empty() ? g.chance(1, 8) : g.chance(1, 60)) : (all || g.chance(1, 3))))
                {
                    groups.insert(groups.begin() + g.below(uint32_t(groups.size() + 1)), k);
                }
            }
            long s = 1 + long(g.below(uint32_t(n)));
            int ambiguous = 0;
            for (auto& y : segs)
            {
                ambiguous += std::count(groups.begin(), groups.end(), y.w) > 0;
            }
            if (x < 2)
            {
                p.prelude.push_back({"map", groups});
            }
            else if (x < 5)
            {
                p.prelude.push_back({"attach", groups});
            }
            else if (x < 6 && ambiguous < 2)
            {
                p.prelude.push_back({"write", groups});
            }
            else if (x < 7)
            {
                p.prelude.push_back({"alloc", {s, long(g.below(uint32_t(segs[size_t(s - 1)].pools.back().second + 20)))}});
            }
            else
            {
                p.prelude.push_back({"acl", {s}});
            }
        }
        return p;
    };
    beforeRun() = [] {
        UntypedRelativePointer::unregisterAll();
        fib::forgetLocks();
        g_fake = false;
        if (g_open)
        {
            tidy();
            g_open = false;
        }
        if (g_domain >= 60)
        {
            g_domain = 0;
            removeLeftovers();
        }
    };
    explore(c, "sg " + kind, r, seed, programs, schedules, false, gen, [&](const Program&) -> Obj* { return new Sg(segs); }, 4000000, 100000);
    removeLeftovers();
    c.write(argv[6]);
    return 0;
}
