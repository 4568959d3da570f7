// relative and relocatable pointers, bump allocator
#include "objrun.hpp"
#include "iox/bump_allocator.hpp"
#include "iox/detail/relative_pointer_data.hpp"
#include "iox/relative_pointer.hpp"
#include "iox/relocatable_ptr.hpp"
using namespace iox;
namespace
{
constexpr long SLOTS = 3;
struct Thing
{
    long x[4];
};
// addresses are never dereferenced
struct Rel : Obj
{
    using P = RelativePointer<Thing>;
    using Repo = std::remove_reference_t<decltype(getRepository())>;
    P p[SLOTS];
    std::vector<unsigned char> saved[3]; // registrations of the other process
    long cur{1};
    static Thing* at(long a)
    {
        return reinterpret_cast<Thing*>(a);
    }
    Rel()
    {
        for (auto& s : saved)
        {
            s.resize(sizeof(Repo));
            Repo* fresh = new Repo;
            memcpy(s.data(), static_cast<void*>(fresh), sizeof(Repo));
            delete fresh;
        }
        restore(1);
    }
    void save(long k)
    {
        memcpy(saved[k].data(), static_cast<void*>(&getRepository()), sizeof(Repo));
    }
    void restore(long k)
    {
        memcpy(static_cast<void*>(&getRepository()), saved[k].data(), sizeof(Repo));
    }
    V exec(int, const Op& op) override
    {
        V r = act(op);
        for (long i = 0; i < SLOTS; ++i)
        {
            // segment, offset, address; nothing is promised for a segment that is not registered here
            bool null = p[i].getId() == P::NULL_POINTER_ID;
            bool known = null || p[i].getId() == 0 || P::getBasePtr(segment_id_t{p[i].getId()}) != nullptr;
            auto a = p[i].get();
            long wrong = (p[i] == nullptr) != (a == nullptr) || bool(p[i]) != (a != nullptr) || !(p[i] == a) || p[i] != a || p[i].getBasePtr() != P::getBasePtr(segment_id_t{p[i].getId()})
                         || p[i].computeRawPtr() != a || P::getPtr(segment_id_t{p[i].getId()}, p[i].getOffset()) != a;
            r.push_back(null ? -1 : long(p[i].getId()));
            r.push_back(null ? -1 : long(p[i].getOffset()));
            r.push_back(known && !null ? long(reinterpret_cast<uintptr_t>(a)) : -1);
            if (wrong)
            {
                r.push_back(-wrong);
            }
        }
        return r;
    }
    V act(const Op& op)
    {
        auto& o = op.o;
        auto& a = op.a;
        if (o == "reg")
        {
            auto x = P::registerPtr(at(a[0]), uint64_t(a[1]));
            return {x.has_value() ? long(*x) : -1};
        }
        if (o == "regId")
        {
            return {P::registerPtrWithId(segment_id_t{uint64_t(a[0])}, at(a[1]), uint64_t(a[2]))};
        }
        if (o == "unreg")
        {
            return {P::unregisterPtr(segment_id_t{uint64_t(a[0])})};
        }
        if (o == "unregAll")
        {
            P::unregisterAll();
            return {1};
        }
        if (o == "base")
        {
            return {long(reinterpret_cast<uintptr_t>(P::getBasePtr(segment_id_t{uint64_t(a[0])})))};
        }
        if (o == "search")
        {
            auto id = P::searchId(at(a[0]));
            return {id == P::NULL_POINTER_ID ? -1 : long(id)};
        }
        if (o == "process")
        {
            save(cur);
            cur = a[0];
            restore(cur);
            return {1};
        }
        if (o == "set")
        {
            p[a[0]] = at(a[1]);
            return {1};
        }
        if (o == "ctor")
        {
            new (&p[a[0]]) P(at(a[1]));
            return {1};
        }
        if (o == "ctorId") // address and id
        {
            new (&p[a[0]]) P(at(a[1]), segment_id_t{uint64_t(a[2])});
            return {1};
        }
        if (o == "ctorOff") // offset and id
        {
            new (&p[a[0]]) P(uint64_t(a[1]), segment_id_t{uint64_t(a[2])});
            return {1};
        }
        if (o == "copy")
        {
            p[a[0]] = const_cast<const P&>(p[a[1]]);
            return {1};
        }
        if (o == "copyCtor")
        {
            P x(p[a[1]]);
            new (&p[a[0]]) P(x);
            return {1};
        }
        if (o == "move")
        {
            p[a[0]] = std::move(p[a[1]]);
            return {1};
        }
        if (o == "moveCtor")
        {
            P x(std::move(p[a[1]]));
            new (&p[a[0]]) P(std::move(x));
            return {1};
        }
        if (o == "data") // id, offset in two parts: packed and unpacked
        {
            RelativePointerData d(uint16_t(a[0]), (uint64_t(a[1]) << 24) | uint64_t(a[2]));
            auto e = d;
            if (a[3])
            {
                e.reset();
            }
            return {long(e.id()), long(e.offset() >> 24), long(e.offset() & 0xffffff), e.isLogicalNullptr()};
        }
        exit(2);
    }
    bool prepare(int, Op& op) override
    {
        // pointers are made only with segments that are registered
        if (op.o == "ctorId")
        {
            auto b = P::getBasePtr(segment_id_t{uint64_t(op.a[2])});
            op.a[1] += long(reinterpret_cast<uintptr_t>(b));
            return b != nullptr;
        }
        return true;
    }
};
// pointers that stand in an arena and point into it, while the arena moves
struct Reloc : Obj
{
    static constexpr long N = 16;
    using R = relocatable_ptr<uint64_t>;
    std::vector<uint64_t> mem[2];
    int cur{0};
    Reloc()
    {
        for (auto& m : mem)
        {
            m.resize(N * 3, 0x5a5a5a5a5a5a5a5a);
        }
        for (long i = 0; i < SLOTS; ++i)
        {
            new (&mem[0][size_t(i) * 5]) R();
        }
    }
    R& p(long i)
    {
        return *reinterpret_cast<R*>(&mem[cur][size_t(i) * 5]);
    }
    uint64_t* to(long w)
    {
        return w < 0 ? nullptr : &mem[cur][size_t(w)];
    }
    V exec(int, const Op& op) override
    {
        auto& o = op.o;
        auto& a = op.a;
        if (o == "set")
        {
            p(a[0]) = to(a[1]);
        }
        else if (o == "ctor")
        {
            new (&p(a[0])) R(to(a[1]));
        }
        else if (o == "copy")
        {
            p(a[0]) = const_cast<const R&>(p(a[1]));
        }
        else if (o == "copyCtor")
        {
            R x(p(a[1]));
            new (&p(a[0])) R(x);
        }
        else if (o == "move")
        {
            p(a[0]) = std::move(p(a[1]));
        }
        else if (o == "moveCtor")
        {
            R x(std::move(p(a[1])));
            new (&p(a[0])) R(std::move(x));
        }
        else if (o == "relocate")
        {
            memcpy(mem[1 - cur].data(), mem[cur].data(), N * 8);
            memset(mem[cur].data(), 0x77, N * 8);
            cur = 1 - cur;
        }
        V r{1};
        for (long i = 0; i < SLOTS; ++i)
        {
            auto x = p(i).get();
            bool odd = x != const_cast<const R&>(p(i)).get() || x != static_cast<uint64_t*>(p(i)) || (p(i) == p((i + 1) % SLOTS)) != (x == p((i + 1) % SLOTS).get());
            r.push_back(odd ? -9 : x == nullptr ? -1 : x - mem[cur].data());
        }
        return r;
    }
};
struct Bump : Obj
{
    alignas(4096) unsigned char mem[8192];
    BumpAllocator b;
    long base;
    Bump(long base, long len)
        : b(mem + base, uint64_t(len))
        , base(base)
    {
    }
    V exec(int, const Op& op) override
    {
        if (op.o == "free")
        {
            b.deallocate();
            return {1};
        }
        uint64_t size = op.a[0] < 0 ? uint64_t(0) - uint64_t(-op.a[0]) : uint64_t(op.a[0]);
        auto x = b.allocate(size, uint64_t(op.a[1]));
        if (x.has_error())
        {
            return {x.error() == BumpAllocatorError::REQUESTED_ZERO_SIZED_MEMORY ? -2 : -1};
        }
        return {long(static_cast<unsigned char*>(x.value()) - (mem + base))};
    }
};
} // namespace
int main(int argc, char** argv)
{
    if (argc < 6)
    {
        return 2;
    }
    std::string kind = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    int programs = atoi(argv[3]);
    Collector c{size_t(atoi(argv[4]))};
    installErrorHandler();
    Rng r(seed);
    std::function<Obj*()> make;
    auto gen = [&](Rng& g) {
        Program p;
        p.cfg = "{\"kind\":\"" + kind + "\",\"base\":0,\"len\":0}";
        uint32_t n = 8 + g.below(18);
        if (kind == "rel")
        {
            make = [] { return new Rel; };
            // segments: disjoint blocks of an address space, possibly adjacent, each process with its own places
            long size[5], base[3][5];
            for (auto& s : size)
            {
                s = g.chance(1, 6) ? 1 : long(1 + g.below(60));
            }
            for (int k = 1; k <= 2; ++k)
            {
                std::vector<int> order{0, 1, 2, 3, 4};
                for (size_t i = 4; i > 0; --i)
                {
                    std::swap(order[i], order[g.below(uint32_t(i + 1))]);
                }
                long at = long(100 + g.below(50));
                for (auto s : order)
                {
                    at += g.chance(1, 2) ? 0 : long(g.below(40));
                    base[k][s] = at;
                    at += size[s];
                }
            }
            int proc = 1;
            auto seg = [&] { return int(g.below(5)); };
            auto addr = [&]() -> long {
                if (g.chance(1, 8))
                {
                    return 0;
                }
                if (g.chance(1, 6))
                {
                    return long(50 + g.below(600));
                }
                int s = seg();
                switch (g.below(5))
                {
                case 0:
                    return base[proc][s];
                case 1:
                    return base[proc][s] + size[s] - 1;
                case 2:
                    return base[proc][s] + size[s];
                case 3:
                    return base[proc][s] - 1;
                default:
                    return base[proc][s] + long(g.below(uint32_t(size[s])));
                }
            };
            n += 10;
            for (uint32_t i = 0; i < n; ++i)
            {
                auto x = g.below(20);
                long a = long(g.below(SLOTS)), b = long(g.below(SLOTS));
                int s = seg();
                if (i < 3 || x < 4)
                {
                    if (g.chance(1, 3))
                    {
                        p.prelude.push_back({"reg", {base[proc][s], size[s]}});
                    }
                    else
                    {
                        p.prelude.push_back({"regId", {g.chance(1, 12) ? long(g.below(2) ? 9999 : 10000) : s + 1, base[proc][s], size[s]}});
                    }
                }
                else if (x < 6)
                {
                    p.prelude.push_back({"unreg", {g.chance(1, 10) ? long(g.below(2) ? 10000 : 0) : s + 1}});
                }
                else if (x < 7)
                {
                    p.prelude.push_back({g.chance(1, 4) ? "unregAll" : "base", {s + 1}});
                }
                else if (x < 9)
                {
                    proc = 3 - proc;
                    p.prelude.push_back({"process", {proc}});
                }
                else if (x < 11)
                {
                    p.prelude.push_back({"search", {addr()}});
                }
                else if (x < 14)
                {
                    p.prelude.push_back({g.chance(1, 2) ? "set" : "ctor", {a, addr()}});
                }
                else if (x < 15)
                {
                    p.prelude.push_back({"ctorId", {a, long(g.below(uint32_t(size[s]))), s + 1}});
                }
                else if (x < 16)
                {
                    p.prelude.push_back({"ctorOff", {a, long(g.below(uint32_t(size[s]))), s + 1}});
                }
                else if (x < 19)
                {
                    static const char* names[] = {"copy", "copyCtor", "move", "moveCtor"};
                    p.prelude.push_back({names[g.below(4)], {a, b}});
                }
                else
                {
                    auto part = [&] { return g.chance(1, 3) ? 0xffffff : g.chance(1, 2) ? 0xfffffe : long(g.below(0x1000000)); };
                    p.prelude.push_back({"data", {g.chance(1, 2) ? long(g.below(65536)) : long(65533 + g.below(3)), part(), part(), g.chance(1, 8)}});
                }
            }
        }
        else if (kind == "reloc")
        {
            make = [] { return new Reloc; };
            static const char* names[] = {"set", "ctor", "copy", "copyCtor", "move", "moveCtor", "relocate", "relocate"};
            for (uint32_t i = 0; i < n; ++i)
            {
                std::string o = names[g.below(8)];
                long a = long(g.below(SLOTS)), b = long(g.below(SLOTS));
                p.prelude.push_back({o, o == "set" || o == "ctor" ? V{a, long(g.below(Reloc::N + 1)) - 1} : o == "relocate" ? V{} : V{a, b}});
            }
        }
        else
        {
            long base = long(g.below(200)), len = g.chance(1, 4) ? long(g.below(20)) : long(g.below(2000));
            make = [=] { return new Bump(base, len); };
            p.cfg = fmt("{\"kind\":\"bump\",\"base\":%ld,\"len\":%ld}", base, len);
            for (uint32_t i = 0; i < n; ++i)
            {
                if (g.chance(1, 12))
                {
                    p.prelude.push_back({"free", {}});
                }
                else
                {
                    long size = g.chance(1, 15) ? -long(1 + g.below(2100)) : g.chance(1, 20) ? 0 : g.chance(1, 8) ? len : long(g.below(uint32_t(len / 3 + 2)));
                    p.prelude.push_back({"alloc", {size, 1l << g.below(9)}});
                }
            }
        }
        return p;
    };
    explore(c, "relp " + kind, r, seed, programs, 0, false, gen, [&](const Program&) { return make(); });
    c.write(argv[5]);
    return 0;
}
