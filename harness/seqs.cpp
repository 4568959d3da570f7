// fixed-capacity containers: vector, list, forward_list, stack, FixedPositionContainer
#include "objrun.hpp"
#include "tracked.hpp"
#include "iox/fixed_position_container.hpp"
#include "iox/forward_list.hpp"
#include "iox/list.hpp"
#include "iox/stack.hpp"
#include "iox/vector.hpp"
using namespace iox;
namespace
{
// trivially copyable, but not trivial
struct Half
{
    long v{-1};
    Half() = default;
    Half(long x)
        : v(x)
    {
    }
    bool operator==(const Half& o) const
    {
        return v == o.v;
    }
    bool operator!=(const Half& o) const
    {
        return v != o.v;
    }
};
long val(long x)
{
    return x;
}
long val(const Half& x)
{
    return x.v;
}
long val(const Tracked& x)
{
    return x.value();
}
template <typename C>
struct Is
{
    static constexpr int KIND = 0;
};
template <typename T, uint64_t N>
struct Is<vector<T, N>>
{
    static constexpr int KIND = 1;
};
template <typename T, uint64_t N>
struct Is<list<T, N>>
{
    static constexpr int KIND = 2;
};
template <typename T, uint64_t N>
struct Is<forward_list<T, N>>
{
    static constexpr int KIND = 3;
};
template <typename T, uint64_t N>
struct Is<stack<T, N>>
{
    static constexpr int KIND = 4;
};
template <typename T, uint64_t N>
struct Is<FixedPositionContainer<T, N>>
{
    static constexpr int KIND = 5;
};

template <typename C, typename T, uint64_t CAP>
struct Box : Obj
{
    static constexpr int K = Is<C>::KIND;
    C* a{new C()};
    C* b{new C()};
    bool odd{false}; // something contradicts itself
    Box()
    {
        Tracked::reset();
    }
    ~Box() override
    {
        delete a;
        delete b;
    }
    V addresses(C& c)
    {
        V v;
        if constexpr (K != 4)
        {
            for (auto& x : c)
            {
                v.push_back(long(&x));
            }
        }
        return v;
    }
    static bool within(const V& s, const V& l)
    {
        size_t i = 0;
        for (auto x : l)
        {
            i += i < s.size() && s[i] == x;
        }
        return i == s.size();
    }
    V content(C& c)
    {
        V v;
        const C& cc = c;
        if constexpr (K == 4)
        {
            C copy(cc);
            while (true)
            {
                auto x = copy.pop();
                if (!x.has_value())
                {
                    break;
                }
                v.insert(v.begin(), val(*x));
            }
        }
        else if constexpr (K == 5)
        {
            for (auto it = c.begin(); it != c.end(); ++it)
            {
                v.push_back(long(it.to_index()));
                v.push_back(val(*it));
                odd |= it.to_ptr() != &*it || c.iter_from_index(it.to_index()) == c.end();
            }
            size_t n = 0;
            for (auto it = cc.cbegin(); it != cc.cend(); ++it, ++n)
            {
                odd |= n * 2 + 1 >= v.size() || v[n * 2 + 1] != val(*it);
            }
            odd |= n * 2 != v.size();
            odd |= cc.full() != (cc.size() == CAP) || cc.empty() != (cc.size() == 0);
            odd |= n != cc.size();
            return v;
        }
        else
        {
            for (auto& x : cc)
            {
                v.push_back(val(x));
                if (v.size() > CAP + 1)
                {
                    break;
                }
            }
        }
        odd |= v.size() != cc.size() || cc.capacity() != CAP;
        if constexpr (K != 4)
        {
            odd |= cc.empty() != v.empty();
        }
        if constexpr (K == 1)
        {
            for (size_t i = 0; i < v.size(); ++i)
            {
                odd |= val(cc[i]) != v[i] || val(cc.data()[i]) != v[i] || val(c.at(i)) != v[i];
            }
        }
        if constexpr (K == 2)
        {
            V w;
            for (auto it = cc.cend(); it != cc.cbegin() && w.size() <= CAP;)
            {
                --it;
                w.insert(w.begin(), val(*it));
            }
            odd |= w != v;
        }
        if constexpr (K == 2 || K == 3)
        {
            odd |= cc.full() != (v.size() == CAP);
        }
        return v;
    }
    template <typename I>
    long position(I it)
    {
        long n = 0;
        for (auto i = a->begin(); i != a->end(); ++i, ++n)
        {
            if (i == it)
            {
                return n;
            }
        }
        return -1;
    }
    bool mayFail{false};
    bool prepare(int, Op& op) override
    {
        if (!mayFail)
        {
            if ((op.o == "front" || op.o == "back") && a->size() == 0)
            {
                return false;
            }
            if (op.o == "at" && op.a[0] >= long(a->size()))
            {
                return false;
            }
            if constexpr (K == 5)
            {
                if (op.o == "drop")
                {
                    if (a->size() == 0)
                    {
                        return false;
                    }
                    auto it = a->begin();
                    for (long i = op.a[1] % long(a->size()); i > 0; --i)
                    {
                        ++it;
                    }
                    op.a[1] = long(it.to_index());
                }
            }
        }
        // iterators only up to the end
        if (K == 2 || K == 3)
        {
            if (op.o == "erase" || op.o == "emplace" || op.o == "insert" || op.o == "insertM")
            {
                return op.a[0] <= long(a->size());
            }
        }
        return true;
    }
    V exec(int, const Op& op) override
    {
        auto before = addresses(*a);
        odd = false;
        V r = act(op);
        if constexpr (K == 2 || K == 3 || K == 5)
        {
            if (op.o != "moveAssign" && op.o != "copyAssign" && op.o != "swap" && op.o != "ctorCopy" && op.o != "ctorMove")
            {
                auto after = addresses(*a);
                odd |= !within(before, after) && !within(after, before);
            }
        }
        auto x = content(*a), y = content(*b);
        r.push_back(long(x.size()));
        r.insert(r.end(), x.begin(), x.end());
        r.push_back(long(y.size()));
        r.insert(r.end(), y.begin(), y.end());
        long n = long(a->size() + b->size());
        r.push_back(std::is_same<T, Tracked>::value ? Tracked::alive() - n : 0);
        r.push_back(Tracked::wrong());
        r.push_back(odd);
        return r;
    }
    V act(const Op& op)
    {
        auto& o = op.o;
        long p = op.a.size() > 1 ? op.a[0] : 0;
        long x = op.a.empty() ? 0 : op.a.back();
        if (o == "copyAssign")
        {
            *a = static_cast<const C&>(*b);
            return {1};
        }
        if (o == "moveAssign")
        {
            *a = std::move(*b);
            return {1};
        }
        if (o == "selfAssign")
        {
            C& s = *a;
            if (x)
            {
                *a = s;
            }
            else
            {
                *a = std::move(s);
            }
            return {1};
        }
        if (o == "ctorCopy")
        {
            delete b;
            b = new C(static_cast<const C&>(*a));
            return {1};
        }
        if (o == "ctorMove")
        {
            delete b;
            b = new C(std::move(*a));
            return {1};
        }
        if (o == "swap")
        {
            std::swap(*a, *b);
            return {1};
        }
        if (o == "clear")
        {
            a->clear();
            return {1};
        }
        if constexpr (K == 1)
        {
            if (o == "eq")
            {
                return {(*a == *b) + 2 * (*a != *b)};
            }
            if (o == "resize")
            {
                if (x == -1)
                {
                    return {a->resize(uint64_t(p), T{-1})};
                }
                return {a->resize(uint64_t(p), T{x})};
            }
            if (o == "ctorN")
            {
                delete b;
                b = new C(uint64_t(p), T{x});
                return {1};
            }
            if (o == "at")
            {
                return {val(a->at(uint64_t(x)))};
            }
            if (o == "erase")
            {
                return {a->erase(a->begin() + x)};
            }
            if (o == "emplace")
            {
                return {a->emplace(uint64_t(p), x)};
            }
            if (o == "emplaceBack")
            {
                return {a->emplace_back(x)};
            }
        }
        if constexpr (K == 1 || K == 2)
        {
            if (o == "pushBack")
            {
                const T t{x};
                return {a->push_back(t)};
            }
            if (o == "pushBackM")
            {
                T t{x};
                return {a->push_back(std::move(t))};
            }
            if (o == "popBack")
            {
                return {a->pop_back()};
            }
            if (o == "back")
            {
                return {val(static_cast<const C*>(a)->back())};
            }
        }
        if constexpr (K == 1 || K == 2 || K == 3)
        {
            if (o == "front")
            {
                return {val(a->front())};
            }
        }
        if constexpr (K == 2 || K == 3)
        {
            if (o == "pushFront")
            {
                const T t{x};
                return {a->push_front(t)};
            }
            if (o == "pushFrontM")
            {
                T t{x};
                return {a->push_front(std::move(t))};
            }
            if (o == "popFront")
            {
                return {a->pop_front()};
            }
            if (o == "remove")
            {
                const T t{x};
                return {long(a->remove(t))};
            }
            if (o == "removeIf")
            {
                return {long(a->remove_if([&](T& t) { return val(t) % 2 == x; }))};
            }
        }
        if constexpr (K == 2)
        {
            auto it = a->begin();
            for (long i = 0; i < (o == "erase" ? x : p); ++i)
            {
                ++it;
            }
            if (o == "emplace")
            {
                return {position(a->emplace(it, x))};
            }
            if (o == "insert")
            {
                const T t{x};
                return {position(a->insert(it, t))};
            }
            if (o == "insertM")
            {
                T t{x};
                return {position(a->insert(it, std::move(t)))};
            }
            if (o == "erase")
            {
                return {position(a->erase(it))};
            }
        }
        if constexpr (K == 3)
        {
            auto it = a->before_begin();
            for (long i = 0; i < (o == "erase" ? x : p); ++i)
            {
                ++it;
            }
            if (o == "emplace")
            {
                return {position(a->emplace_after(it, x))};
            }
            if (o == "insert")
            {
                const T t{x};
                return {position(a->insert_after(it, t))};
            }
            if (o == "insertM")
            {
                T t{x};
                return {position(a->insert_after(it, std::move(t)))};
            }
            if (o == "erase")
            {
                return {position(a->erase_after(it))};
            }
        }
        if constexpr (K == 4)
        {
            if (o == "pushBack")
            {
                return {a->push(x)};
            }
            if (o == "popValue")
            {
                auto e = a->pop();
                return {e.has_value() ? val(*e) : -99};
            }
        }
        if constexpr (K == 5)
        {
            using I = typename C::IndexType;
            if (o == "put")
            {
                auto it = a->emplace(x);
                return {it == a->end() ? -1 : long(it.to_index())};
            }
            if (o == "insert")
            {
                const T t{x};
                auto it = a->insert(t);
                return {it == a->end() ? -1 : long(it.to_index())};
            }
            if (o == "drop")
            {
                // by index, iterator, pointer
                auto i = a->iter_from_index(I(x));
                if (p != 0 && i == a->end())
                {
                    p = 0;
                }
                auto n = p == 0 ? a->erase(I(x)) : p == 1 ? a->erase(i) : a->erase(i.to_ptr());
                return {n == a->end() ? -1 : long(n.to_index())};
            }
            if (o == "has")
            {
                auto it = a->iter_from_index(I(x));
                return {it == a->end() ? -1 : val(*it)};
            }
        }
        fprintf(stderr, "unknown %s\n", o.c_str());
        exit(2);
    }
};
using Make = Obj* (*)();
bool g_mayFail = false;
template <typename C, typename T, uint64_t N>
Obj* mk()
{
    auto b = new Box<C, T, N>();
    b->mayFail = g_mayFail;
    return b;
}
template <template <typename, uint64_t> class C>
Make choose(int t, uint64_t n)
{
    switch (t * 10 + int(n))
    {
    case 1:
        return mk<C<long, 1>, long, 1>;
    case 3:
        return mk<C<long, 3>, long, 3>;
    case 5:
        return mk<C<long, 5>, long, 5>;
    case 11:
        return mk<C<Half, 1>, Half, 1>;
    case 13:
        return mk<C<Half, 3>, Half, 3>;
    case 15:
        return mk<C<Half, 5>, Half, 5>;
    case 21:
        return mk<C<Tracked, 1>, Tracked, 1>;
    case 23:
        return mk<C<Tracked, 3>, Tracked, 3>;
    default:
        return mk<C<Tracked, 5>, Tracked, 5>;
    }
}
} // namespace
int main(int argc, char** argv)
{
    if (argc < 5)
    {
        return 2;
    }
    std::string kind = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    int programs = atoi(argv[3]);
    Collector c{size_t(atoi(argv[4]))};
    installErrorHandler();
    Rng r(seed);
    Make make = nullptr;
    auto gen = [&](Rng& g) {
        Program p;
        uint64_t cap = g.chance(1, 8) ? 1 : g.chance(1, 2) ? 3 : 5;
        int type = g.chance(1, 2) ? 2 : int(g.below(2));
        make = kind == "vector"  ? choose<vector>(type, cap)
               : kind == "list"  ? choose<list>(type, cap)
               : kind == "flist" ? choose<forward_list>(type, cap)
               : kind == "stack" ? choose<stack>(type, cap)
                                 : choose<FixedPositionContainer>(type, cap);
        p.cfg = fmt("{\"kind\":\"%s\",\"cap\":%lu}", kind.c_str(), cap);
        std::vector<std::string> ops = {"copyAssign", "moveAssign", "selfAssign", "ctorCopy", "ctorMove", "swap", "clear"};
        std::vector<std::string> grow, shrink;
        if (kind == "vector")
        {
            for (auto s : {"eq", "resize", "ctorN", "at", "back", "front"})
            {
                ops.push_back(s);
            }
            grow = {"emplace", "emplaceBack", "pushBack", "pushBackM", "emplace"};
            shrink = {"erase", "popBack", "erase"};
        }
        else if (kind == "list" || kind == "flist")
        {
            ops.push_back("front");
            grow = {"pushFront", "pushFrontM", "emplace", "insert", "insertM"};
            shrink = {"popFront", "remove", "removeIf", "erase", "erase"};
            if (kind == "list")
            {
                ops.push_back("back");
                grow.push_back("pushBack");
                grow.push_back("pushBackM");
                shrink.push_back("popBack");
            }
        }
        else if (kind == "stack")
        {
            grow = {"pushBack"};
            shrink = {"popValue"};
        }
        else
        {
            ops.push_back("has");
            grow = {"put", "insert"};
            shrink = {"drop"};
        }
        g_mayFail = g.chance(1, 12);
        uint32_t n = 12 + g.below(25);
        bool up = true;
        for (uint32_t i = 0; i < n; ++i)
        {
            if (g.chance(1, 5))
            {
                up = !up;
            }
            auto& from = g.chance(1, 4) ? ops : g.chance(3, 4) == up ? grow : shrink;
            auto o = from[g.below(uint32_t(from.size()))];
            long x = long(g.below(4));
            auto at = [&](uint64_t m) { return long(g.chance(9, 10) ? g.below(uint32_t(std::min<uint64_t>(m, 3) + 1)) : g.below(uint32_t(m + 1))); };
            V a;
            if (o == "emplace" || o == "insert" || o == "insertM")
            {
                a = kind == "fpc" ? V{x} : V{at(cap), x};
            }
            else if (o == "resize" || o == "ctorN")
            {
                a = {long(g.below(uint32_t(cap + 2))), x};
            }
            else if (o == "at" || o == "erase")
            {
                a = {at(cap - 1)};
            }
            else if (o == "has")
            {
                a = {long(g.below(uint32_t(cap)))};
            }
            else if (o == "drop")
            {
                a = {long(g.below(3)), long(g.below(uint32_t(cap)))};
            }
            else if (o == "selfAssign" || o == "removeIf")
            {
                a = {x % 2};
            }
            else if (from == grow || o == "remove" || o == "put")
            {
                a = {x};
            }
            p.prelude.push_back({o, a});
        }
        return p;
    };
    explore(c, "seqs " + kind, r, seed, programs, 0, false, gen, [&](const Program&) { return make(); });
    c.write(argv[5]);
    return 0;
}
