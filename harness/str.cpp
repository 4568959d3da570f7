// fixed-capacity string
#include "objrun.hpp"
#include "iox/string.hpp"
#include "iox/std_string_support.hpp"
using namespace iox;
namespace
{
template <uint64_t CAP>
struct Str : Obj
{
    using S = string<CAP>;
    S a, b;
    bool odd{false};
    static std::string plain(const V& v, size_t from)
    {
        std::string s;
        for (size_t i = from; i < v.size(); ++i)
        {
            s += char(v[i]);
        }
        return s;
    }
    template <typename X>
    V dump(const X& s)
    {
        V v{long(s.size())};
        for (uint64_t i = 0; i < s.size(); ++i)
        {
            v.push_back(long(static_cast<unsigned char>(s.c_str()[i])));
            odd |= s.unchecked_at(i) != s.c_str()[i];
        }
        odd |= s.c_str()[s.size()] != 0 || s.empty() != (s.size() == 0) || s.capacity() < s.size();
        return v;
    }
    V exec(int, const Op& op) override
    {
        odd = false;
        V r = act(op);
        for (auto x : {&a, &b})
        {
            auto v = dump(*x);
            r.insert(r.end(), v.begin(), v.end());
        }
        r.push_back(odd);
        return r;
    }
    static long sign(int64_t x)
    {
        return x < 0 ? -1 : x > 0 ? 1 : 0;
    }
    template <typename X>
    V cmp(const X& x)
    {
        auto s = sign(a.compare(x));
        odd |= (a == x) != (s == 0) || (a != x) != (s != 0) || (a < x) != (s < 0) || (a <= x) != (s <= 0) || (a > x) != (s > 0) || (a >= x) != (s >= 0);
        odd |= (x == a) != (s == 0) || (x < a) != (s > 0) || (x >= a) != (s <= 0);
        return {s};
    }
    V act(const Op& op)
    {
        auto& o = op.o;
        if (o == "assign")
        {
            auto s = plain(op.a, 0);
            return {a.unsafe_assign(s.c_str())};
        }
        if (o == "trunc")
        {
            auto s = plain(op.a, 1);
            a = op.a[0] < 0 ? S(TruncateToCapacity, s.c_str()) : S(TruncateToCapacity, s.c_str(), uint64_t(op.a[0]));
            return {1};
        }
        if (o == "append") // b
        {
            return {a.unsafe_append(b)};
        }
        if (o == "appendT")
        {
            a.append(TruncateToCapacity, b);
            return {1};
        }
        if (o == "appendC")
        {
            return {a.unsafe_append(char(op.a[0]))};
        }
        if (o == "appendCT")
        {
            a.append(TruncateToCapacity, char(op.a[0]));
            return {1};
        }
        if (o == "appendStd")
        {
            auto s = plain(op.a, 0);
            return {a.unsafe_append(s)};
        }
        if (o == "insert") // pos, count, from b
        {
            return {a.insert(uint64_t(op.a[0]), b, uint64_t(op.a[1]))};
        }
        if (o == "substr") // into b
        {
            auto x = op.a[1] < 0 ? a.substr(uint64_t(op.a[0])) : a.substr(uint64_t(op.a[0]), uint64_t(op.a[1]));
            if (x.has_value())
            {
                b = *x;
            }
            return {x.has_value()};
        }
        if (o == "find" || o == "findFirst" || o == "findLast")
        {
            auto f = [&](const auto& x) {
                return o == "find" ? a.find(x, uint64_t(op.a[0])) : o == "findFirst" ? a.find_first_of(x, uint64_t(op.a[0])) : a.find_last_of(x, uint64_t(op.a[0]));
            };
            std::string s(b.c_str());
            auto x = f(b), y = f(s);
            odd |= x != y;
            return {x.has_value() ? long(*x) : -1};
        }
        if (o == "compare")
        {
            std::string s(b.c_str());
            auto x = cmp(b), y = cmp(s);
            odd |= x != y;
            return x;
        }
        if (o == "compareC")
        {
            return cmp(char(op.a[0]));
        }
        if (o == "at")
        {
            return {long(static_cast<unsigned char>(a.at(uint64_t(op.a[0]))))};
        }
        if (o == "concat")
        {
            auto c = concatenate(a, b, 'x');
            auto d = a + b;
            V r = dump(c);
            auto v = dump(d);
            r.insert(r.end(), v.begin(), v.end());
            return r;
        }
        if (o == "concatC")
        {
            return dump(concatenate('x', a));
        }
        if (o == "clear")
        {
            a.clear();
            return {1};
        }
        if (o == "copyAssign")
        {
            a = b;
            return {1};
        }
        if (o == "moveAssign")
        {
            a = std::move(b);
            return {1};
        }
        if (o == "selfAssign")
        {
            S& s = a;
            a = s;
            a = std::move(s);
            return {1};
        }
        if (o == "ctorMove")
        {
            S c(std::move(a));
            b = c;
            return {1};
        }
        if (o == "swap")
        {
            std::swap(a, b);
            return {1};
        }
        if (o == "raw") // writes the characters directly
        {
            a.unsafe_raw_access([&](auto* p, auto info) -> uint64_t {
                odd |= info.total_size != CAP + 1 || info.used_size != a.size();
                uint64_t i = 0;
                for (auto x : op.a)
                {
                    if (i < CAP)
                    {
                        p[i++] = char(x);
                    }
                }
                p[i] = 0;
                return i;
            });
            return {1};
        }
        if (o == "std")
        {
            auto s = into<std::string>(a);
            b.unsafe_assign(s.c_str());
            return {1};
        }
        fprintf(stderr, "unknown %s\n", o.c_str());
        exit(2);
    }
    bool mayFail{false};
    bool prepare(int, Op& op) override
    {
        return mayFail || op.o != "at" || op.a[0] < long(a.size());
    }
};
} // namespace
int main(int argc, char** argv)
{
    if (argc < 6)
    {
        return 2;
    }
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    int programs = atoi(argv[3]);
    Collector c{size_t(atoi(argv[4]))};
    installErrorHandler();
    Rng r(seed);
    std::function<Obj*()> make;
    auto gen = [&](Rng& g) {
        Program p;
        uint64_t cap = g.chance(1, 8) ? 1 : g.chance(1, 2) ? 4 : 10;
        bool mf = g.chance(1, 20);
        make = [=]() -> Obj* {
            auto set = [&](auto* x) -> Obj* {
                x->mayFail = mf;
                return x;
            };
            return cap == 1 ? set(new Str<1>) : cap == 4 ? set(new Str<4>) : set(new Str<10>);
        };
        p.cfg = fmt("{\"cap\":%lu}", cap);
        static const char* names[] = {"assign", "assign", "trunc", "append", "append", "appendT", "appendC", "appendC", "appendCT", "appendStd", "insert", "insert", "insert", "substr", "substr", "substr", "find", "find", "findFirst", "findFirst", "findLast", "findLast", "compare", "compareC", "at", "concat", "concatC", "clear", "copyAssign", "moveAssign", "selfAssign", "ctorMove", "swap", "swap", "raw", "std"};
        static const long chars[] = {'a', 'a', 'b', 'c', 200};
        auto ch = [&] { return chars[g.below(5)]; };
        for (uint32_t i = 12 + g.below(25); i > 0; --i)
        {
            std::string o = names[g.below(sizeof names / sizeof *names)];
            V a;
            auto text = [&](uint64_t max) {
                for (uint32_t k = g.below(uint32_t(max + 1)); k > 0; --k)
                {
                    a.push_back(ch());
                }
            };
            if (o == "assign")
            {
                text(g.chance(1, 3) ? cap + 2 : std::min<uint64_t>(cap, 3));
            }
            else if (o == "trunc")
            {
                a = {g.chance(1, 2) ? -1 : 0};
                text(cap + 2);
                if (a[0] == 0)
                {
                    a[0] = long(g.below(uint32_t(a.size())));
                }
            }
            else if (o == "appendStd" || o == "raw")
            {
                text(std::min<uint64_t>(cap, 4));
            }
            else if (o == "appendC" || o == "appendCT" || o == "compareC")
            {
                a = {ch()};
            }
            else if (o == "insert")
            {
                a = {long(g.below(uint32_t(std::min<uint64_t>(cap, 5) + 2))), long(g.below(5))};
            }
            else if (o == "substr")
            {
                a = {long(g.below(uint32_t(std::min<uint64_t>(cap, 5) + 2))), long(g.below(7)) - 1};
            }
            else if (o == "find" || o == "findFirst" || o == "findLast" || o == "at")
            {
                a = {long(g.below(uint32_t(cap + 2)))};
            }
            p.prelude.push_back({o, a});
        }
        return p;
    };
    explore(c, "string", r, seed, programs, 0, false, gen, [&](const Program&) { return make(); });
    c.write(argv[5]);
    return 0;
}
