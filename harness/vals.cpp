// value types: three slots of each kind, whose content is recorded after each operation
#include "objrun.hpp"
#include "tracked.hpp"
#include "iox/expected.hpp"
#include "iox/function.hpp"
#include "iox/function_ref.hpp"
#include "iox/optional.hpp"
#include "iox/scope_guard.hpp"
#include "iox/unique_ptr.hpp"
#include "iox/variant.hpp"
using namespace iox;
namespace
{
template <int N>
struct TT : Tracked
{
    using Tracked::Tracked;
};
constexpr int SLOTS = 3;
template <typename X>
struct Slots
{
    alignas(X) unsigned char mem[SLOTS][sizeof(X)];
    X& operator[](long i)
    {
        return *reinterpret_cast<X*>(mem[i]);
    }
    template <typename... A>
    void make(long i, A&&... a)
    {
        memset(mem[i], 0x5a, sizeof(X)); // what was there before is not zero
        new (mem[i]) X(std::forward<A>(a)...);
    }
    void drop(long i)
    {
        (*this)[i].~X();
    }
};
template <typename X>
struct Base : Obj
{
    Slots<X> s;
    bool odd{false};
    V log;
    bool mayFail{false};
    long v(const Op& op, size_t i)
    {
        return op.a[i];
    }
    virtual V dump(long i) = 0;
    virtual V act(const Op& op) = 0;
    V exec(int, const Op& op) override
    {
        odd = false;
        log.clear();
        V r;
        auto& o = op.o;
        auto i = op.a.empty() ? 0 : op.a[0], j = op.a.size() > 1 ? op.a[1] : 0;
        if (!common(o, i, j, r))
        {
            r = act(op);
        }
        for (long k = 0; k < SLOTS; ++k)
        {
            auto d = dump(k);
            r.push_back(long(d.size()));
            r.insert(r.end(), d.begin(), d.end());
        }
        r.push_back(Tracked::alive());
        r.push_back(Tracked::wrong() + odd);
        r.insert(r.end(), log.begin(), log.end());
        return r;
    }
    virtual bool common(const std::string& o, long i, long j, V& r)
    {
        return copies(o, i, j, r, std::is_copy_constructible<X>());
    }
    bool copies(const std::string& o, long i, long j, V& r, std::true_type)
    {
        r = {1};
        if (o == "copyAssign")
        {
            auto& x = (s[i] = const_cast<const X&>(s[j]));
            odd |= &x != &s[i];
        }
        else if (o == "copyAssignL")
        {
            s[i] = s[j];
        }
        else if (o == "copyCtor" && i != j)
        {
            s.drop(i);
            s.make(i, const_cast<const X&>(s[j]));
        }
        else
        {
            return moves(o, i, j, r);
        }
        return true;
    }
    bool copies(const std::string& o, long i, long j, V& r, std::false_type)
    {
        return moves(o, i, j, r);
    }
    bool moves(const std::string& o, long i, long j, V& r)
    {
        r = {1};
        if (o == "moveAssign")
        {
            auto& x = (s[i] = std::move(s[j]));
            odd |= &x != &s[i];
        }
        else if (o == "moveCtor" && i != j)
        {
            s.drop(i);
            s.make(i, std::move(s[j]));
        }
        else
        {
            r = {};
            return o == "moveCtor" || o == "copyCtor";
        }
        return true;
    }
    ~Base() override
    {
        for (long i = 0; i < SLOTS; ++i)
        {
            s.drop(i);
        }
    }
};
using A = TT<0>;
using B = TT<1>;
struct Opt : Base<optional<A>>
{
    Opt()
    {
        for (long i = 0; i < SLOTS; ++i)
        {
            s.make(i);
        }
    }
    V dump(long i) override
    {
        auto& x = s[i];
        odd |= bool(x) != x.has_value() || (x == nullopt) == x.has_value() || (nullopt != x) != x.has_value();
        if (!x)
        {
            return {};
        }
        odd |= x->value() != (*x).value() || const_cast<const optional<A>&>(x).value().value() != x.value().value();
        return {x->value()};
    }
    V act(const Op& op) override
    {
        auto& o = op.o;
        auto i = op.a[0];
        auto& x = s[i];
        if (o == "set")
        {
            x = A(op.a[1]);
            return {1};
        }
        if (o == "setL")
        {
            const A a(op.a[1]);
            x = a;
            return {a.value()};
        }
        if (o == "emplace")
        {
            return {x.emplace(op.a[1]).value()};
        }
        if (o == "reset")
        {
            x.reset();
            return {1};
        }
        if (o == "null")
        {
            x = optional<A>(nullopt);
            return {1};
        }
        if (o == "ctor") // value
        {
            s.drop(i);
            s.make(i, A(op.a[1]));
            return {1};
        }
        if (o == "ctorIn")
        {
            s.drop(i);
            s.make(i, in_place, op.a[1]);
            return {1};
        }
        if (o == "make")
        {
            s.drop(i);
            s.make(i, make_optional<A>(op.a[1]));
            return {1};
        }
        if (o == "get")
        {
            return {x.value().value()};
        }
        if (o == "take") // moves the value out, the optional keeps one
        {
            A a = std::move(x).value();
            return {a.value()};
        }
        if (o == "valueOr")
        {
            return {x.value_or(A(op.a[1])).value()};
        }
        if (o == "andThen")
        {
            V r{0, 0};
            x.and_then([&](auto& y) { r[0] = 1 + y.value(); }).or_else([&] { r[1] = 1; });
            return r;
        }
        if (o == "eq")
        {
            auto e = x == s[op.a[1]];
            odd |= (x != s[op.a[1]]) == e;
            return {e};
        }
        if (o == "swap")
        {
            std::swap(x, s[op.a[1]]);
            return {1};
        }
        exit(2);
    }
    bool prepare(int, Op& op) override
    {
        return mayFail || (op.o != "get" && op.o != "take") || s[op.a[0]].has_value();
    }
};
struct Var : Base<variant<A, B, long>>
{
    Var()
    {
        for (long i = 0; i < SLOTS; ++i)
        {
            s.make(i);
        }
    }
    V dump(long i) override
    {
        auto& x = s[i];
        auto k = x.index();
        long d = 99;
        B def(77);
        odd |= (x.get<A>() != nullptr) != (k == 0) || (x.get<B>() != nullptr) != (k == 1) || (x.get<long>() != nullptr) != (k == 2);
        odd |= holds_alternative<A>(x) != (k == 0) || holds_alternative<B>(x) != (k == 1) || holds_alternative<long>(x) != (k == 2);
        odd |= (x.get_at_index<0>() != nullptr) != (k == 0) || (x.get_at_index<1>() != nullptr) != (k == 1);
        odd |= (x.get_if<long>(&d) == &d) != (k != 2) || (x.get_if<B>(&def) == &def) != (k != 1);
        if (k == INVALID_VARIANT_INDEX)
        {
            return {};
        }
        return k == 0 ? V{0, x.get<A>()->value()} : k == 1 ? V{1, x.get_at_index<1>()->value()} : k == 2 ? V{2, *x.get<long>()} : V{3};
    }
    template <typename T>
    V with(const Op& op, long k)
    {
        auto& o = op.o;
        auto i = op.a[0];
        auto val = op.a[2];
        auto& x = s[i];
        if (o == "set") // of its own type or into an empty one; other types are refused
        {
            T t(val);
            x = std::move(t);
            return {1};
        }
        if (o == "emplace")
        {
            x.template emplace<T>(val);
            return {1};
        }
        if (o == "emplaceAt")
        {
            if (k == 0)
            {
                x.emplace_at_index<0>(val);
            }
            else if (k == 1)
            {
                x.emplace_at_index<1>(val);
            }
            else
            {
                x.emplace_at_index<2>(val);
            }
            return {1};
        }
        if (o == "ctor")
        {
            s.drop(i);
            s.make(i, in_place_type<T>(), val);
            return {1};
        }
        if (o == "ctorV")
        {
            s.drop(i);
            s.make(i, T(val));
            return {1};
        }
        exit(2);
    }
    V act(const Op& op) override
    {
        auto& o = op.o;
        auto i = op.a[0];
        auto& x = s[i];
        if (o == "eq")
        {
            auto e = x == s[op.a[1]];
            odd |= (x != s[op.a[1]]) == e;
            return {e};
        }
        if (o == "swap")
        {
            std::swap(x, s[op.a[1]]);
            return {1};
        }
        if (o == "reset")
        {
            s.drop(i);
            s.make(i);
            return {1};
        }
        return op.a[1] == 0 ? with<A>(op, 0) : op.a[1] == 1 ? with<B>(op, 1) : with<long>(op, 2);
    }
    bool prepare(int, Op& op) override
    {
        return op.o != "set" || s[op.a[0]].index() != INVALID_VARIANT_INDEX; // documented: only to one that holds something
    }
};
struct Exp : Base<expected<A, B>>
{
    using X = expected<A, B>;
    Exp()
    {
        for (long i = 0; i < SLOTS; ++i)
        {
            s.make(i, in_place, i);
        }
    }
    V dump(long i) override
    {
        auto& x = s[i];
        odd |= bool(x) != x.has_value() || x.has_error() == x.has_value();
        if (x)
        {
            odd |= x->value() != (*x).value() || const_cast<const X&>(x).value().value() != x.value().value();
            return {0, x.value().value()};
        }
        return {1, x.error().value()};
    }
    V act(const Op& op) override
    {
        auto& o = op.o;
        auto i = op.a[0];
        auto& x = s[i];
        if (o == "set") // is error, value
        {
            if (op.a[1])
            {
                x = err(B(op.a[2]));
            }
            else
            {
                x = ok(A(op.a[2]));
            }
            return {1};
        }
        if (o == "ctor")
        {
            s.drop(i);
            if (op.a[1])
            {
                s.make(i, unexpect, op.a[2]);
            }
            else
            {
                s.make(i, in_place, op.a[2]);
            }
            return {1};
        }
        if (o == "ctorV")
        {
            s.drop(i);
            A a(op.a[2]);
            B b(op.a[2]);
            if (op.a[1])
            {
                s.make(i, err(b));
            }
            else
            {
                s.make(i, ok(a));
            }
            return {a.value()};
        }
        if (o == "get")
        {
            return {x.value().value()};
        }
        if (o == "err")
        {
            return {x.error().value()};
        }
        if (o == "take")
        {
            A a = std::move(x).value();
            return {a.value()};
        }
        if (o == "takeErr")
        {
            B a = std::move(x).error();
            return {a.value()};
        }
        if (o == "valueOr")
        {
            return {x.value_or(A(op.a[1])).value()};
        }
        if (o == "andThen")
        {
            V r{0, 0};
            x.and_then([&](auto& y) { r[0] = 1 + y.value(); }).or_else([&](auto& e) { r[1] = 1 + e.value(); });
            return r;
        }
        if (o == "eq")
        {
            auto e = x == s[op.a[1]];
            odd |= (x != s[op.a[1]]) == e;
            return {e};
        }
        if (o == "swap")
        {
            std::swap(x, s[op.a[1]]);
            return {1};
        }
        exit(2);
    }
    bool prepare(int, Op& op) override
    {
        return mayFail || ((op.o != "get" && op.o != "take") || s[op.a[0]].has_value()) && ((op.o != "err" && op.o != "takeErr") || s[op.a[0]].has_error());
    }
};
struct Expv : Base<expected<void, B>>
{
    using X = expected<void, B>;
    Expv()
    {
        for (long i = 0; i < SLOTS; ++i)
        {
            s.make(i, in_place);
        }
    }
    V dump(long i) override
    {
        auto& x = s[i];
        odd |= bool(x) != x.has_value() || x.has_error() == x.has_value();
        return x ? V{0} : V{1, x.error().value()};
    }
    V act(const Op& op) override
    {
        auto& o = op.o;
        auto i = op.a[0];
        auto& x = s[i];
        if (o == "set") // is error, value
        {
            if (op.a[1])
            {
                x = err(B(op.a[2]));
            }
            else
            {
                x = ok();
            }
            return {1};
        }
        if (o == "ctor")
        {
            s.drop(i);
            if (op.a[1])
            {
                s.make(i, unexpect, op.a[2]);
            }
            else
            {
                s.make(i, ok());
            }
            return {1};
        }
        if (o == "err")
        {
            return {x.error().value()};
        }
        if (o == "takeErr")
        {
            B a = std::move(x).error();
            return {a.value()};
        }
        if (o == "andThen")
        {
            V r{0, 0};
            x.and_then([&] { r[0] = 1; }).or_else([&](auto& e) { r[1] = 1 + e.value(); });
            return r;
        }
        if (o == "eq")
        {
            auto e = x == s[op.a[1]];
            odd |= (x != s[op.a[1]]) == e;
            return {e};
        }
        if (o == "swap")
        {
            std::swap(x, s[op.a[1]]);
            return {1};
        }
        exit(2);
    }
    bool prepare(int, Op& op) override
    {
        return mayFail || (op.o != "err" && op.o != "takeErr") || s[op.a[0]].has_error();
    }
};
// functor with a life and a state; size: how much of the capacity is taken
template <int SIZE>
struct Functor
{
    A id;
    mutable long count{0};
    char pad[SIZE];
    explicit Functor(long i)
        : id(i)
    {
        memset(pad, int(i), SIZE);
    }
    long operator()(long x)
    {
        for (auto c : pad)
        {
            if (c != char(id.value()))
            {
                return -99;
            }
        }
        return id.value() * 100 + ++count * 10 + x;
    }
};
long free1(long x)
{
    return -100 - x;
}
long free2(long x)
{
    return -200 - x;
}
struct Owner
{
    long n{0};
    long call(long x)
    {
        return -300 - x - 10 * ++n;
    }
    long ccall(long x) const
    {
        return -400 - x - 10 * n;
    }
};
struct Fn : Base<function<long(long), 128>>
{
    using F = function<long(long), 128>;
    Owner owner;
    bool empty[SLOTS]{};
    Fn()
    {
        for (long i = 0; i < SLOTS; ++i)
        {
            s.make(i, F(free1));
        }
    }
    V dump(long) override
    {
        return {};
    }
    bool common(const std::string& o, long i, long j, V& r) override
    {
        auto x = Base::common(o, i, j, r);
        if (x && i != j)
        {
            empty[i] = false;
            if (o[0] == 'm')
            {
                empty[j] = true;
            }
        }
        return x;
    }
    V act(const Op& op) override
    {
        auto& o = op.o;
        auto i = op.a[0];
        auto& x = s[i];
        if (o == "call")
        {
            return {x(op.a[1])};
        }
        if (o == "ref") // through a reference to the callable
        {
            function_ref<long(long)> f(x);
            auto g = std::move(f);
            return {g(op.a[1])};
        }
        if (o == "swap")
        {
            x.swap(s[op.a[1]]);
            return {1};
        }
        auto k = op.a[1], id = op.a[2];
        auto put = [&](auto&& f) {
            if (o == "set")
            {
                x = f;
            }
            else
            {
                s.drop(i);
                s.make(i, f);
            }
        };
        empty[i] = false;
        switch (k)
        {
        case 0:
            put(Functor<1>(id));
            break;
        case 1:
            put(Functor<100>(id));
            break;
        case 2:
            put(id % 2 ? F(free1) : F(free2));
            break;
        case 3:
            put(F(owner, &Owner::call));
            break;
        default:
            put(F(owner, &Owner::ccall));
        }
        return {1};
    }
    bool prepare(int, Op& op) override
    {
        auto& o = op.o;
        if (o == "set" || o == "ctor")
        {
            return true;
        }
        if (o == "call" || o == "ref")
        {
            return mayFail || !empty[op.a[0]];
        }
        return !empty[op.a[1]] && (o != "swap" || (!empty[op.a[0]] && op.a[0] != op.a[1])); // of a moved-from function nothing is promised
    }
};
struct Guard : Base<ScopeGuardWithVariableCapacity<128>>
{
    using G = ScopeGuardWithVariableCapacity<128>;
    struct Act
    {
        A id;
        Guard* g;
        void operator()() const
        {
            g->log.push_back(id.value());
        }
    };
    bool armed[SLOTS]{};
    Guard()
    {
        for (long i = 0; i < SLOTS; ++i)
        {
            s.make(i, G([] {}));
            G::release(std::move(s[i]));
        }
    }
    V dump(long) override
    {
        return {};
    }
    bool common(const std::string& o, long i, long j, V& r) override
    {
        auto x = Base::common(o, i, j, r);
        if (x && i != j)
        {
            armed[i] = armed[j];
            armed[j] = false;
        }
        return x;
    }
    V act(const Op& op) override
    {
        auto& o = op.o;
        auto i = op.a[0];
        if (o == "ctor")
        {
            s.drop(i);
            s.make(i, Act{A(op.a[1]), this});
            armed[i] = true;
            return {1};
        }
        if (o == "ctorInit")
        {
            s.drop(i);
            s.make(i, [&] { log.push_back(1000 + op.a[1]); }, Act{A(op.a[1]), this});
            armed[i] = true;
            return {1};
        }
        if (o == "release") // and call it as often as asked
        {
            auto f = G::release(std::move(s[i]));
            armed[i] = false;
            for (long k = 0; k < op.a[1]; ++k)
            {
                f();
            }
            return {1};
        }
        exit(2);
    }
    bool prepare(int, Op& op) override
    {
        return mayFail || op.o != "release" || armed[op.a[0]];
    }
};
struct Uptr : Base<unique_ptr<A>>
{
    using U = unique_ptr<A>;
    static Uptr*& me()
    {
        static Uptr* u;
        return u;
    }
    static void del(A* p)
    {
        me()->log.push_back(p->value());
        delete p;
    }
    struct Del
    {
        A id;
        void operator()(A* p) const
        {
            me()->log.push_back(p->value() * 100 + id.value());
            delete p;
        }
    };
    U make(long id, long deleter)
    {
        return deleter ? U(new A(id), Del{A(deleter)}) : U(new A(id), del);
    }
    Uptr()
    {
        me() = this;
        for (long i = 0; i < SLOTS; ++i)
        {
            s.make(i, new A(i), del);
        }
    }
    ~Uptr() override
    {
        me() = this;
    }
    V dump(long i) override
    {
        auto p = s[i].get();
        odd |= p != const_cast<const U&>(s[i]).get() || (p && s[i].operator->() != p);
        return p ? V{p->value()} : V{};
    }
    V act(const Op& op) override
    {
        auto& o = op.o;
        auto i = op.a[0];
        auto& x = s[i];
        if (o == "set")
        {
            x = make(op.a[1], op.a[2]);
            return {1};
        }
        if (o == "ctor")
        {
            s.drop(i);
            s.make(i, make(op.a[1], op.a[2]));
            return {1};
        }
        if (o == "get")
        {
            return {x->value()};
        }
        if (o == "release")
        {
            auto p = U::release(std::move(x));
            auto v = p->value();
            delete p;
            return {v};
        }
        if (o == "eq")
        {
            auto e = x == s[op.a[1]];
            odd |= (x != s[op.a[1]]) == e;
            return {e};
        }
        if (o == "swap")
        {
            x.swap(s[op.a[1]]);
            return {1};
        }
        exit(2);
    }
    bool prepare(int, Op& op) override
    {
        auto& o = op.o;
        bool a = s[op.a[0]].get() != nullptr;
        bool b = op.a.size() > 1 && op.a[1] < SLOTS && s[op.a[1]].get() != nullptr;
        return o == "get"                              ? mayFail || a
               : o == "release"                        ? a
               : o == "moveAssign" || o == "moveCtor"  ? b // of a moved-from deleter nothing is promised
               : o == "swap"                           ? a && b && op.a[0] != op.a[1]
                                                       : true;
    }
};
} // namespace
int main(int argc, char** argv)
{
    if (argc < 6)
    {
        return 2;
    }
    std::string kind = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    int programs = atoi(argv[3]);
    Collector c{size_t(atoi(argv[4]))};
    installErrorHandler();
    Rng r(seed);
    bool mf = false;
    auto make = [&](const Program&) -> Obj* {
        Tracked::reset();
        auto set = [&](auto* x) -> Obj* {
            x->mayFail = mf;
            return x;
        };
        return kind == "opt"     ? set(new Opt)
               : kind == "var"   ? set(new Var)
               : kind == "exp"   ? set(new Exp)
               : kind == "expv"  ? set(new Expv)
               : kind == "fn"    ? set(new Fn)
               : kind == "guard" ? set(new Guard)
                                 : set(new Uptr);
    };
    std::vector<std::string> ops, both{"moveAssign", "moveAssign", "moveCtor"};
    if (kind != "guard" && kind != "uptr")
    {
        both.insert(both.end(), {"copyAssign", "copyAssign", "copyAssignL", "copyCtor"});
    }
    if (kind != "guard")
    {
        both.push_back("swap");
    }
    ops = kind == "opt"     ? std::vector<std::string>{"set", "setL", "emplace", "reset", "null", "ctor", "ctorIn", "make", "get", "take", "valueOr", "andThen", "eq"}
          : kind == "var"   ? std::vector<std::string>{"set", "set", "emplace", "emplaceAt", "ctor", "ctorV", "reset", "eq"}
          : kind == "exp"   ? std::vector<std::string>{"set", "ctor", "ctorV", "get", "err", "take", "takeErr", "valueOr", "andThen", "eq"}
          : kind == "expv"  ? std::vector<std::string>{"set", "ctor", "err", "takeErr", "andThen", "eq"}
          : kind == "fn"    ? std::vector<std::string>{"set", "ctor", "call", "call", "call", "ref"}
          : kind == "guard" ? std::vector<std::string>{"ctor", "ctorInit", "release"}
                            : std::vector<std::string>{"set", "ctor", "get", "release", "eq"};
    auto gen = [&](Rng& g) {
        Program p;
        p.cfg = "{\"kind\":\"" + kind + "\"}";
        mf = g.chance(1, 15);
        long id = 10;
        for (uint32_t i = 8 + g.below(20); i > 0; --i)
        {
            bool two = g.chance(1, 2);
            auto o = two ? both[g.below(uint32_t(both.size()))] : ops[g.below(uint32_t(ops.size()))];
            long x = long(g.below(SLOTS)), y = long(g.below(SLOTS));
            V a{x};
            long val = kind == "opt" || kind == "var" || kind == "exp" || kind == "expv" ? long(g.below(3)) : kind == "fn" ? long(1 + g.below(5)) : ++id;
            if (two || o == "eq")
            {
                a = {x, y};
                if (g.chance(4, 5) && x == y)
                {
                    a[1] = (x + 1) % SLOTS;
                }
            }
            else if (o == "set" || o == "ctor" || o == "ctorV" || o == "emplace" || o == "emplaceAt" || o == "setL" || o == "ctorIn" || o == "make" || o == "ctorInit" || o == "valueOr")
            {
                if (kind == "var")
                {
                    a = {x, long(g.below(3)), val};
                }
                else if ((kind == "exp" || kind == "expv") && o != "valueOr")
                {
                    a = {x, long(g.below(2)), val};
                }
                else if (kind == "fn")
                {
                    a = {x, long(g.below(5)), val};
                }
                else if (kind == "uptr")
                {
                    a = {x, val, g.chance(1, 2) ? 0 : long(1 + g.below(5))};
                }
                else
                {
                    a = {x, val};
                }
            }
            else if (o == "call" || o == "ref" || o == "release")
            {
                a = {x, long(g.below(3))};
            }
            p.prelude.push_back({o, a});
        }
        return p;
    };
    explore(c, "vals " + kind, r, seed, programs, 0, false, gen, make);
    c.write(argv[5]);
    return 0;
}
