// condition variables: notifiers and one listening thread
#include "objrun.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/condition_listener.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/condition_notifier.hpp"
#include "iceoryx_posh/internal/popo/building_blocks/condition_variable_data.hpp"
using namespace iox::popo;
struct Cv : Obj
{
    ConditionVariableData d;
    ConditionListener l{d};
    ~Cv() override = default;
    V exec(int, const Op& op) override
    {
        if (op.o == "notify")
        {
            ConditionNotifier(d, uint64_t(op.a[0])).notify();
            return {};
        }
        if (op.o == "destroy")
        {
            l.destroy();
            return {};
        }
        if (op.o == "wasNotified")
        {
            return V{l.wasNotified()};
        }
        auto t0 = fib::virtualNs();
        auto v = op.o == "wait" ? l.wait() : l.timedWait(iox::units::Duration::fromMilliseconds(uint64_t(op.a[0])));
        fib::Quiet q;
        V r{op.o != "wait" && fib::virtualNs() >= t0 + uint64_t(op.a[0]) * 1000000ull ? 1 : 0};
        for (auto i : v)
        {
            r.push_back(long(i));
        }
        return r;
    }
};
int main(int argc, char** argv)
{
    if (argc < 6)
    {
        return 2;
    }
    std::string mode = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    int programs = atoi(argv[3]), schedules = atoi(argv[4]);
    Collector c{size_t(atoi(argv[5]))};
    installErrorHandler();
    Rng r(seed);
    auto gen = [&](Rng& g) {
        Program p;
        long n = 1 + long(g.below(3));
        p.cfg = fmt("{\"n\":%ld}", n);
        for (uint32_t i = g.below(3); i > 0; --i)
        {
            p.prelude.push_back({"notify", {long(g.below(uint32_t(n)))}});
        }
        p.firstMortal = 2;
        p.threads.emplace_back();
        for (uint32_t i = 1 + g.below(4); i > 0; --i)
        {
            auto k = g.below(10);
            p.threads[0].push_back(k < 4 ? Op{"wait", {}} : k < 8 ? Op{"timedWait", {long(10)}} : Op{"wasNotified", {}});
        }
        for (uint32_t t = 1 + g.below(3); t > 0; --t)
        {
            p.threads.emplace_back();
            for (uint32_t i = 1 + g.below(3); i > 0; --i)
            {
                p.threads.back().push_back({"notify", {long(g.below(uint32_t(n)))}});
            }
        }
        if (g.chance(1, 5))
        {
            p.threads.push_back({{"destroy", {}}});
        }
        for (int i = 0; i < 6; ++i)
        {
            p.rescue.push_back({"notify", {long(g.below(uint32_t(n)))}});
        }
        p.tail = {{"wasNotified", {}}, {"timedWait", {10}}, {"wasNotified", {}}, {"timedWait", {10}}, {"notify", {0}}, {"wasNotified", {}}, {"timedWait", {10}}};
        return p;
    };
    explore(c, "cv " + mode, r, seed, programs, schedules, mode == "kill", gen, [](const Program&) { return new Cv; });
    c.write(argv[6]);
    return 0;
}
