// histories (call/return events), JSON output, deduplication, error handler
#ifndef UTIL_HPP
#define UTIL_HPP
#include "fib.hpp"
#include <algorithm>
#include <cstdarg>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

inline std::string fmt(const char* f, ...)
{
    char b[4096];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}
inline std::string jseq(const std::vector<long>& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i)
    {
        s += (i ? "," : "") + std::to_string(v[i]);
    }
    return s + "]";
}

// one recorded execution: {"cfg":{...},"ev":[...]}
struct Hist
{
    std::string cfg;
    std::vector<std::string> ev;
    std::string comment; // how it was produced; not part of the identity
    void call(int t, const std::string& op, const std::vector<long>& a)
    {
        fib::Quiet q;
        ev.push_back(fmt("{\"k\":\"c\",\"t\":%d,\"o\":\"%s\",\"a\":%s}", t, op.c_str(), jseq(a).c_str()));
    }
    void ret(int t, const std::string& op, const std::vector<long>& r)
    {
        fib::Quiet q;
        ev.push_back(fmt("{\"k\":\"r\",\"t\":%d,\"o\":\"%s\",\"a\":%s}", t, op.c_str(), jseq(r).c_str()));
    }
    void add(const std::string& json)
    {
        fib::Quiet q;
        ev.push_back(json);
    }
    std::string body() const
    {
        std::string s = "{\"cfg\":" + cfg + ",\"ev\":[";
        for (size_t i = 0; i < ev.size(); ++i)
        {
            s += (i ? "," : "") + ev[i];
        }
        return s + "]";
    }
    std::string json() const
    {
        return body() + ",\"src\":\"" + comment + "\"}";
    }
};

struct Collector
{
    size_t maxHist;
    std::unordered_set<uint64_t> seen;
    std::vector<std::string> first;  // ranked first (suspicious)
    std::vector<std::string> normal; // reservoir
    uint64_t executions{0}, distinct{0}, steps{0}, killed{0}, stuck{0}, fatals{0};
    std::unordered_set<uint64_t> schedules;
    Rng rng{77};
    explicit Collector(size_t m)
        : maxHist(m)
    {
    }
    static uint64_t hash(const std::string& s)
    {
        uint64_t h = 1469598103934665603ull;
        for (unsigned char c : s)
        {
            h = (h ^ c) * 0x100000001b3ull;
        }
        return h;
    }
    void add(const Hist& h, bool suspicious)
    {
        ++executions;
        auto b = h.body();
        if (!seen.insert(hash(b)).second)
        {
            return;
        }
        ++distinct;
        if (suspicious)
        {
            if (first.size() < 200)
            {
                first.push_back(h.json());
            }
            return;
        }
        if (normal.size() < maxHist)
        {
            normal.push_back(h.json());
        }
        else
        {
            auto k = rng.next() % distinct;
            if (k < maxHist)
            {
                normal[k] = h.json();
            }
        }
    }
    void write(const char* path)
    {
        FILE* f = fopen(path, "w");
        for (auto& s : first)
        {
            fprintf(f, "%s\n", s.c_str());
        }
        for (auto& s : normal)
        {
            fprintf(f, "%s\n", s.c_str());
        }
        fclose(f);
        printf("{\"executions\":%lu,\"distinct\":%lu,\"written\":%lu,\"steps\":%lu,\"schedules\":%lu,\"killed\":%lu,"
               "\"stuck\":%lu,\"fatals\":%lu,\"suspicious\":%lu}\n",
               executions,
               distinct,
               first.size() + normal.size(),
               steps,
               schedules.size(),
               killed,
               stuck,
               fatals,
               first.size());
    }
};

inline fib::Options randomOptions(Rng& r, uint64_t maxSteps, uint32_t pctLen)
{
    fib::Options o;
    o.seed = r.next();
    o.maxSteps = maxSteps;
    o.pctLength = pctLen;
    switch (r.below(8))
    {
    case 0:
        o.strategy = fib::Strategy::ROUND;
        break;
    case 1:
    case 2:
    case 3:
        o.strategy = fib::Strategy::RANDOM;
        o.period = 1u << r.below(5);
        break;
    default:
        o.strategy = fib::Strategy::PCT;
        o.changes = 1 + r.below(5);
        break;
    }
    return o;
}

void installErrorHandler(); // records errors; a fatal error abandons the running fiber
extern bool g_lastFatal;
extern uint64_t g_errorCount;
extern std::vector<std::pair<unsigned, unsigned>> g_errorCodes; // (module, code)
#endif
