// a value whose life is observed: each object constructed once, destroyed once, not used outside of its life
#ifndef TRACKED_HPP
#define TRACKED_HPP
#include <unordered_set>
class Tracked
{
  public:
    Tracked()
        : Tracked(-1)
    {
    }
    Tracked(long v)
        : m_v(v)
    {
        born();
    }
    Tracked(const Tracked& o)
        : m_v(o.value())
    {
        born();
    }
    Tracked(Tracked&& o)
        : m_v(o.value())
    {
        o.m_v = MOVED;
        born();
    }
    Tracked& operator=(const Tracked& o)
    {
        used();
        m_v = o.value();
        return *this;
    }
    Tracked& operator=(Tracked&& o)
    {
        used();
        auto v = o.value();
        o.m_v = MOVED;
        m_v = v;
        return *this;
    }
    ~Tracked()
    {
        m_v = DEAD;
        if (state().live.erase(this) == 0)
        {
            ++state().wrong;
        }
    }
    bool operator==(const Tracked& o) const
    {
        return value() == o.value();
    }
    bool operator!=(const Tracked& o) const
    {
        return value() != o.value();
    }
    long value() const
    {
        used();
        return m_v;
    }
    static void reset()
    {
        state().live.clear();
        state().wrong = 0;
    }
    static long alive()
    {
        return long(state().live.size());
    }
    static long wrong()
    {
        return state().wrong;
    }
    static constexpr long MOVED = -7, DEAD = -8;

  private:
    struct State
    {
        std::unordered_set<const void*> live;
        long wrong{0};
    };
    static State& state()
    {
        static State s;
        return s;
    }
    void born()
    {
        if (!state().live.insert(this).second)
        {
            ++state().wrong;
        }
    }
    void used() const
    {
        if (state().live.count(this) == 0)
        {
            ++state().wrong;
        }
    }
    long m_v;
};
#endif
