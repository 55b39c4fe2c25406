// Values and allocators that account for every construction, destruction and allocation, and that fail on demand.
#ifndef VERIF_TRACKED_H
#define VERIF_TRACKED_H

#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <memory_resource>
#include <stdexcept>
#include <string>
#include <unordered_map>

#include "mc.h"
#include "zserio/HashCodeUtil.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"

namespace tr
{

constexpr int MOVED = -7; // what a value reports after it has been moved from

struct Fault : public std::runtime_error
{
    Fault() :
            std::runtime_error("injected fault")
    {}
};

struct State
{
    std::unordered_map<const void*, int> live; // address of each live value and the kind of its type
    std::string error; // first accounting error, values are destroyed where nothing may be thrown
    int64_t countdown = 0; // the fault point that reaches 0 throws
    bool fired = false;

    void fail(const std::string& text)
    {
        if (error.empty())
        {
            error = text;
        }
    }
};

inline State& st()
{
    static State state;
    return state;
}

inline bool due()
{
    State& s = st();
    if (s.countdown > 0 && --s.countdown == 0)
    {
        s.fired = true;
        return true;
    }
    return false;
}

inline void faultPoint()
{
    if (due())
    {
        throw Fault();
    }
}

// a tracked value: KIND distinguishes types, PAD adds bytes, THROWING_MOVE makes moves fault points
template <int KIND, size_t PAD, bool THROWING_MOVE>
class Value
{
public:
    static constexpr int kind = KIND;

    Value() :
            Value(0)
    {}
    Value(int v) :
            m_v((faultPoint(), v))
    {
        born();
    }
    Value(const Value& other) :
            m_v((faultPoint(), other.get()))
    {
        born();
    }
    Value(Value&& other) noexcept(!THROWING_MOVE) :
            m_v((THROWING_MOVE ? faultPoint() : void(), other.get()))
    {
        born();
        other.m_v = MOVED;
    }
    Value& operator=(const Value& other)
    {
        faultPoint();
        check("assigned");
        m_v = other.get();
        return *this;
    }
    Value& operator=(Value&& other) noexcept(!THROWING_MOVE)
    {
        if (THROWING_MOVE)
        {
            faultPoint();
        }
        check("assigned");
        if (this != &other)
        {
            m_v = other.get();
            other.m_v = MOVED;
        }
        return *this;
    }
    ~Value()
    {
        check("destroyed");
        st().live.erase(this);
        std::memset(m_pad, 0xdd, sizeof(m_pad));
        m_v = -99;
    }

    int get() const
    {
        check("read");
        return m_v;
    }

    bool operator==(const Value& other) const
    {
        return get() == other.get();
    }
    bool operator!=(const Value& other) const
    {
        return get() != other.get();
    }
    bool operator<(const Value& other) const
    {
        return get() < other.get();
    }
    bool operator>(const Value& other) const
    {
        return get() > other.get();
    }
    bool operator<=(const Value& other) const
    {
        return get() <= other.get();
    }
    bool operator>=(const Value& other) const
    {
        return get() >= other.get();
    }

private:
    void born()
    {
        std::memset(m_pad, KIND, sizeof(m_pad));
        if (!st().live.emplace(this, KIND).second)
        {
            st().fail(mc::str("value of kind ", KIND, " constructed over a live value"));
        }
    }
    void check(const char* what) const
    {
        auto it = st().live.find(this);
        if (it == st().live.end())
        {
            st().fail(mc::str("value of kind ", KIND, " ", what, " where no value lives"));
        }
        else if (it->second != KIND)
        {
            st().fail(mc::str("value of kind ", KIND, " ", what, " where a value of kind ", it->second, " lives"));
        }
    }

    int m_v;
    unsigned char m_pad[PAD];
};

template <int KIND, size_t PAD, bool THROWING_MOVE>
uint32_t calcHashCode(uint32_t seed, const Value<KIND, PAD, THROWING_MOVE>& value)
{
    return zserio::calcHashCode(seed, static_cast<int32_t>(value.get()));
}

// memory resource that knows its blocks
class Arena : public std::pmr::memory_resource
{
public:
    explicit Arena(int id) :
            m_id(id)
    {}

    int id() const
    {
        return m_id;
    }
    size_t liveBlocks() const
    {
        return m_blocks.size();
    }
    size_t allocations() const
    {
        return m_allocations;
    }
    void clear()
    {
        m_allocations = 0;
        m_blocks.clear();
    }

private:
    void* do_allocate(size_t bytes, size_t alignment) override
    {
        if (due())
        {
            throw std::bad_alloc();
        }
        ++m_allocations;
        void* p = alignment <= 16 ? std::malloc(bytes) : std::aligned_alloc(alignment, (bytes + alignment - 1) / alignment * alignment);
        m_blocks.emplace(p, std::make_pair(bytes, alignment));
        return p;
    }
    void do_deallocate(void* p, size_t bytes, size_t alignment) override
    {
        auto it = m_blocks.find(p);
        if (it == m_blocks.end())
        {
            st().fail(mc::str("memory returned to arena ", m_id, ", which did not allocate it"));
            return; // the block stays with its owner
        }
        if (it->second != std::make_pair(bytes, alignment))
        {
            st().fail(mc::str("block of ", it->second.first, " bytes returned as ", bytes));
        }
        m_blocks.erase(it);
        std::free(p);
    }
    bool do_is_equal(const std::pmr::memory_resource& other) const noexcept override
    {
        return this == &other;
    }

    int m_id;
    size_t m_allocations = 0;
    std::unordered_map<void*, std::pair<size_t, size_t>> m_blocks;
};

// arena 0 is the default one, used by allocators nobody supplied
inline Arena& arena(int id)
{
    static Arena arenas[3] = {Arena(0), Arena(1), Arena(2)};
    return arenas[id];
}

// allocator with stateful identity whose propagation is chosen; moving one keeps its state
template <typename T, bool PROP>
class TrackAlloc
{
public:
    using value_type = T;
    using propagate_on_container_copy_assignment = std::bool_constant<PROP>;
    using propagate_on_container_move_assignment = std::bool_constant<PROP>;
    using propagate_on_container_swap = std::bool_constant<PROP>;
    using is_always_equal = std::false_type;

    TrackAlloc() :
            m_arena(&arena(0))
    {}
    explicit TrackAlloc(Arena& owner) :
            m_arena(&owner)
    {}
    template <typename U>
    TrackAlloc(const TrackAlloc<U, PROP>& other) :
            m_arena(&other.owner())
    {}
    template <typename U>
    struct rebind
    {
        using other = TrackAlloc<U, PROP>;
    };
    T* allocate(size_t n)
    {
        return static_cast<T*>(m_arena->allocate(n * sizeof(T), alignof(T)));
    }
    void deallocate(T* p, size_t n)
    {
        m_arena->deallocate(p, n * sizeof(T), alignof(T));
    }
    Arena& owner() const
    {
        return *m_arena;
    }
    template <typename U>
    bool operator==(const TrackAlloc<U, PROP>& other) const
    {
        return m_arena == &other.owner();
    }
    template <typename U>
    bool operator!=(const TrackAlloc<U, PROP>& other) const
    {
        return m_arena != &other.owner();
    }

private:
    Arena* m_arena;
};

template <typename ALLOC>
struct AllocKit;

template <typename T, bool PROP>
struct AllocKit<TrackAlloc<T, PROP>>
{
    using A = TrackAlloc<T, PROP>;
    static const char* name() { return PROP ? "prop" : "nonprop"; }
    static A make(int id) { return A(arena(id)); }
    static int id(const A& a) { return a.owner().id(); }
    static int copyId(int id) { return id; }
    static constexpr bool prop = PROP;
};
template <typename T>
struct AllocKit<std::allocator<T>>
{
    using A = std::allocator<T>;
    static const char* name() { return "std"; }
    static A make(int) { return A(); }
    static int id(const A&) { return 0; }
    static int copyId(int) { return 0; }
    static constexpr bool prop = false;
};
template <typename T>
struct AllocKit<std::pmr::polymorphic_allocator<T>>
{
    using A = std::pmr::polymorphic_allocator<T>;
    static const char* name() { return "pmr"; }
    static A make(int id) { return A(&arena(id)); }
    static int id(const A& a) { return static_cast<Arena*>(a.resource())->id(); }
    static int copyId(int) { return 0; }
    static constexpr bool prop = false;
};
template <typename T>
struct AllocKit<zserio::ppmr::PropagatingPolymorphicAllocator<T>>
{
    using A = zserio::ppmr::PropagatingPolymorphicAllocator<T>;
    static const char* name() { return "ppmr"; }
    static A make(int id) { return A(&arena(id)); }
    static int id(const A& a) { return static_cast<Arena*>(a.resource())->id(); }
    static int copyId(int id) { return id; }
    static constexpr bool prop = true;
};

// starts an execution with nothing alive
inline void begin()
{
    st() = State();
    for (int i = 0; i < 3; ++i)
    {
        arena(i).clear();
    }
    std::pmr::set_default_resource(&arena(0));
}

// accounting errors and what is alive at the end
inline void verify(mc::Ctx& ctx, const char* when)
{
    if (!st().error.empty())
    {
        ctx.fail("accounting", mc::str(when, ": ", st().error));
    }
}

inline void end(mc::Ctx& ctx)
{
    verify(ctx, "at the end");
    if (!st().live.empty())
    {
        ctx.fail("value-leak", mc::str(st().live.size(), " values are never destroyed"));
    }
    for (int i = 0; i < 3; ++i)
    {
        if (arena(i).liveBlocks() != 0)
        {
            ctx.fail("memory-leak", mc::str(arena(i).liveBlocks(), " blocks never returned to arena ", i));
        }
    }
}

// runs f with the k-th fault point failing (0: none); returns whether a fault came out
__attribute__((noinline)) inline bool faulty(uint32_t k, const std::function<void()>& f)
{
    State& s = st();
    s.countdown = k;
    s.fired = false;
    try
    {
        f();
    }
    catch (const Fault&)
    {
        s.countdown = 0;
        return true;
    }
    catch (const std::bad_alloc&)
    {
        s.countdown = 0;
        return true;
    }
    s.countdown = 0;
    return false;
}

} // namespace tr

#endif
