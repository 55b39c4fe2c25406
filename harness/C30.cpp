// C30: all memory comes from the supplied allocator and goes back to it.
// mc: level=model_checking opt=0 sources=std_test_object,pmr_test_object,ppmr_test_object
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory_resource>
#include <optional>
#include <sstream>

#include "mc.h"
#include "objects.h"
#include "zserio/BitBuffer.h"
#include "zserio/DebugStringUtil.h"
#include "zserio/IntrospectableView.h"
#include "zserio/ReflectableUtil.h"
#include "zserio/SerializeUtil.h"
#include "zserio/StringConvertUtil.h"
#include "zserio/Walker.h"
#include "zserio/ZserioTreeCreator.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"

using mc::Ctx;
using mc::str;

namespace tr30
{

// every request to the arenas or to operator new is numbered, the one numbered `at` fails
struct Faults
{
    int64_t countdown = 0;
    bool fired = false;
};
inline Faults& faults()
{
    static Faults f;
    return f;
}

// an arena that needs no other memory for its own accounting
class Arena : public std::pmr::memory_resource
{
public:
    uint64_t requests = 0;
    int64_t blocks = 0;
    const char* error = nullptr;

private:
    struct Header
    {
        const Arena* owner;
        size_t size;
        size_t alignment;
        size_t magic;
    };
    static constexpr size_t MAGIC = 0x5ca1ab1e;

    void* do_allocate(size_t size, size_t alignment) override
    {
        ++requests;
        Faults& f = faults();
        if (f.countdown > 0 && --f.countdown == 0)
        {
            f.fired = true;
            throw std::bad_alloc();
        }
        auto* header = static_cast<Header*>(std::malloc(sizeof(Header) + size));
        *header = {this, size, alignment, MAGIC};
        ++blocks;
        return header + 1;
    }
    void do_deallocate(void* p, size_t size, size_t alignment) override
    {
        auto* header = static_cast<Header*>(p) - 1;
        if (header->magic != MAGIC || header->owner != this)
        {
            error = "memory is returned to an arena it did not come from";
            return;
        }
        if (header->size != size || header->alignment != alignment)
        {
            error = "memory is returned with another size or alignment";
        }
        header->magic = 0;
        --blocks;
        std::free(header);
    }
    bool do_is_equal(const std::pmr::memory_resource& other) const noexcept override
    {
        return this == &other;
    }
};

inline Arena& arena(int id) // 0: the default resource
{
    static Arena arenas[3];
    return arenas[id];
}

constexpr int HEAP = 3; // operator new

struct Counts
{
    uint64_t requests[4];
    int64_t blocks[4];
};
inline Counts counts()
{
    Counts c{};
    for (int i = 0; i < 3; ++i)
    {
        c.requests[i] = arena(i).requests;
        c.blocks[i] = arena(i).blocks;
    }
    c.requests[HEAP] = mc::g_newCount;
    c.blocks[HEAP] = mc::g_liveAllocs;
    return c;
}
inline const char* arenaName(int i)
{
    static const char* const names[] = {"the default resource", "the first arena", "the second arena", "operator new"};
    return names[i];
}

inline char g_what[200];
__attribute__((noinline)) inline int outcome(const std::function<void()>& f)
{
    g_what[0] = 0;
    try
    {
        f();
    }
    catch (const std::bad_alloc&)
    {
        return 1;
    }
    catch (const zserio::CppRuntimeException& e)
    {
        std::strncpy(g_what, e.what(), sizeof(g_what) - 1);
        return 2;
    }
    return 0;
}

// one operation, run once for each of its allocations which then fails, and once without failure
class Probe
{
public:
    bool ok = true;

    template <typename F>
    static void every(Ctx& ctx, const char* name, const F& body)
    {
        for (int64_t k = 0;; ++k)
        {
            Probe probe(ctx, name, k);
            const Counts before = counts();
            probe.m_start = before;
            body(probe);
            probe.m_body.reset();
            const Counts after = counts();
            for (int i = 0; i < 4; ++i)
            {
                MC_REQUIRE(ctx, after.blocks[i] == before.blocks[i], "leak", name, ", failing allocation ", k, ": ",
                        after.blocks[i] - before.blocks[i], " blocks of ", arenaName(i), " are left");
            }
            for (int i = 0; i < 3; ++i)
            {
                MC_REQUIRE(ctx, arena(i).error == nullptr, "accounting", name, ", failing allocation ", k, ": ",
                        arena(i).error);
            }
            ctx.step();
            if (k > 0 && !probe.m_fired)
            {
                break;
            }
        }
    }

    // runs the operation, which may only allocate from the given places (bit i: place i)
    void region(uint32_t places, const std::function<void()>& f, uint32_t alsoPlaces = 0)
    {
        places |= alsoPlaces;
        Faults& fault = faults();
        const Counts before = counts();
        fault.fired = false;
        fault.countdown = m_k;
        mc::g_failAllocAt = (places & (1U << HEAP)) ? m_k : 0;
        const int result = outcome(f);
        const bool failed = fault.fired || ((places & (1U << HEAP)) && m_k > 0 && mc::g_failAllocAt <= 0);
        // what is left to fail is left to the next region of the operation
        const int64_t left = (places & (1U << HEAP)) ? mc::g_failAllocAt : fault.countdown;
        fault.countdown = 0;
        mc::g_failAllocAt = 0;
        m_fired = m_fired || failed;
        const Counts after = counts();
        for (int i = 0; i < 4; ++i)
        {
            MC_REQUIRE(m_ctx, (places & (1U << i)) || after.requests[i] == before.requests[i], "foreign-memory", m_name,
                    ", failing allocation ", m_k, ": ", after.requests[i] - before.requests[i],
                    " requests go to ", arenaName(i));
        }
        m_k = failed ? 0 : left;
        ok = result == 0;
        MC_REQUIRE(m_ctx, !failed || !ok, "unreported", m_name, ": a failed allocation is not reported");
        MC_REQUIRE(m_ctx, failed || ok, "failure", m_name, ": fails without a failed allocation ", g_what);
    }

    // everything allocated since the start that is still alive is in this place
    void expectHeld(int place, const char* what)
    {
        const Counts now = counts();
        for (int i = 0; i < 4; ++i)
        {
            MC_REQUIRE(m_ctx, i == place || i == HEAP || place == HEAP || now.blocks[i] == m_start.blocks[i], "foreign-memory",
                    m_name, ": ", what, " holds memory of ", arenaName(i));
        }
    }

    void expectNothingIn(int place, const char* what)
    {
        const Counts now = counts();
        MC_REQUIRE(m_ctx, now.blocks[place] == m_start.blocks[place], "foreign-memory", m_name, ": ", what,
                " holds memory of ", arenaName(place));
    }

private:
    Probe(Ctx& ctx, const char* name, int64_t k) :
            m_ctx(ctx),
            m_name(name),
            m_k(k)
    {}

    Ctx& m_ctx;
    const char* m_name;
    int64_t m_k;
    bool m_fired = false;
    Counts m_start{};
    std::optional<int> m_body;
};

template <typename PTR, typename = void>
struct has_functions : std::false_type
{};
template <typename PTR>
struct has_functions<PTR, std::void_t<decltype(std::declval<PTR>()->callFunction({}))>> : std::true_type
{};

// where memory of an allocator flavour comes from
template <typename ALLOC>
struct Kit;

template <typename T>
struct Kit<std::allocator<T>>
{
    static const char* name() { return "std"; }
    static std::allocator<T> make(int) { return {}; }
    static uint32_t only(int) { return 1U << HEAP; }
    static uint32_t any(int, int) { return 1U << HEAP; }
    static int copied(int) { return HEAP; }
    static int assigned(int, int) { return HEAP; }
};
template <typename T>
struct Kit<std::pmr::polymorphic_allocator<T>>
{
    static const char* name() { return "pmr"; }
    static std::pmr::polymorphic_allocator<T> make(int id) { return &arena(id); }
    static uint32_t only(int id) { return 1U << id; }
    static uint32_t any(int x, int y) { return (1U << x) | (1U << y); }
    static int copied(int) { return 0; }
    static int assigned(int target, int) { return target; }
};
template <typename T>
struct Kit<zserio::ppmr::PropagatingPolymorphicAllocator<T>>
{
    static const char* name() { return "ppmr"; }
    static zserio::ppmr::PropagatingPolymorphicAllocator<T> make(int id)
    {
        return zserio::ppmr::PropagatingPolymorphicAllocator<T>(&arena(id));
    }
    static uint32_t only(int id) { return 1U << id; }
    static uint32_t any(int x, int y) { return (1U << x) | (1U << y); }
    static int copied(int id) { return id; }
    static int assigned(int, int source) { return source; }
};

inline void begin()
{
    std::pmr::set_default_resource(&arena(0));
    for (int i = 0; i < 3; ++i)
    {
        arena(i).blocks = 0;
        arena(i).error = nullptr;
    }
    faults() = Faults();
}
inline void end(Ctx& ctx)
{
    for (int i = 0; i < 3; ++i)
    {
        MC_REQUIRE(ctx, arena(i).blocks == 0, "leak", arena(i).blocks, " blocks of ", arenaName(i), " are left");
        MC_REQUIRE(ctx, arena(i).error == nullptr, "accounting", arena(i).error);
    }
}

} // namespace tr30

#define OBJ_NS std_allocator
#include "alloc30.inc"
#undef OBJ_NS
#define OBJ_NS pmr_allocator
#include "objects.inc"
#include "alloc30.inc"
#undef OBJ_NS
#define OBJ_NS ppmr_allocator
#include "objects.inc"
#include "alloc30.inc"
#undef OBJ_NS

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {
                    {"std", [](Ctx& ctx) { std_allocator::objects(ctx); }, 1},
                    {"pmr", [](Ctx& ctx) { pmr_allocator::objects(ctx); }, 1},
                    {"ppmr", [](Ctx& ctx) { ppmr_allocator::objects(ctx); }, 1},
            });
}
