// Operation sequences on type-erased holders for one kind of allocator (KIT_GROUP).
#include "c11.h"
#include "tracked.h"
#include "zserio/Any.h"
#include "zserio/pmr/Any.h"
#include "zserio/ppmr/Any.h"

using mc::Ctx;
using mc::str;
using namespace zserio;

namespace
{

using Small = tr::Value<1, 4, false>; // in place
using SmallTM = tr::Value<2, 4, true>; // on the heap because moving it may throw
using Big = tr::Value<3, 36, false>;
using BigTM = tr::Value<4, 36, true>;

// a type that uses the allocator of its holder
template <typename ALLOC>
struct Aware : public tr::Value<5, 20, true>
{
    using Base = tr::Value<5, 20, true>;
    using allocator_type = ALLOC;
    ALLOC alloc;
    Aware(int v = 0) :
            Base(v)
    {}
    Aware(int v, const ALLOC& a) :
            Base(v),
            alloc(a)
    {}
    Aware(const Aware& other) = default;
    Aware(Aware&& other) = default;
    Aware(const Aware& other, const ALLOC& a) :
            Base(static_cast<const Base&>(other)),
            alloc(a)
    {}
    Aware(Aware&& other, const ALLOC& a) :
            Base(static_cast<Base&&>(other)),
            alloc(a)
    {}
    Aware& operator=(const Aware& other) // the allocator stays
    {
        Base::operator=(static_cast<const Base&>(other));
        return *this;
    }
    Aware& operator=(Aware&& other)
    {
        Base::operator=(static_cast<Base&&>(other));
        return *this;
    }
};

constexpr int NONE = -1;
constexpr int KINDS = 5;

struct M
{
    int kind = NONE;
    int v = 0;
    int alloc = 0;
    std::string text() const
    {
        return kind == NONE ? std::string("-") : str(kind, ":", v);
    }
    bool operator==(const M& other) const
    {
        return kind == other.kind && (kind == NONE || v == other.v);
    }
};

template <typename ALLOC>
struct Run
{
    using Any = BasicAny<ALLOC>;
    using Kit = tr::AllocKit<ALLOC>;
    static constexpr bool prop = Kit::prop;

    Ctx& ctx;
    std::string history;

    template <typename F>
    static void withKind(int kind, F f)
    {
        switch (kind)
        {
        case 0:
            f(static_cast<Small*>(nullptr));
            break;
        case 1:
            f(static_cast<SmallTM*>(nullptr));
            break;
        case 2:
            f(static_cast<Big*>(nullptr));
            break;
        case 3:
            f(static_cast<BigTM*>(nullptr));
            break;
        default:
            f(static_cast<Aware<ALLOC>*>(nullptr));
            break;
        }
    }

    static int allocOf(const Any& a)
    {
        return Kit::id(a.get_allocator());
    }

    void same(const Any& a, const M& m, const char* who, bool full = true)
    {
        Any& w = const_cast<Any&>(a);
        MC_REQUIRE(ctx, a.hasValue() == (m.kind != NONE), "has-value", who, " hasValue ", a.hasValue(), " after ", history);
        MC_REQUIRE(ctx, allocOf(a) == Kit::id(Kit::make(m.alloc)), "allocator", who, " uses allocator ", allocOf(a),
                " instead of ", m.alloc, " after ", history);
        for (int kind = 0; kind < KINDS; ++kind)
        {
            withKind(kind, [&](auto* p) {
                using T = std::remove_pointer_t<decltype(p)>;
                const bool is = kind == m.kind;
                MC_REQUIRE(ctx, a.template isType<T>() == is, "type", who, " isType ", kind, " after ", history);
                const T* c = a.template get_if<T>();
                T* v = w.template get_if<T>();
                MC_REQUIRE(ctx, (c != nullptr) == is && c == v, "get-if", who, " get_if ", kind, " after ", history);
                if (is)
                {
                    MC_REQUIRE(ctx, c->get() == m.v && &a.template get<T>() == c && &w.template get<T>() == c, "value",
                            who, " holds ", c->get(), " instead of ", m.v, " after ", history);
                }
                else if (full)
                {
                    for (int i = 0; i < 2; ++i)
                    {
                        bool thrown = false;
                        try
                        {
                            i == 0 ? a.template get<T>().get() : w.template get<T>().get();
                        }
                        catch (const CppRuntimeException&)
                        {
                            thrown = true;
                        }
                        MC_REQUIRE(ctx, thrown, "bad-type", who, " get of kind ", kind, " after ", history);
                    }
                }
            });
        }
        MC_REQUIRE(ctx, !a.template isType<int>() && !a.template isType<char>(), "type", who, " of a foreign type after ", history);
        tr::verify(ctx, history.c_str());
    }

    void resync(const Any& a, M& m, const std::vector<M>& allowed, const char* who)
    {
        M now;
        now.alloc = allocOf(a);
        for (int kind = 0; kind < KINDS; ++kind)
        {
            withKind(kind, [&](auto* p) {
                using T = std::remove_pointer_t<decltype(p)>;
                if (const T* c = a.template get_if<T>())
                {
                    now.kind = kind;
                    now.v = c->get();
                }
            });
        }
        MC_REQUIRE(ctx, a.hasValue() == (now.kind != NONE), "has-value", who, " claims a value it does not have after failed ", history);
        bool ok = now.kind == NONE;
        for (const M& one : allowed)
        {
            ok = ok || now == one;
        }
        MC_REQUIRE(ctx, ok, "after-failure", who, " holds ", now.text(), " after failed ", history);
        m = now;
    }

    void scenario()
    {
        tr::begin();
        {
            const bool equalAllocs = ctx.flip();
            M m[2];
            m[0].alloc = 1;
            m[1].alloc = equalAllocs ? 1 : 2;
            Any a(Kit::make(m[0].alloc));
            Any b(Kit::make(m[1].alloc));
            Any* o[2] = {&a, &b};
            for (int i = 0; i < 2; ++i)
            {
                m[i].kind = static_cast<int>(ctx.choose(KINDS + 1)) - 1;
                m[i].v = i + 1;
                if (m[i].kind != NONE)
                {
                    withKind(m[i].kind, [&](auto* p) {
                        using T = std::remove_pointer_t<decltype(p)>;
                        o[i]->template emplace<T>(i + 1);
                    });
                }
            }
            history = str(Kit::name(), equalAllocs ? " same" : " other", " a=", m[0].text(), " b=", m[1].text(), ": ");
            same(a, m[0], "a", false);
            same(b, m[1], "b", false);
            bool faultUsed = false;
            const uint32_t depth = ctx.thorough() ? 2 : 1;
            for (uint32_t i = 0; i < depth + 1; ++i)
            {
                const uint32_t target = i == 0 ? 0 : ctx.choose(2);
                faultUsed = operation(*o[target], *o[1 - target], m[target], m[1 - target], target == 0 ? "a" : "b",
                                    faultUsed, i != 0) || faultUsed;
                ctx.note(history);
                ctx.step();
                same(a, m[0], "a", i == depth && target == 0);
                same(b, m[1], "b", i == depth && target == 1);
                ctx.state(str(Kit::name(), m[0].text(), m[0].alloc, m[1].text(), m[1].alloc));
            }
            ctx.sample(history);
        }
        tr::end(ctx);
    }

    // the allocator inside a value that uses one
    void checkAware(const Any& a, int expected)
    {
        if (const auto* p = a.template get_if<Aware<ALLOC>>())
        {
            MC_REQUIRE(ctx, Kit::id(p->alloc) == Kit::id(Kit::make(expected)), "aware", "value constructed with allocator ",
                    Kit::id(p->alloc), " instead of ", expected, " after ", history);
        }
    }

    bool operation(Any& x, Any& y, M& mx, M& my, const char* name, bool faultUsed, bool few)
    {
        const uint32_t op = ctx.choose(15);
        int kind = NONE;
        if (op <= 3)
        {
            kind = few ? static_cast<int>(ctx.pick(std::vector<uint32_t>{0, 1, 2})) : static_cast<int>(ctx.choose(KINDS));
        }
        const uint32_t k = faultUsed ? 0 : ctx.choose(4);
        history += str(name, " op", op, kind == NONE ? std::string() : str(" kind", kind), k ? str(" fault", k) : std::string(), "; ");
        ctx.note(history);
        const M oldX = mx, oldY = my;
        M nx = mx, ny = my;
        bool failed = false;
        auto run = [&](const std::function<void()>& f) {
            failed = tr::faulty(k, f);
            if (k != 0 && !failed)
            {
                MC_REQUIRE(ctx, !tr::st().fired, "swallowed-failure", "a failure was not reported by ", history);
                tr::verify(ctx, history.c_str());
                ctx.skip();
            }
            if (!failed)
            {
                mx = nx;
                my = ny;
                return;
            }
            resync(x, mx, {oldX, oldY, nx}, "target");
            resync(y, my, {oldX, oldY, ny}, "source");
        };
        auto temp = [&](const std::function<void(const std::function<void(Any&)>&)>& f, const M& expected) {
            run([&]() {
                f([&](Any& t) {
                    const int64_t left = tr::st().countdown;
                    tr::st().countdown = 0;
                    same(t, expected, "temporary", false);
                    checkAware(t, expected.alloc);
                    tr::st().countdown = left;
                });
            });
        };
        M mt;
        const M empty{NONE, 0, my.alloc};
        switch (op)
        {
        case 0:
            nx.kind = kind;
            nx.v = 3;
            withKind(kind, [&](auto* p) {
                using T = std::remove_pointer_t<decltype(p)>;
                const T v(3);
                run([&]() { x.set(v); });
            });
            break;
        case 1:
            nx.kind = kind;
            nx.v = 3;
            withKind(kind, [&](auto* p) {
                using T = std::remove_pointer_t<decltype(p)>;
                T v(3);
                run([&]() { x = std::move(v); });
            });
            break;
        case 2:
            nx.kind = kind;
            nx.v = 4;
            withKind(kind, [&](auto* p) {
                using T = std::remove_pointer_t<decltype(p)>;
                run([&]() {
                    T& r = x.template emplace<T>(4);
                    MC_REQUIRE(ctx, r.get() == 4, "emplace", "emplace returned another value after ", history);
                });
                if (!failed)
                {
                    checkAware(x, mx.alloc);
                }
            });
            break;
        case 3:
            mt = M{kind, 5, 2};
            withKind(kind, [&](auto* p) {
                using T = std::remove_pointer_t<decltype(p)>;
                const T v(5);
                run([&]() {
                    Any t(v, Kit::make(2));
                    const int64_t left = tr::st().countdown;
                    tr::st().countdown = 0;
                    same(t, mt, "temporary", false);
                    tr::st().countdown = left;
                });
            });
            break;
        case 4:
            nx.kind = NONE;
            run([&]() { x.reset(); });
            break;
        case 5:
            nx.kind = my.kind;
            nx.v = my.v;
            nx.alloc = prop ? my.alloc : mx.alloc;
            run([&]() { x = y; });
            if (!failed)
            {
                checkAware(x, mx.alloc);
            }
            break;
        case 6:
            nx.kind = my.kind;
            nx.v = my.v;
            nx.alloc = prop ? my.alloc : mx.alloc;
            ny.kind = NONE;
            run([&]() { x = std::move(y); });
            break;
        case 7:
            std::swap(nx, ny);
            if (!prop)
            {
                std::swap(nx.alloc, ny.alloc);
            }
            run([&]() { x.swap(y); });
            break;
        case 8:
            run([&]() { x = static_cast<const Any&>(x); });
            break;
        case 9:
            run([&]() {
                Any& alias = x;
                x = std::move(alias);
            });
            break;
        case 10: // own value
            if (mx.kind == NONE)
            {
                ctx.skip();
            }
            withKind(mx.kind, [&](auto* p) {
                using T = std::remove_pointer_t<decltype(p)>;
                run([&]() { x.set(static_cast<const T&>(x.template get<T>())); });
            });
            break;
        case 11:
            mt = M{my.kind, my.v, Kit::copyId(my.alloc)};
            temp([&](auto chk) { Any t(y); chk(t); }, mt);
            break;
        case 12:
            mt = M{my.kind, my.v, 2};
            temp([&](auto chk) { Any t(y, Kit::make(2)); chk(t); }, mt);
            break;
        case 13:
            mt = M{my.kind, my.v, my.alloc};
            ny.kind = NONE;
            run([&]() {
                Any t(std::move(y));
                const int64_t left = tr::st().countdown;
                tr::st().countdown = 0;
                same(t, mt, "temporary", false);
                tr::st().countdown = left;
            });
            break;
        case 14:
            mt = M{my.kind, my.v, 1};
            ny.kind = NONE;
            run([&]() {
                Any t(std::move(y), Kit::make(1));
                if (Kit::id(Kit::make(my.alloc)) != Kit::id(Kit::make(1)))
                {
                    checkAware(t, 1);
                }
                const int64_t left = tr::st().countdown;
                tr::st().countdown = 0;
                same(t, mt, "temporary", false);
                tr::st().countdown = left;
            });
            break;
        }
        return k != 0;
    }
};

template <typename ALLOC>
void addAll(std::vector<mc::Scenario>& scenarios)
{
    static const std::string name = std::string("sequences-") + tr::AllocKit<ALLOC>::name();
    scenarios.push_back({name.c_str(), [](Ctx& ctx) { Run<ALLOC>{ctx, {}}.scenario(); }, 4});
}

} // namespace

#define JOIN_(a, b) a##b
#define JOIN(a, b) JOIN_(a, b)
void JOIN(c11_, KIT_GROUP)(std::vector<mc::Scenario>& scenarios)
{
    (void)scenarios;
#if KIT_GROUP == 0
    addAll<std::allocator<uint8_t>>(scenarios);
#elif KIT_GROUP == 1
    addAll<tr::TrackAlloc<uint8_t, true>>(scenarios);
#elif KIT_GROUP == 2
    addAll<tr::TrackAlloc<uint8_t, false>>(scenarios);
#elif KIT_GROUP == 3
    addAll<std::pmr::polymorphic_allocator<uint8_t>>(scenarios);
#elif KIT_GROUP == 4
    addAll<zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>>(scenarios);
#endif
}
