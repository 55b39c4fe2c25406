// Operation sequences on variants for one kind of allocator and index type (KIT_GROUP).
#include "c10.h"
#include "tracked.h"
#include "zserio/Variant.h"
#include "zserio/pmr/Variant.h"
#include "zserio/ppmr/Variant.h"

using mc::Ctx;
using mc::str;
using namespace zserio;

namespace
{

using Small = tr::Value<1, 4, false>; // in place
using SmallTM = tr::Value<2, 4, true>; // on the heap because moving it may throw
using Big = tr::Value<3, 36, false>;
using BigTM = tr::Value<4, 36, true>;

enum class Narrow : uint8_t
{
    A,
    B,
    C,
    D,
    E
};

constexpr int NONE = -1;
constexpr int COUNT = 5;

struct M
{
    int index = NONE;
    int v = 0;
    int alloc = 0;
    std::string text() const
    {
        return index == NONE ? std::string("-") : str(index, ":", v);
    }
    bool operator==(const M& other) const
    {
        return index == other.index && (index == NONE || v == other.v);
    }
};

template <typename ALLOC, typename INDEX>
struct Run
{
    // two alternatives share a type
    using Var = BasicVariant<ALLOC, INDEX, Small, SmallTM, Big, BigTM, Big>;
    using Kit = tr::AllocKit<ALLOC>;
    static constexpr bool prop = Kit::prop;

    Ctx& ctx;
    std::string history;

    template <typename F>
    static void withIndex(int index, F f)
    {
        switch (index)
        {
        case 0:
            f(std::integral_constant<INDEX, static_cast<INDEX>(0)>());
            break;
        case 1:
            f(std::integral_constant<INDEX, static_cast<INDEX>(1)>());
            break;
        case 2:
            f(std::integral_constant<INDEX, static_cast<INDEX>(2)>());
            break;
        case 3:
            f(std::integral_constant<INDEX, static_cast<INDEX>(3)>());
            break;
        default:
            f(std::integral_constant<INDEX, static_cast<INDEX>(4)>());
            break;
        }
    }
    template <typename I>
    using At = detail::type_at_t<I::value, Small, SmallTM, Big, BigTM, Big>;

    void same(const Var& a, const M& m, const char* who, bool full = true)
    {
        Var& w = const_cast<Var&>(a);
        const INDEX expected = m.index == NONE ? static_cast<INDEX>(std::variant_npos) : static_cast<INDEX>(m.index);
        MC_REQUIRE(ctx, a.index() == expected, "index", who, " index ", static_cast<size_t>(a.index()), " instead of ", m.index,
                " after ", history);
        MC_REQUIRE(ctx, a.valueless_by_exception() == (m.index == NONE), "valueless", who, " after ", history);
        for (int index = 0; index < COUNT; ++index)
        {
            withIndex(index, [&](auto i) {
                constexpr INDEX I = decltype(i)::value;
                const bool is = index == m.index;
                const auto* c = a.template get_if<I>();
                const auto* c2 = get_if<I>(&a);
                auto* v = w.template get_if<I>();
                auto* v2 = get_if<I>(&w);
                MC_REQUIRE(ctx, (c != nullptr) == is && c == v && c == c2 && c == v2, "get-if", who, " get_if ", index, " after ", history);
                if (is)
                {
                    MC_REQUIRE(ctx, c->get() == m.v && &a.template get<I>() == c && &w.template get<I>() == c &&
                                    &zserio::get<I>(a) == c && &zserio::get<I>(w) == c,
                            "value", who, " holds ", c->get(), " instead of ", m.v, " after ", history);
                }
                else if (full && index != 3)
                {
                    bool thrown = false;
                    try
                    {
                        index % 2 == 0 ? a.template get<I>().get() : w.template get<I>().get();
                    }
                    catch (const BadVariantAccess&)
                    {
                        thrown = true;
                    }
                    MC_REQUIRE(ctx, thrown, "access", who, " get ", index, " after ", history);
                }
            });
        }
        // visiting
        int visited = 0, kind = 0, value = 0;
        auto visitor = [&](const auto& item) {
            ++visited;
            kind = std::decay_t<decltype(item)>::kind;
            value = item.get();
        };
        auto returning = [&](auto&& item) -> int {
            visitor(item);
            return item.get() + 100;
        };
        if (m.index != NONE)
        {
            static const int kinds[] = {1, 2, 3, 4, 3};
            a.visit(visitor);
            w.visit(visitor);
            zserio::visit(visitor, a);
            MC_REQUIRE(ctx, a.visit(returning) == m.v + 100 && w.visit(returning) == m.v + 100 && zserio::visit(returning, w) == m.v + 100,
                    "visit", who, " visit result after ", history);
            MC_REQUIRE(ctx, visited == 6 && kind == kinds[m.index] && value == m.v, "visit", who, " visited ", visited,
                    " times, kind ", kind, " after ", history);
        }
        else
        {
            for (int i = 0; i < (full ? 4 : 1); ++i)
            {
                bool thrown = false;
                try
                {
                    i == 0 ? a.visit(visitor) : i == 1 ? w.visit(visitor) : i == 2 ? void(a.visit(returning)) : void(w.visit(returning));
                }
                catch (const BadVariantAccess&)
                {
                    thrown = true;
                }
                MC_REQUIRE(ctx, thrown && visited == 0, "visit", who, " visit of a valueless variant after ", history);
            }
        }
        tr::verify(ctx, history.c_str());
    }

    void compare(const Var& a, const Var& b, const M& ma, const M& mb)
    {
        // a valueless variant is ordered by its index, variant_npos
        const size_t ia = ma.index == NONE ? 1000 : ma.index, ib = mb.index == NONE ? 1000 : mb.index;
        const bool eq = ma == mb;
        const bool lt = ia != ib ? ia < ib : ma.index != NONE && ma.v < mb.v;
        const bool gt = ia != ib ? ib < ia : ma.index != NONE && mb.v < ma.v;
        if (ma.index == NONE || mb.index == NONE)
        {
            // where the valueless one is ordered is not prescribed, being consistent is
            MC_REQUIRE(ctx, (a == b) == eq && (a != b) == !eq, "compare", ma.text(), " == ", mb.text(), " after ", history);
            MC_REQUIRE(ctx, int(a == b) + int(a < b) + int(b < a) == 1, "compare", ma.text(), " < ", mb.text(), " after ", history);
            MC_REQUIRE(ctx, (a > b) == (b < a), "compare", ma.text(), " > ", mb.text(), " after ", history);
        }
        else
        {
            MC_REQUIRE(ctx, (a == b) == eq && (a != b) == !eq && (a < b) == lt && (a > b) == gt, "compare",
                    "comparing ", ma.text(), " with ", mb.text(), " after ", history);
        }
        MC_REQUIRE(ctx, (a <= b) == !(b < a) && (a >= b) == !(a < b), "compare-or-equal", ma.text(), " <=, >= ", mb.text(),
                " after ", history);
        if (eq)
        {
            MC_REQUIRE(ctx, calcHashCode(5, a) == calcHashCode(5, b) && std::hash<Var>()(a) == std::hash<Var>()(b), "hash",
                    "equal variants hash differently after ", history);
        }
        if (ma.index != NONE)
        {
            MC_REQUIRE(ctx, calcHashCode(5, a) ==
                            zserio::calcHashCode(zserio::calcHashCode(uint32_t(5), static_cast<size_t>(ma.index)), static_cast<int32_t>(ma.v)),
                    "hash", "hash of ", ma.text(), " after ", history);
        }
    }

    void resync(const Var& a, M& m, const std::vector<M>& allowed, const char* who)
    {
        M now;
        now.alloc = m.alloc;
        for (int index = 0; index < COUNT; ++index)
        {
            withIndex(index, [&](auto i) {
                if (const auto* c = a.template get_if<decltype(i)::value>())
                {
                    now.index = index;
                    now.v = c->get();
                }
            });
        }
        MC_REQUIRE(ctx, a.valueless_by_exception() == (now.index == NONE), "valueless", who,
                " has an index but no value after failed ", history);
        bool ok = now.index == NONE;
        for (const M& one : allowed)
        {
            ok = ok || now == one;
        }
        MC_REQUIRE(ctx, ok, "after-failure", who, " holds ", now.text(), " after failed ", history);
        m = now;
    }

    // moves empty the source when the storage is handed over; otherwise the value is moved
    void scenario()
    {
        tr::begin();
        {
            const bool equalAllocs = ctx.flip();
            M m[2];
            m[0].alloc = 1;
            m[1].alloc = equalAllocs ? 1 : 2;
            Var a(Kit::make(m[0].alloc));
            Var b(Kit::make(m[1].alloc));
            Var* o[2] = {&a, &b};
            for (int i = 0; i < 2; ++i)
            {
                m[i].index = static_cast<int>(ctx.choose(COUNT + 1)) - 1;
                m[i].v = i == 0 ? 1 : static_cast<int>(1 + ctx.choose(2));
                if (m[i].index == NONE)
                {
                    o[i]->template emplace<static_cast<INDEX>(2)>(9);
                    Var sink(std::move(*o[i]));
                }
                else
                {
                    withIndex(m[i].index, [&](auto index) { o[i]->template emplace<decltype(index)::value>(m[i].v); });
                }
            }
            history = str(Kit::name(), equalAllocs ? " same" : " other", " a=", m[0].text(), " b=", m[1].text(), ": ");
            const bool quiet = m[1].v == 1; // the second value only matters for comparisons
            same(a, m[0], "a", false);
            same(b, m[1], "b", false);
            compare(a, b, m[0], m[1]);
            compare(b, a, m[1], m[0]);
            compare(a, a, m[0], m[0]);
            bool faultUsed = false;
            const uint32_t depth = quiet ? 0 : ctx.thorough() ? 3 : 2;
            for (uint32_t i = 0; i < depth; ++i)
            {
                const uint32_t target = i == 0 ? 0 : ctx.choose(2);
                faultUsed = operation(*o[target], *o[1 - target], m[target], m[1 - target], target == 0 ? "a" : "b",
                                    faultUsed, i != 0) || faultUsed;
                ctx.note(history);
                ctx.step();
                same(a, m[0], "a", i + 1 == depth && target == 0);
                same(b, m[1], "b", i + 1 == depth && target == 1);
                compare(a, b, m[0], m[1]);
                ctx.state(str(Kit::name(), m[0].text(), m[0].alloc, m[1].text(), m[1].alloc));
            }
            ctx.sample(history);
        }
        tr::end(ctx);
    }

    bool operation(Var& x, Var& y, M& mx, M& my, const char* name, bool faultUsed, bool few)
    {
        const uint32_t op = ctx.choose(12);
        int index = NONE;
        if (op <= 2)
        {
            index = few ? static_cast<int>(ctx.pick(std::vector<uint32_t>{0, 1, 4})) : static_cast<int>(ctx.choose(COUNT));
        }
        const uint32_t k = faultUsed ? 0 : ctx.choose(4);
        history += str(name, " op", op, index == NONE ? std::string() : str(" index", index), k ? str(" fault", k) : std::string(), "; ");
        ctx.note(history);
        const M oldX = mx, oldY = my;
        M nx = mx, ny = my;
        bool failed = false;
        auto run = [&](const std::function<void()>& f) {
            failed = tr::faulty(k, f);
            if (k != 0 && !failed)
            {
                MC_REQUIRE(ctx, !tr::st().fired, "swallowed-failure", "a failure was not reported by ", history);
                tr::verify(ctx, history.c_str());
                ctx.skip();
            }
            if (!failed)
            {
                mx = nx;
                my = ny;
                return;
            }
            resync(x, mx, {oldX, oldY, nx}, "target");
            resync(y, my, {oldX, oldY, ny}, "source");
        };
        auto temp = [&](Var& t, const M& expected) {
            const int64_t left = tr::st().countdown;
            tr::st().countdown = 0;
            same(t, expected, "temporary", false);
            tr::st().countdown = left;
        };
        // what moving leaves behind: nothing, wherever the value was stored
        M mt;
        switch (op)
        {
        case 0:
            nx.index = index;
            nx.v = 3;
            withIndex(index, [&](auto i) {
                using T = At<decltype(i)>;
                const T v(3);
                run([&]() { x.template emplace<decltype(i)::value>(v); });
            });
            break;
        case 1:
            nx.index = index;
            nx.v = 4;
            withIndex(index, [&](auto i) {
                run([&]() {
                    auto& r = x.template emplace<decltype(i)::value>(4);
                    MC_REQUIRE(ctx, r.get() == 4, "emplace", "emplace returned another value after ", history);
                });
            });
            break;
        case 2:
            mt = M{index, 5, 2};
            withIndex(index, [&](auto i) {
                run([&]() {
                    Var t(in_place_index<decltype(i)::value>, Kit::make(2), 5);
                    temp(t, mt);
                    Var u(in_place_index<decltype(i)::value>, 5);
                    temp(u, mt);
                });
            });
            break;
        case 3:
            nx.index = my.index;
            nx.v = my.v;
            nx.alloc = prop ? my.alloc : mx.alloc;
            run([&]() { x = y; });
            break;
        case 4:
            nx.index = my.index;
            nx.v = my.v;
            nx.alloc = prop ? my.alloc : mx.alloc;
            ny.index = NONE;
            run([&]() { x = std::move(y); });
            break;
        case 5:
            std::swap(nx, ny);
            if (!prop)
            {
                std::swap(nx.alloc, ny.alloc);
            }
            run([&]() { x.swap(y); });
            break;
        case 6:
            run([&]() { x = static_cast<const Var&>(x); });
            break;
        case 7:
            run([&]() {
                Var& alias = x;
                x = std::move(alias);
            });
            break;
        case 8:
            mt = M{my.index, my.v, Kit::copyId(my.alloc)};
            run([&]() {
                Var t(y);
                temp(t, mt);
            });
            break;
        case 9:
            mt = M{my.index, my.v, 2};
            run([&]() {
                Var t(y, Kit::make(2));
                temp(t, mt);
            });
            break;
        case 10:
            mt = M{my.index, my.v, my.alloc};
            ny.index = NONE;
            run([&]() {
                Var t(std::move(y));
                temp(t, mt);
            });
            break;
        case 11:
            mt = M{my.index, my.v, 1};
            ny.index = NONE;
            run([&]() {
                Var t(std::move(y), Kit::make(1));
                temp(t, mt);
            });
            break;
        }
        return k != 0;
    }
};

template <typename ALLOC, typename INDEX>
void addAll(std::vector<mc::Scenario>& scenarios)
{
    static const std::string name = std::string("sequences-") + tr::AllocKit<ALLOC>::name();
    scenarios.push_back({name.c_str(), [](Ctx& ctx) { Run<ALLOC, INDEX>{ctx, {}}.scenario(); }, 5});
}

} // namespace

#define JOIN_(a, b) a##b
#define JOIN(a, b) JOIN_(a, b)
void JOIN(c10_, KIT_GROUP)(std::vector<mc::Scenario>& scenarios)
{
    (void)scenarios;
#if KIT_GROUP == 0
    addAll<std::allocator<uint8_t>, size_t>(scenarios);
#elif KIT_GROUP == 1
    addAll<tr::TrackAlloc<uint8_t, true>, Narrow>(scenarios);
#elif KIT_GROUP == 2
    addAll<tr::TrackAlloc<uint8_t, false>, size_t>(scenarios);
#elif KIT_GROUP == 3
    addAll<std::pmr::polymorphic_allocator<uint8_t>, Narrow>(scenarios);
#elif KIT_GROUP == 4
    addAll<zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>, int>(scenarios);
#endif
}
