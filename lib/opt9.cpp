// Optional operation sequences for one kind of allocator (KIT_GROUP).
#include "c09.h"
#include "tracked.h"
#include "zserio/Optional.h"
#include "zserio/pmr/Optional.h"
#include "zserio/ppmr/Optional.h"

using mc::Ctx;
using mc::str;
using namespace zserio;

namespace
{

using Small = tr::Value<1, 4, false>;
using SmallTM = tr::Value<2, 4, true>;
using Big = tr::Value<3, 36, false>;
using BigTM = tr::Value<4, 36, true>;

// recursive: always on the heap, may own a tail
template <typename ALLOC>
struct Node : public tr::Value<5, 4, true>
{
    using IS_RECURSIVE = void;
    using Base = tr::Value<5, 4, true>;
    Node(int v = 0) :
            Base(v)
    {}
    BasicOptional<ALLOC, Node> next;
};

template <typename ALLOC>
uint32_t calcHashCode(uint32_t seed, const Node<ALLOC>& value)
{
    return zserio::calcHashCode(seed, static_cast<int32_t>(value.get()));
}

struct WideInt // a source of conversions that is stored on the heap
{
    int v = 0;
    char pad[36] = {};
    WideInt(int value) :
            v(value)
    {}
    operator int() const
    {
        return v;
    }
};

struct M
{
    bool has = false;
    int v = 0;
    int alloc = 0;
    std::string text() const
    {
        return has ? std::to_string(v) : std::string("-");
    }
};

template <typename ALLOC, typename T>
struct Run
{
    using Opt = BasicOptional<ALLOC, T>;
    using Kit = tr::AllocKit<ALLOC>;
    static constexpr bool heap = (sizeof(T) > 24) || std::is_same_v<T, Node<ALLOC>>;
    static constexpr bool throwingMove = !std::is_nothrow_move_constructible_v<T>;

    Ctx& ctx;
    std::string history;

    void same(const Opt& o, const M& m, const char* who, bool full = true)
    {
        if (!full) // a prefix of the sequence, observed in full in its last extension
        {
            MC_REQUIRE(ctx, o.has_value() == m.has && (!m.has || o.value().get() == m.v), "value", who, " after ", history);
            tr::verify(ctx, history.c_str());
            return;
        }
        Opt& w = const_cast<Opt&>(o);
        MC_REQUIRE(ctx, o.has_value() == m.has, "has-value", who, " has_value ", o.has_value(), " after ", history);
        MC_REQUIRE(ctx, static_cast<bool>(o) == m.has, "bool", who, " bool after ", history);
        MC_REQUIRE(ctx, Kit::id(o.get_allocator_ref()) == Kit::id(Kit::make(m.alloc)), "allocator", who, " uses allocator ",
                Kit::id(o.get_allocator_ref()), " instead of ", m.alloc, " after ", history);
        if (!m.has && m.alloc == 1) // throwing is slow
        {
            const char* unexpected = nullptr;
            try
            {
                o.value();
                unexpected = "value";
            }
            catch (const BadOptionalAccess&)
            {}
            MC_REQUIRE(ctx, !unexpected, "access", who, " access to nothing after ", history);
            tr::verify(ctx, history.c_str());
            return;
        }
        int thrown = 0;
        auto get = [&](const std::function<int()>& f) {
            try
            {
                return f();
            }
            catch (const BadOptionalAccess&)
            {
                ++thrown;
                return -1000;
            }
        };
        const int expected = m.has ? m.v : -1000;
        MC_REQUIRE(ctx, get([&]() { return o.value().get(); }) == expected, "value", who, " value after ", history);
        MC_REQUIRE(ctx, get([&]() { return w.value().get(); }) == expected, "value", who, " value after ", history);
        MC_REQUIRE(ctx, get([&]() { return (*o).get(); }) == expected, "value", who, " * after ", history);
        MC_REQUIRE(ctx, get([&]() { return (*w).get(); }) == expected, "value", who, " * after ", history);
        MC_REQUIRE(ctx, get([&]() { return o->get(); }) == expected, "value", who, " -> after ", history);
        MC_REQUIRE(ctx, get([&]() { return w->get(); }) == expected, "value", who, " -> after ", history);
        MC_REQUIRE(ctx, get([&]() { return std::move(o).value().get(); }) == expected, "value", who, " value&& after ", history);
        MC_REQUIRE(ctx, get([&]() { return (*std::move(o)).get(); }) == expected, "value", who, " *&& after ", history);
        MC_REQUIRE(ctx, get([&]() { T&& r = std::move(w).value(); return r.get(); }) == expected, "value", who, " value&& after ", history);
        MC_REQUIRE(ctx, get([&]() { T&& r = *std::move(w); return r.get(); }) == expected, "value", who, " *&& after ", history);
        MC_REQUIRE(ctx, thrown == (m.has ? 0 : 10), "access", who, ": ", thrown, " accesses threw after ", history);
        MC_REQUIRE(ctx, o.value_or(55).get() == (m.has ? m.v : 55), "value-or", who, " value_or after ", history);
        MC_REQUIRE(ctx, w.value_or(55).get() == (m.has ? m.v : 55), "value-or", who, " value_or after ", history);
        MC_REQUIRE(ctx, (o == std::nullopt) == !m.has && (std::nullopt == o) == !m.has && (o != std::nullopt) == m.has &&
                        (std::nullopt != o) == m.has && !(o < std::nullopt) && (std::nullopt < o) == m.has &&
                        (o > std::nullopt) == m.has && !(std::nullopt > o) && (o <= std::nullopt) == !m.has &&
                        (std::nullopt <= o) && (o >= std::nullopt) && (std::nullopt >= o) == !m.has,
                "compare-nullopt", who, " against nullopt after ", history);
        for (int x : {1, 2, 3})
        {
            const T v(x);
            const bool lt = !m.has || m.v < x, eq = m.has && m.v == x, gt = m.has && m.v > x;
            MC_REQUIRE(ctx, (o == v) == eq && (v == o) == eq && (o != v) == !eq && (v != o) == !eq && (o < v) == lt &&
                            (v < o) == gt && (o > v) == gt && (v > o) == lt && (o <= v) == !gt && (v <= o) == !lt &&
                            (o >= v) == !lt && (v >= o) == !gt,
                    "compare-value", who, " against ", x, " after ", history);
        }
        uint32_t hash = 17;
        if (m.has)
        {
            hash = zserio::calcHashCode(hash, static_cast<int32_t>(m.v));
        }
        MC_REQUIRE(ctx, zserio::calcHashCode(17, o) == hash, "hash", who, " hash after ", history);
        tr::verify(ctx, history.c_str());
    }

    void compare(const Opt& a, const Opt& b, const M& ma, const M& mb)
    {
        const bool eq = ma.has == mb.has && (!ma.has || ma.v == mb.v);
        const bool lt = mb.has && (!ma.has || ma.v < mb.v), gt = ma.has && (!mb.has || mb.v < ma.v);
        MC_REQUIRE(ctx, (a == b) == eq && (a != b) == !eq && (a < b) == lt && (a > b) == gt && (a <= b) == !gt &&
                        (a >= b) == !lt,
                "compare", "comparing ", ma.text(), " with ", mb.text(), " after ", history);
    }

    // what the optional holds after an operation that failed
    void resync(const Opt& o, M& m, const M& old, bool newHas, int newV, bool swapped)
    {
        const bool has = o.has_value();
        const int v = has ? o->get() : 0;
        MC_REQUIRE(ctx, !has || (old.has && v == old.v) || (newHas && v == newV) ||
                        (swapped && v == tr::MOVED), // as a swap of two plain optionals
                "after-failure",
                "holds ", v, " after failed ", history);
        m.has = has;
        m.v = v;
        m.alloc = Kit::id(o.get_allocator_ref());
    }

    void moveModel(M& to, M& from, int alloc)
    {
        to.has = from.has;
        to.v = from.v;
        if (from.has)
        {
            if (heap && Kit::id(Kit::make(alloc)) == Kit::id(Kit::make(from.alloc)))
            {
                from.has = false;
            }
            else
            {
                from.v = tr::MOVED;
            }
        }
        to.alloc = alloc;
    }

    void scenario()
    {
        tr::begin();
        {
            const bool equalAllocs = ctx.flip();
            M m[2];
            m[0].alloc = 1;
            m[1].alloc = equalAllocs ? 1 : 2;
            const uint32_t init = ctx.choose(3);
            Opt a(Kit::make(m[0].alloc));
            Opt b(Kit::make(m[1].alloc));
            Opt* o[2] = {&a, &b};
            if (init >= 1)
            {
                a = T(1);
                m[0].has = true;
                m[0].v = 1;
            }
            if (init == 2)
            {
                b = T(2);
                m[1].has = true;
                m[1].v = 2;
            }
            history = str(Kit::name(), heap ? " heap" : " in-place", " a=", m[0].text(), " b=", m[1].text(), ": ");
            same(a, m[0], "a");
            same(b, m[1], "b");
            bool faultUsed = false;
            const uint32_t depth = ctx.thorough() ? 3 : 2;
            for (uint32_t i = 0; i < depth; ++i)
            {
                const uint32_t target = ctx.choose(2);
                const std::string before = m[0].text() + m[1].text();
                faultUsed = operation(*o[target], *o[1 - target], m[target], m[1 - target], target == 0 ? "a" : "b",
                                    faultUsed) || faultUsed;
                ctx.note(history);
                ctx.step();
                const bool last = i + 1 == depth;
                same(a, m[0], "a", last && (target == 0 || m[0].text() + m[1].text() != before));
                same(b, m[1], "b", last && (target == 1 || m[0].text() + m[1].text() != before));
                compare(a, b, m[0], m[1]);
                compare(b, a, m[1], m[0]);
                ctx.state(str(Kit::name(), heap, throwingMove, T::kind, m[0].has, m[0].v, m[0].alloc, m[1].has, m[1].v, m[1].alloc));
            }
            ctx.sample(history);
        }
        tr::end(ctx);
    }

    bool operation(Opt& x, Opt& y, M& mx, M& my, const char* name, bool faultUsed)
    {
        const uint32_t op = ctx.choose(30);
        const uint32_t k = faultUsed ? 0 : ctx.choose(4);
        history += str(name, " op", op, k ? str(" fault", k) : std::string(), "; ");
        ctx.note(history);
        const M oldX = mx, oldY = my;
        const bool prop = Kit::prop;
        M nx = mx, ny = my;
        auto run = [&](const std::function<void()>& f) {
            const bool failed = tr::faulty(k, f);
            if (k != 0 && !failed)
            {
                MC_REQUIRE(ctx, !tr::st().fired, "swallowed-failure", "a failure was not reported by ", history);
                if (!tr::st().error.empty())
                {
                    tr::verify(ctx, history.c_str());
                }
                tr::st().live.clear(); // the path is abandoned, its values go uncounted
                ctx.skip();
            }
            if (!failed)
            {
                mx = nx;
                my = ny;
                return;
            }
            resync(x, mx, oldX, nx.has, nx.v, op == 7);
            resync(y, my, oldY, ny.has, ny.v, op == 7);
        };
        auto setX = [&](int v) {
            nx.has = true;
            nx.v = v;
        };
        // a temporary made of x or y: checks it and what is left in the source
        auto temp = [&](const std::function<void(std::function<void(Opt&, M)>)>& f, M expected) {
            run([&]() {
                f([&](Opt& t, M) {
                    const int64_t left = tr::st().countdown;
                    tr::st().countdown = 0;
                    same(t, expected, "temporary");
                    tr::st().countdown = left;
                });
            });
        };
        M mt;
        switch (op)
        {
        case 0: {
            const T v(2);
            setX(2);
            run([&]() { x = v; });
            break;
        }
        case 1: {
            T v(3);
            setX(3);
            run([&]() { x = std::move(v); });
            break;
        }
        case 2:
            setX(1);
            run([&]() {
                T& r = x.emplace(1);
                MC_REQUIRE(ctx, r.get() == 1, "emplace", "emplace returned another value after ", history);
            });
            break;
        case 3:
            nx.has = false;
            run([&]() { x.reset(); });
            break;
        case 4:
            nx.has = false;
            run([&]() { x = std::nullopt; });
            break;
        case 5:
            nx.has = my.has;
            nx.v = my.v;
            nx.alloc = prop ? my.alloc : mx.alloc;
            run([&]() { x = y; });
            break;
        case 6:
            moveModel(nx, ny, prop ? my.alloc : mx.alloc);
            run([&]() { x = std::move(y); });
            break;
        case 7:
            if (!prop && Kit::id(Kit::make(mx.alloc)) != Kit::id(Kit::make(my.alloc)))
            {
                ctx.skip(); // not allowed for containers
            }
            std::swap(nx, ny);
            if (!prop)
            {
                std::swap(nx.alloc, ny.alloc);
            }
            run([&]() { x.swap(y); });
            break;
        case 8:
            run([&]() { x = static_cast<const Opt&>(x); });
            break;
        case 9:
            run([&]() {
                Opt& alias = x;
                x = std::move(alias);
            });
            break;
        case 10: // own value assigned
            if (!mx.has)
            {
                ctx.skip();
            }
            run([&]() { x = static_cast<const T&>(*x); });
            break;
        case 11:
            if (!my.has)
            {
                ctx.skip();
            }
            setX(my.v);
            run([&]() { x = *y; });
            break;
        case 12:
            mt = M{my.has, my.v, Kit::copyId(my.alloc)};
            temp([&](auto chk) { Opt t(y); chk(t, mt); }, mt);
            break;
        case 13:
            mt = M{my.has, my.v, 2};
            temp([&](auto chk) { Opt t(y, Kit::make(2)); chk(t, mt); }, mt);
            break;
        case 14:
            moveModel(mt, ny, my.alloc);
            temp([&](auto chk) { Opt t(std::move(y)); chk(t, mt); }, mt);
            break;
        case 15:
            moveModel(mt, ny, 1);
            temp([&](auto chk) { Opt t(std::move(y), Kit::make(1)); chk(t, mt); }, mt);
            break;
        case 16: {
            BasicOptional<ALLOC, int> c(7, Kit::make(2));
            setX(7);
            nx.alloc = prop ? 2 : mx.alloc;
            run([&]() { x = c; });
            break;
        }
        case 17: {
            BasicOptional<ALLOC, int> c(7, Kit::make(2));
            setX(7);
            nx.alloc = prop ? 2 : mx.alloc;
            run([&]() { x = std::move(c); });
            break;
        }
        case 18: {
            BasicOptional<ALLOC, WideInt> c(std::in_place, Kit::make(2), 8);
            setX(8);
            nx.alloc = prop ? 2 : mx.alloc;
            run([&]() { x = c; });
            break;
        }
        case 19: {
            BasicOptional<ALLOC, WideInt> c(std::in_place, Kit::make(2), 8);
            setX(8);
            nx.alloc = prop ? 2 : mx.alloc;
            run([&]() { x = std::move(c); });
            break;
        }
        case 20: {
            BasicOptional<ALLOC, WideInt> c(Kit::make(2)); // empty
            nx.has = false;
            nx.alloc = prop ? 2 : mx.alloc;
            run([&]() { x = c; });
            break;
        }
        case 21: {
            BasicOptional<ALLOC, WideInt> c(std::in_place, Kit::make(2), 8);
            mt = M{true, 8, 1};
            temp([&](auto chk) { Opt t(c, Kit::make(1)); chk(t, mt); }, mt);
            break;
        }
        case 22: {
            BasicOptional<ALLOC, WideInt> c(std::in_place, Kit::make(2), 8);
            mt = M{true, 8, 2};
            temp([&](auto chk) { Opt t(std::move(c)); chk(t, mt); }, mt);
            break;
        }
        case 23:
            mt = M{true, 4, 2};
            temp([&](auto chk) { Opt t(std::in_place, Kit::make(2), 4); chk(t, mt); }, mt);
            break;
        case 24:
            mt = M{true, 4, 0};
            temp([&](auto chk) { Opt t(std::in_place, 4); chk(t, mt); }, mt);
            break;
        case 25: {
            const T v(5);
            mt = M{true, 5, 2};
            temp([&](auto chk) { Opt t(v, Kit::make(2)); chk(t, mt); }, mt);
            break;
        }
        case 26: {
            T v(5);
            mt = M{true, 5, 2};
            temp([&](auto chk) { Opt t(std::move(v), Kit::make(2)); chk(t, mt); }, mt);
            break;
        }
        case 27:
            mt = M{false, 0, 0};
            temp([&](auto chk) { Opt t(std::nullopt); chk(t, mt); }, mt);
            mt = M{false, 0, 0};
            temp([&](auto chk) { Opt t; chk(t, mt); }, mt);
            if constexpr (std::is_same_v<ALLOC, std::allocator<uint8_t>>)
            {
                mt = M{true, 5, 0};
                T five(5);
                temp([&](auto chk) { Opt t(zserio::make_optional(static_cast<const T&>(five))); chk(t, mt); }, mt);
                temp([&](auto chk) { Opt t(zserio::make_optional(std::move(five))); chk(t, mt); }, mt);
                temp([&](auto chk) { Opt t(zserio::make_optional<T>(5)); chk(t, mt); }, mt);
            }
            break;
        case 28: { // conversions with a source that is kept or given away, with a value or none
            const uint32_t which = ctx.choose(6);
            BasicOptional<ALLOC, WideInt> wide(std::in_place, Kit::make(2), 8);
            BasicOptional<ALLOC, WideInt> noWide(Kit::make(2));
            BasicOptional<ALLOC, int> narrow(7, Kit::make(2));
            BasicOptional<ALLOC, int> noNarrow(Kit::make(2));
            const bool has = which % 3 != 0;
            mt = M{has, has ? which % 3 == 1 ? 8 : 7 : 0, Kit::copyId(2)};
            switch (which)
            {
            case 0:
                temp([&](auto chk) { Opt t(static_cast<const BasicOptional<ALLOC, WideInt>&>(noWide)); chk(t, mt); }, mt);
                break;
            case 1:
                temp([&](auto chk) { Opt t(static_cast<const BasicOptional<ALLOC, WideInt>&>(wide)); chk(t, mt); }, mt);
                break;
            case 2:
                temp([&](auto chk) { Opt t(static_cast<const BasicOptional<ALLOC, int>&>(narrow)); chk(t, mt); }, mt);
                break;
            case 3:
                mt.alloc = 1;
                temp([&](auto chk) { Opt t(std::move(noNarrow), Kit::make(1)); chk(t, mt); }, mt);
                break;
            case 4:
                mt.alloc = 1;
                temp([&](auto chk) { Opt t(std::move(wide), Kit::make(1)); chk(t, mt); }, mt);
                break;
            default:
                mt.alloc = 1;
                temp([&](auto chk) { Opt t(std::move(narrow), Kit::make(1)); chk(t, mt); }, mt);
                break;
            }
            MC_REQUIRE(ctx, wide.has_value() && wide->v == 8 && narrow.has_value() && *narrow == 7 && !noWide && !noNarrow, "conversion-source", "the source of a conversion changes after ", history);
            break;
        }
        default: { // an empty one of another type, given away
            BasicOptional<ALLOC, int> c(Kit::make(2));
            nx.has = false;
            nx.alloc = prop ? 2 : mx.alloc;
            run([&]() { x = std::move(c); });
            break;
        }
        }
        return k != 0;
    }
};

// a recursive type has to be complete before an optional of it is
template struct Node<std::allocator<uint8_t>>;
template struct Node<tr::TrackAlloc<uint8_t, true>>;
template struct Node<tr::TrackAlloc<uint8_t, false>>;
template struct Node<std::pmr::polymorphic_allocator<uint8_t>>;
template struct Node<zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>>;

// a list of recursive optionals: assignment from inside the own tail included
template <typename ALLOC>
struct Chain
{
    using N = Node<ALLOC>;
    using Opt = BasicOptional<ALLOC, N>;
    using Kit = tr::AllocKit<ALLOC>;

    static std::string text(const Opt& o)
    {
        std::string s;
        for (const Opt* p = &o; p->has_value(); p = &(*p)->next)
        {
            s += std::to_string((*p)->get()) + ",";
        }
        return s;
    }

    static void scenario(Ctx& ctx)
    {
        tr::begin();
        {
            Opt list(Kit::make(1));
            std::vector<int> model;
            std::string history = Kit::name() + std::string(" list: ");
            const uint32_t depth = ctx.thorough() ? 7 : 5;
            bool faultUsed = false;
            for (uint32_t i = 0; i < depth; ++i)
            {
                const uint32_t op = ctx.choose(8);
                const uint32_t k = faultUsed ? 0 : ctx.choose(3);
                history += str("op", op, k ? str(" fault", k) : std::string(), "; ");
                ctx.note(history);
                ctx.step();
                std::vector<int> after = model;
                std::function<void()> f;
                const int v = static_cast<int>(i + 1);
                switch (op)
                {
                case 0: // push front
                    after.insert(after.begin(), v);
                    f = [&]() {
                        Opt node(Kit::make(1));
                        node = N(v);
                        node->next = std::move(list);
                        list = std::move(node);
                    };
                    break;
                case 1: // push back
                    after.push_back(v);
                    f = [&]() {
                        Opt* p = &list;
                        while (p->has_value())
                        {
                            p = &(*p)->next;
                        }
                        p->emplace(v);
                    };
                    break;
                case 2: // the tail becomes the list: moved, copied, or its value
                case 3:
                case 4:
                    if (model.empty() || (op == 4 && model.size() < 2))
                    {
                        ctx.skip();
                    }
                    after.erase(after.begin());
                    if (op == 2)
                    {
                        f = [&]() { list = std::move(list->next); };
                    }
                    else if (op == 3)
                    {
                        f = [&]() { list = static_cast<const Opt&>(list->next); };
                    }
                    else
                    {
                        f = [&]() { list = *list->next; };
                    }
                    break;
                case 5: // cut the tail
                    if (model.empty())
                    {
                        ctx.skip();
                    }
                    after.resize(1);
                    f = [&]() { list->next.reset(); };
                    break;
                case 6:
                    f = [&]() {
                        Opt copy(list, Kit::make(2));
                        list.reset();
                        list = std::move(copy);
                    };
                    break;
                default:
                    after.clear();
                    f = [&]() { list.reset(); };
                    break;
                }
                const bool failed = tr::faulty(k, f);
                if (k != 0 && !failed)
                {
                    MC_REQUIRE(ctx, !tr::st().fired, "swallowed-failure", "a failure was not reported by ", history);
                    ctx.skip();
                }
                tr::verify(ctx, history.c_str());
                if (failed)
                {
                    faultUsed = true;
                    model.clear();
                    for (const Opt* p = &list; p->has_value(); p = &(*p)->next)
                    {
                        model.push_back((*p)->get()); // whatever is left is a proper list
                    }
                    tr::verify(ctx, history.c_str());
                }
                else
                {
                    model = after;
                    std::string expected;
                    for (int item : model)
                    {
                        expected += std::to_string(item) + ",";
                    }
                    MC_REQUIRE(ctx, text(list) == expected, "list", "list ", text(list), " instead of ", expected, " after ", history);
                    tr::verify(ctx, history.c_str());
                    ctx.state(expected);
                }
            }
        }
        tr::end(ctx);
    }
};

template <typename ALLOC, typename... T>
void addAll(std::vector<mc::Scenario>& scenarios)
{
    static const std::string name = std::string("sequences-") + tr::AllocKit<ALLOC>::name();
    scenarios.push_back({name.c_str(), [](Ctx& ctx) {
        const uint32_t which = ctx.choose(sizeof...(T));
        uint32_t i = 0;
        ((which == i++ ? Run<ALLOC, T>{ctx, {}}.scenario() : void()), ...);
    }, 6});
}

} // namespace

using Std = std::allocator<uint8_t>;
using Prop = tr::TrackAlloc<uint8_t, true>;
using NonProp = tr::TrackAlloc<uint8_t, false>;
using Pmr = std::pmr::polymorphic_allocator<uint8_t>;
using Ppmr = zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>;

#define JOIN_(a, b) a##b
#define JOIN(a, b) JOIN_(a, b)
void JOIN(c09_, KIT_GROUP)(std::vector<mc::Scenario>& scenarios)
{
    (void)scenarios;
#if KIT_GROUP == 0
    addAll<Std, Small, SmallTM, Big, BigTM, Node<Std>>(scenarios);
#elif KIT_GROUP == 1
    addAll<Prop, Small, SmallTM, Big, BigTM, Node<Prop>>(scenarios);
#elif KIT_GROUP == 2
    addAll<NonProp, Small, SmallTM, Big, BigTM, Node<NonProp>>(scenarios);
#elif KIT_GROUP == 3
    addAll<Pmr, Small, SmallTM, Big, BigTM, Node<Pmr>>(scenarios);
#elif KIT_GROUP == 4
    addAll<Ppmr, Small, SmallTM, Big, BigTM, Node<Ppmr>>(scenarios);
#elif KIT_GROUP == 5
    scenarios.push_back({"list-std", [](Ctx& ctx) { Chain<Std>::scenario(ctx); }, 3});
    scenarios.push_back({"list-pmr", [](Ctx& ctx) { Chain<Pmr>::scenario(ctx); }, 3});
#elif KIT_GROUP == 6
    scenarios.push_back({"list-prop", [](Ctx& ctx) { Chain<Prop>::scenario(ctx); }, 3});
#endif
}
