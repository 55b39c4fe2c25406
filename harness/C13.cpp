// C13: equality, ordering and hashing are mutually consistent.
// mc: level=model_checking opt=1 variants=default,arch32 sources=std_test_object
#include <cmath>
#include <limits>
#include <map>
#include <type_traits>
#include <variant>

#include "mc.h"
#include "objects.h"
#include "zserio/ArrayView.h"
#include "zserio/BitBuffer.h"
#include "zserio/Bytes.h"
#include "zserio/Extended.h"
#include "zserio/HashCodeUtil.h"
#include "zserio/Optional.h"
#include "zserio/String.h"
#include "zserio/Types.h"
#include "zserio/Variant.h"
#include "zserio/Vector.h"
#include "zserio/View.h"

using mc::Ctx;
using mc::str;
using namespace zserio;
namespace to = ::test_object::std_allocator;
namespace ob = ::obj::std_allocator;

namespace
{

// what a value is compared as: keys are compared lexicographically
using Key = std::vector<long double>;

template <typename T>
struct Item
{
    T value;
    Key key;
};
template <typename T>
using Items = std::vector<Item<T>>;

std::string text(const Key& key)
{
    std::string out = "(";
    for (size_t i = 0; i < key.size() && i < 12; ++i)
    {
        out += str(i == 0 ? "" : " ", key[i]);
    }
    return out + (key.size() > 12 ? " ...)" : ")");
}

Key operator+(Key a, const Key& b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}

constexpr uint32_t seeds[] = {HASH_SEED, 0, 1, 0xffffffffU, 0x80000000U};

// all laws of one pair of values; ordered: the key also tells the order
template <typename T>
__attribute__((noinline)) void pair(Ctx& ctx, const T& a, const Key& ka, const T& b, const Key& kb, bool ordered)
{
    const bool equal = ka == kb;
    ctx.cases();
    MC_REQUIRE(ctx, static_cast<bool>(a == b) == equal, "equal", text(ka), " == ", text(kb), " is ", static_cast<bool>(a == b));
    MC_REQUIRE(ctx, static_cast<bool>(a != b) == !equal, "not-equal", text(ka), " != ", text(kb), " is ", static_cast<bool>(a != b));
    const bool less = a < b;
    const bool greater = a > b;
    if (ordered)
    {
        MC_REQUIRE(ctx, less == (ka < kb), "less", text(ka), " < ", text(kb), " is ", less);
    }
    MC_REQUIRE(ctx, less == static_cast<bool>(b > a), "less-greater", text(ka), " < ", text(kb), " is ", less, " but > swapped is not");
    MC_REQUIRE(ctx, static_cast<int>(less) + static_cast<int>(greater) + static_cast<int>(equal) == 1, "trichotomy", text(ka), " and ", text(kb), ": < ", less, " > ", greater, " == ", equal);
    MC_REQUIRE(ctx, static_cast<bool>(a <= b) == !greater, "less-equal", text(ka), " <= ", text(kb), " is ", static_cast<bool>(a <= b), " although > is ", greater);
    MC_REQUIRE(ctx, static_cast<bool>(a >= b) == !less, "greater-equal", text(ka), " >= ", text(kb), " is ", static_cast<bool>(a >= b), " although < is ", less);
}

template <typename T, typename = void>
struct HasStdHash : std::false_type
{};
template <typename T>
struct HasStdHash<T, std::void_t<decltype(std::hash<T>()(std::declval<const T&>()))>> : std::true_type
{};

template <typename T>
__attribute__((noinline)) void hashes(Ctx& ctx, const T& a, const Key& ka, const T& b, const Key& kb)
{
    if (ka != kb)
    {
        return;
    }
    for (uint32_t seed : seeds)
    {
        const uint32_t ha = calcHashCode(seed, a);
        const uint32_t hb = calcHashCode(seed, b);
        MC_REQUIRE(ctx, ha == hb, "hash", "equal values ", text(ka), " hash to ", ha, " and ", hb, " with the seed ", seed);
        MC_REQUIRE(ctx, ha == calcHashCode(seed, a), "hash-stable", "value ", text(ka), " hashes differently the second time");
    }
    if constexpr (HasStdHash<T>::value)
    {
        MC_REQUIRE(ctx, std::hash<T>()(a) == std::hash<T>()(b), "std-hash", "equal values ", text(ka), " have different std::hash");
    }
}

template <typename T>
void noHash(Ctx&, const T&, const Key&, const T&, const Key&)
{}

template <typename T, bool HASH = true>
void laws(Ctx& ctx, const Items<T>& items, bool ordered = true)
{
    const uint32_t i = ctx.choose(static_cast<uint32_t>(items.size()));
    const Item<T>& a = items[i];
    ctx.note(str("value ", i, " ", text(a.key)));
    const T copy(a.value);
    pair(ctx, a.value, a.key, copy, a.key, ordered);
    if constexpr (HASH)
    {
        hashes(ctx, a.value, a.key, copy, a.key);
    }
    for (const Item<T>& b : items)
    {
        ctx.step();
        pair(ctx, a.value, a.key, b.value, b.key, ordered);
        if constexpr (HASH)
        {
            hashes(ctx, a.value, a.key, b.value, b.key);
        }
        if (!ordered)
        {
            for (const Item<T>& c : items)
            {
                ctx.cases();
                MC_REQUIRE(ctx, !(a.value < b.value && b.value < c.value) || a.value < c.value, "transitive", text(a.key), " < ", text(b.key), " < ", text(c.key), " but the first is not less than the last");
                MC_REQUIRE(ctx, !(a.value == b.value && b.value == c.value) || a.value == c.value, "equal-transitive", text(a.key), " == ", text(b.key), " == ", text(c.key));
            }
        }
    }
    ctx.state(text(a.key));
}

// ---------------------------------------------------------------- numbers

template <typename V>
std::vector<V> integerAlphabet(V min, V max, bool dense)
{
    std::vector<V> out;
    if (dense && static_cast<long double>(max) - static_cast<long double>(min) <= 255)
    {
        for (int v = static_cast<int>(min); v <= static_cast<int>(max); ++v)
        {
            out.push_back(static_cast<V>(v));
        }
        return out;
    }
    const auto add = [&](V v) {
        if (v >= min && v <= max && std::find(out.begin(), out.end(), v) == out.end())
        {
            out.push_back(v);
        }
    };
    for (int d = 0; d < 3; ++d)
    {
        add(static_cast<V>(d < 2 || min < max - 2 ? min + static_cast<V>(d) : min));
        add(static_cast<V>(d < 2 || min < max - 2 ? max - static_cast<V>(d) : max));
        add(static_cast<V>(d));
        if constexpr (std::is_signed_v<V>)
        {
            add(static_cast<V>(-d));
        }
    }
    for (uint32_t shift = 4; shift < sizeof(V) * 8 - 1; shift += 3)
    {
        add(static_cast<V>(V{1} << shift));
        add(static_cast<V>((V{1} << shift) - 1));
        if constexpr (std::is_signed_v<V>)
        {
            add(static_cast<V>(-(V{1} << shift)));
        }
    }
    if (sizeof(V) == 8)
    {
        // equal low halves, equal exclusive or of the halves
        add(static_cast<V>(0x0000000100000000LL));
        add(static_cast<V>(0x0000000100000001LL));
        add(static_cast<V>(0x0000000000000001LL));
        add(static_cast<V>(0x7fffffff80000000LL));
    }
    return out;
}

template <typename W>
void wrapperLaws(Ctx& ctx)
{
    using V = typename W::ValueType;
    static const Items<W> items = [] {
        Items<W> out;
        if constexpr (std::is_same_v<V, bool>)
        {
            out.push_back({W(false), {0}});
            out.push_back({W(true), {1}});
        }
        else
        {
            const auto limits = [](auto min) { return static_cast<V>(min); };
            for (V v : integerAlphabet<V>(limits(NumericLimits<W>::min()), limits(NumericLimits<W>::max()), true))
            {
                out.push_back({W(v), {static_cast<long double>(v)}});
            }
        }
        return out;
    }();
    laws(ctx, items);
}

template <typename V>
void dynLaws(Ctx& ctx)
{
    using W = detail::DynIntWrapper<V>;
    static const Items<W> items = [] {
        Items<W> out;
        for (V v : integerAlphabet<V>(std::numeric_limits<V>::min(), std::numeric_limits<V>::max(), true))
        {
            out.push_back({W(v), {static_cast<long double>(v)}});
        }
        return out;
    }();
    laws(ctx, items);
}

template <typename V>
void dynViewLaws(Ctx& ctx)
{
    using W = View<detail::DynIntWrapper<V>>;
    static const Items<W> items = [] {
        Items<W> out;
        for (uint8_t bits : {1, 5, 7, 8})
        {
            for (V v : std::vector<V>{0, 1, 2, std::numeric_limits<V>::max(), std::numeric_limits<V>::min()})
            {
                out.push_back({W(detail::DynIntWrapper<V>(v), bits), {static_cast<long double>(bits), static_cast<long double>(v)}});
            }
        }
        return out;
    }();
    laws(ctx, items);
    // the hash of what the view refers to
    const auto& item = items[ctx.choose(static_cast<uint32_t>(items.size()))];
    MC_REQUIRE(ctx, std::hash<W>()(item.value) == std::hash<W>()(W(item.value.value(), item.value.numBits())), "std-hash", "hash of the view ", text(item.key));
}

template <typename V>
std::vector<V> floatAlphabet()
{
    using L = std::numeric_limits<V>;
    std::vector<V> out = {V(0), L::denorm_min(), L::min(), V(0.5), V(1), V(1) + L::epsilon(), V(2), V(3.25), V(65504), L::max(), L::infinity()};
    const size_t n = out.size();
    for (size_t i = 0; i < n; ++i)
    {
        out.push_back(-out[i]);
    }
    return out;
}

template <typename W>
void floatLaws(Ctx& ctx)
{
    using V = typename W::ValueType;
    static const Items<W> items = [] {
        Items<W> out;
        for (V v : floatAlphabet<V>())
        {
            out.push_back({W(v), {v == V(0) ? 0.0L : static_cast<long double>(v)}});
        }
        return out;
    }();
    laws(ctx, items);
}

template <typename V>
void plainLaws(Ctx& ctx)
{
    static const Items<V> items = [] {
        Items<V> out;
        if constexpr (std::is_floating_point_v<V>)
        {
            for (V v : floatAlphabet<V>())
            {
                out.push_back({v, {v == V(0) ? 0.0L : static_cast<long double>(v)}});
            }
        }
        else if constexpr (std::is_same_v<V, bool>)
        {
            out = {{false, {0}}, {true, {1}}};
        }
        else
        {
            for (V v : integerAlphabet<V>(std::numeric_limits<V>::min(), std::numeric_limits<V>::max(), true))
            {
                out.push_back({v, {static_cast<long double>(v)}});
            }
        }
        return out;
    }();
    laws(ctx, items);
}

// ---------------------------------------------------------------- texts and bytes

Key keyOf(const std::string& s)
{
    Key out;
    for (char c : s)
    {
        out.push_back(1 + static_cast<long double>(static_cast<unsigned char>(c)));
    }
    out.push_back(0);
    return out;
}

// every text over the characters up to the length
std::vector<std::string> texts(const std::string& alphabet, size_t length)
{
    std::vector<std::string> out = {""};
    size_t from = 0;
    for (size_t n = 1; n <= length; ++n)
    {
        const size_t to = out.size();
        for (size_t i = from; i < to; ++i)
        {
            for (char c : alphabet)
            {
                out.push_back(out[i] + c);
            }
        }
        from = to;
    }
    return out;
}

const std::vector<std::string>& allTexts()
{
    static const std::vector<std::string> out = [] {
        std::vector<std::string> t = texts(std::string("\0a\x7f\x80\xff", 5), 3);
        t.push_back(std::string(40, 'q'));
        t.push_back(std::string(40, 'q') + std::string(1, '\0'));
        t.push_back(std::string(40, 'q'));
        return t;
    }();
    return out;
}

template <typename T>
Items<T> textItems()
{
    Items<T> out;
    for (const std::string& s : allTexts())
    {
        if constexpr (std::is_same_v<T, BytesView>)
        {
            out.push_back({BytesView(reinterpret_cast<const uint8_t*>(s.data()), s.size()), keyOf(s)});
        }
        else
        {
            out.push_back({T(s.begin(), s.end()), keyOf(s)});
        }
    }
    return out;
}

void stringLaws(Ctx& ctx)
{
    static const Items<String> items = textItems<String>();
    laws(ctx, items);
    const auto& item = ctx.pick(items);
    MC_REQUIRE(ctx, calcHashCode(5U, item.value) == calcHashCode(5U, std::string_view(item.value)), "view-hash", "text ", text(item.key), " hashes differently from its view");
}

void stringViewLaws(Ctx& ctx)
{
    static const Items<std::string_view> items = [] {
        Items<std::string_view> out;
        for (const std::string& s : allTexts())
        {
            out.push_back({std::string_view(s), keyOf(s)});
        }
        return out;
    }();
    laws(ctx, items);
}

void bytesLaws(Ctx& ctx)
{
    static const Items<Bytes> items = textItems<Bytes>();
    laws(ctx, items);
    const auto& item = ctx.pick(items);
    MC_REQUIRE(ctx, calcHashCode(5U, item.value) == calcHashCode(5U, BytesView(item.value)), "view-hash", "bytes ", text(item.key), " hash differently from their view");
}

void bytesViewLaws(Ctx& ctx)
{
    static const Items<BytesView> items = textItems<BytesView>();
    laws(ctx, items);
}

Items<BitBuffer> bufferItems()
{
    Items<BitBuffer> out;
    for (size_t bits = 0; bits <= 9; ++bits)
    {
        for (uint32_t v : {0U, 1U, 0x1ffU, 0x100U, 0x80U})
        {
            for (uint8_t garbage : {0x00, 0xff})
            {
                std::vector<uint8_t> bytes((bits + 7) / 8, garbage);
                Key key = {static_cast<long double>(bits)};
                for (size_t i = 0; i < bits; ++i)
                {
                    const bool bit = v >> (bits - 1 - i) & 1;
                    const uint8_t mask = static_cast<uint8_t>(0x80U >> i % 8);
                    bytes[i / 8] = static_cast<uint8_t>(bit ? bytes[i / 8] | mask : bytes[i / 8] & ~mask);
                    key.push_back(bit);
                }
                out.push_back({BitBuffer(Span<const uint8_t>(bytes.data(), bytes.size()), bits), key});
            }
        }
    }
    return out;
}

void bufferLaws(Ctx& ctx)
{
    static const Items<BitBuffer> items = bufferItems();
    laws(ctx, items, false);
}

void bufferViewLaws(Ctx& ctx)
{
    static const Items<BitBuffer> buffers = bufferItems();
    static const Items<BitBufferView> items = [] {
        Items<BitBufferView> out;
        for (const auto& b : buffers)
        {
            out.push_back({BitBufferView(b.value), b.key});
        }
        return out;
    }();
    laws(ctx, items, false);
}

// ---------------------------------------------------------------- containers

template <typename T>
Items<T> scalars();

template <>
Items<UInt8> scalars()
{
    return {{UInt8(static_cast<uint8_t>(0)), {0}}, {UInt8(static_cast<uint8_t>(1)), {1}}, {UInt8(static_cast<uint8_t>(255)), {255}}};
}
template <>
Items<VarInt64> scalars()
{
    return {{VarInt64(int64_t{0}), {0}}, {VarInt64(int64_t{-1}), {-1}}, {VarInt64(int64_t{1} << 33), {static_cast<long double>(int64_t{1} << 33)}}};
}
template <>
Items<Float64> scalars()
{
    return {{Float64(0.0), {0}}, {Float64(-0.0), {0}}, {Float64(-1.5), {-1.5}}, {Float64(1e300), {1e300}}};
}
template <>
Items<Bool> scalars()
{
    return {{Bool(false), {0}}, {Bool(true), {1}}};
}
template <>
Items<String> scalars()
{
    return {{String(""), keyOf("")}, {String("a"), keyOf("a")}, {String(std::string("a\0", 2).c_str(), 2), keyOf(std::string("a\0", 2))}, {String("\xff"), keyOf("\xff")}};
}
template <>
Items<Bytes> scalars()
{
    return {{Bytes(), keyOf("")}, {Bytes{0}, keyOf(std::string(1, '\0'))}, {Bytes{0x80}, keyOf("\x80")}, {Bytes{1, 2}, keyOf("\x01\x02")}};
}
template <>
Items<to::CreatorEnum> scalars()
{
    return {{to::CreatorEnum::ONE, {0}}, {to::CreatorEnum::TWO, {1}}, {to::CreatorEnum::MinusOne, {-1}}};
}
template <>
Items<to::CreatorBitmask> scalars()
{
    return {{to::CreatorBitmask(), {0}}, {to::CreatorBitmask(UInt8(static_cast<uint8_t>(3))), {3}}, {to::CreatorBitmask(UInt8(static_cast<uint8_t>(255))), {255}}};
}
template <>
Items<BitBuffer> scalars()
{
    static const uint8_t a[] = {0x80};
    static const uint8_t b[] = {0xff};
    return {{BitBuffer(), {0}}, {BitBuffer(Span<const uint8_t>(a, 1), 1), {1, 1}}, {BitBuffer(Span<const uint8_t>(b, 1), 1), {1, 1}}, {BitBuffer(Span<const uint8_t>(b, 1), 8), {8, 1}}};
}
template <>
Items<to::CreatorNested> scalars()
{
    Items<to::CreatorNested> out;
    for (uint32_t v = 0; v < ob::creatorNestedVariants; ++v)
    {
        out.push_back({ob::creatorNested(v), {static_cast<long double>(v)}});
    }
    return out;
}
template <>
Items<to::WalkerUnion> scalars()
{
    Items<to::WalkerUnion> out;
    for (uint32_t v = 0; v < ob::walkerUnionVariants; ++v)
    {
        out.push_back({ob::walkerUnion(v), {static_cast<long double>(v)}});
    }
    return out;
}

template <typename T>
constexpr bool keyOrdered = !std::is_same_v<T, BitBuffer> && !std::is_same_v<T, to::CreatorNested> && !std::is_same_v<T, to::WalkerUnion>;

template <typename T>
constexpr size_t elementsLength()
{
    return keyOrdered<T> ? 3 : 2;
}

// every sequence of elements up to the length
template <typename T>
Items<Vector<T>> sequences(size_t length)
{
    const Items<T> elements = scalars<T>();
    Items<Vector<T>> all = {{Vector<T>(), {}}};
    size_t from = 0;
    for (size_t n = 1; n <= length; ++n)
    {
        const size_t to = all.size();
        for (size_t i = from; i < to; ++i)
        {
            for (const auto& e : elements)
            {
                Item<Vector<T>> next = all[i];
                next.value.push_back(e.value);
                next.key = next.key + Key{1} + e.key;
                all.push_back(next);
            }
        }
        from = to;
    }
    for (auto& item : all)
    {
        item.key.push_back(0);
    }
    return all;
}

template <typename T>
void vectorLaws(Ctx& ctx)
{
    static const Items<Vector<T>> items = sequences<T>(elementsLength<T>());
    laws(ctx, items, keyOrdered<T>);
}

template <typename T, typename TRAITS = ArrayTraits<T>>
void arrayViewLaws(Ctx& ctx)
{
    static const Items<Vector<T>> vectors = sequences<T>(elementsLength<T>());
    static const Items<ArrayView<const T, TRAITS>> items = [] {
        Items<ArrayView<const T, TRAITS>> out;
        for (const auto& v : vectors)
        {
            out.push_back({ArrayView<const T, TRAITS>(Span<const T>(v.value)), v.key});
        }
        return out;
    }();
    laws(ctx, items, keyOrdered<T>);
}

template <typename O, typename T, bool WITH_NULL>
void optionalLaws(Ctx& ctx)
{
    static const Items<T> values = scalars<T>();
    static const Items<O> items = [] {
        Items<O> out;
        out.push_back({O(), {0}});
        out.push_back({O(std::nullopt), {0}});
        for (const auto& v : values)
        {
            out.push_back({O(v.value), Key{1} + v.key});
        }
        return out;
    }();
    laws(ctx, items, keyOrdered<T>);
    // against an absent value and against plain values
    const auto& a = ctx.pick(items);
    const bool absent = a.key[0] == 0.0L;
    MC_REQUIRE(ctx, (a.value == std::nullopt) == absent && (std::nullopt == a.value) == absent && (a.value != std::nullopt) == !absent && (std::nullopt != a.value) == !absent, "absent-equal", text(a.key), " compared to std::nullopt");
    MC_REQUIRE(ctx, !(a.value < std::nullopt) && (std::nullopt < a.value) == !absent && (a.value > std::nullopt) == !absent && !(std::nullopt > a.value), "absent-less", text(a.key), " ordered with std::nullopt");
    MC_REQUIRE(ctx, (a.value <= std::nullopt) == absent && (std::nullopt <= a.value) && (a.value >= std::nullopt) && (std::nullopt >= a.value) == absent, "absent-less-equal", text(a.key), " ordered with std::nullopt");
    for (const auto& v : values)
    {
        const Key kv = Key{1} + v.key;
        const bool equal = a.key == kv;
        const O other(v.value);
        const bool less = a.value < other;
        const bool greater = a.value > other;
        MC_REQUIRE(ctx, (a.value == v.value) == equal && (v.value == a.value) == equal && (a.value != v.value) == !equal && (v.value != a.value) == !equal, "value-equal", text(a.key), " compared to the plain value ", text(v.key));
        MC_REQUIRE(ctx, (a.value < v.value) == less && (v.value > a.value) == less && (a.value >= v.value) == !less && (v.value <= a.value) == !less, "value-less", text(a.key), " ordered with the plain value ", text(v.key));
        MC_REQUIRE(ctx, (a.value > v.value) == greater && (v.value < a.value) == greater && (a.value <= v.value) == !greater && (v.value >= a.value) == !greater, "value-greater", text(a.key), " ordered with the plain value ", text(v.key));
    }
}

template <typename T>
void extendedLaws(Ctx& ctx)
{
    static const Items<Extended<T>> items = [] {
        Items<Extended<T>> out;
        for (const auto& v : scalars<T>())
        {
            Extended<T> present(v.value);
            Extended<T> absent(v.value);
            absent.setPresent(false); // what an absent field holds does not count
            out.push_back({present, Key{1} + v.key});
            out.push_back({absent, {0}});
        }
        return out;
    }();
    laws(ctx, items, keyOrdered<T>);
}

void extendedOptionalLaws(Ctx& ctx)
{
    using T = Optional<UInt8>;
    static const Items<Extended<T>> items = [] {
        Items<Extended<T>> out;
        for (int present = 0; present < 2; ++present)
        {
            for (int v = -1; v < 3; ++v)
            {
                Extended<T> e(v < 0 ? T() : T(UInt8(static_cast<uint8_t>(v))));
                e.setPresent(present != 0);
                out.push_back({e, present == 0 ? Key{0} : v < 0 ? Key{1, 0} : Key{1, 1, static_cast<long double>(v)}});
            }
        }
        return out;
    }();
    laws(ctx, items);
}

enum class Tag : uint32_t { NONE, SMALL, ALSO_SMALL, TEXT, LIST, NUMBER };
using SomeVariant = BasicVariant<std::allocator<uint8_t>, Tag, std::monostate, UInt8, UInt8, String, Vector<UInt8>, Float64>;

void variantLaws(Ctx& ctx)
{
    static const Items<SomeVariant> items = [] {
        Items<SomeVariant> out;
        out.push_back({SomeVariant(), {0}});
        for (const auto& v : scalars<UInt8>())
        {
            out.push_back({SomeVariant(in_place_index<Tag::SMALL>, v.value), Key{1} + v.key});
            out.push_back({SomeVariant(in_place_index<Tag::ALSO_SMALL>, v.value), Key{2} + v.key});
        }
        for (const auto& v : scalars<String>())
        {
            out.push_back({SomeVariant(in_place_index<Tag::TEXT>, v.value), Key{3} + v.key});
        }
        for (const auto& v : sequences<UInt8>(2))
        {
            out.push_back({SomeVariant(in_place_index<Tag::LIST>, v.value), Key{4} + v.key});
        }
        for (const auto& v : scalars<Float64>())
        {
            out.push_back({SomeVariant(in_place_index<Tag::NUMBER>, v.value), Key{5} + v.key});
        }
        return out;
    }();
    laws(ctx, items);
}

void monostateLaws(Ctx& ctx)
{
    static const Items<std::monostate> items = {{{}, {0}}, {{}, {0}}};
    laws(ctx, items);
}

template <typename T>
void scalarLaws(Ctx& ctx)
{
    static const Items<T> items = scalars<T>();
    laws(ctx, items, keyOrdered<T>);
}

void bitmaskLaws(Ctx& ctx)
{
    static const Items<to::CreatorBitmask> items = [] {
        Items<to::CreatorBitmask> out;
        for (int v = 0; v < 256; ++v)
        {
            out.push_back({to::CreatorBitmask(UInt8(static_cast<uint8_t>(v))), {static_cast<long double>(v)}});
        }
        return out;
    }();
    laws(ctx, items);
}

// ---------------------------------------------------------------- compound data and views

template <typename T>
Key encodingOf(const T& o)
{
    bm::Bits bits;
    ob::encode(bits, o);
    Key key;
    key.push_back(static_cast<long double>(bits.bits.size()));
    for (uint8_t byte : bits.bytes())
    {
        key.push_back(byte);
    }
    return key;
}

template <typename T, typename BUILD, typename... PARAMS>
void objectLaws(Ctx& ctx, const BUILD& build)
{
    const T a = build(ctx);
    const T b = build(ctx);
    const T c = a;
    const Key ka = encodingOf(a);
    const Key kb = encodingOf(b);
    ctx.step();
    pair(ctx, a, ka, b, kb, false);
    hashes(ctx, a, ka, b, kb);
    hashes(ctx, a, ka, c, ka);
    const View<T> va(a);
    const View<T> vb(b);
    const View<T> vc(c);
    pair(ctx, va, ka, vb, kb, false);
    hashes(ctx, va, ka, vb, kb);
    hashes(ctx, va, ka, vc, ka);
    pair(ctx, va, ka, vc, ka, false);
    MC_REQUIRE(ctx, (a < b) == (va < vb), "view-order", "objects and their views are ordered differently");
    ctx.state(text(ka));
}

template <typename T, typename BUILD>
void objectTriples(Ctx& ctx, const BUILD& build)
{
    const T a = build(ctx);
    const T b = build(ctx);
    const T c = build(ctx);
    ctx.step();
    MC_REQUIRE(ctx, !(a < b && b < c) || a < c, "transitive", "a < b < c but not a < c");
    MC_REQUIRE(ctx, !(View<T>(a) < View<T>(b) && View<T>(b) < View<T>(c)) || View<T>(a) < View<T>(c), "view-transitive", "views: a < b < c but not a < c");
}

// an object in which few fields vary at a time
to::CreatorObject creatorFew(Ctx& ctx)
{
    to::CreatorObject o{to::CreatorObject::allocator_type()};
    switch (ctx.choose(9))
    {
    case 0:
        o.value = ctx.choose(2);
        break;
    case 1:
        o.nested = ob::creatorNested(ctx.choose(3));
        break;
    case 2:
        o.text = ob::text(ctx.pick(std::vector<std::string>{"a", std::string("a\0", 2)}), {});
        break;
    case 3:
        o.nestedArray.resize(ctx.choose(2), ob::creatorNested(1));
        o.nestedArray.push_back(ob::creatorNested(ctx.choose(2)));
        break;
    case 4:
        o.textArray.resize(ctx.choose(3));
        break;
    case 5:
        o.externArray.emplace();
        o.externArray->resize(ctx.choose(3));
        break;
    case 6:
        o.bytesArray.emplace();
        o.bytesArray->resize(ctx.choose(3));
        break;
    case 7:
        o.optionalBool.emplace(ctx.flip());
        break;
    default:
        o.optionalNested.emplace(ob::creatorNested(ctx.choose(2)));
        break;
    }
    return o;
}

to::WalkerObject walkerSmall(Ctx& ctx)
{
    return ob::walkerObject(ctx, 0);
}
to::ReflectableObject reflectableAny(Ctx& ctx)
{
    return ob::reflectableObject(ctx, 0);
}
to::ReflectableUtilUnion utilAny(Ctx& ctx)
{
    return ob::reflectableUtilUnion(ctx, 1);
}

void nestedViews(Ctx& ctx)
{
    using V = View<to::CreatorNested>;
    struct Holder
    {
        to::CreatorNested data;
        uint32_t param;
    };
    const auto make = [&](uint32_t i) { return Holder{ob::creatorNested(i / 3), i % 3 == 2 ? 0xffffffffU : i % 3}; };
    const uint32_t n = ob::creatorNestedVariants * 3;
    const uint32_t i = ctx.choose(n);
    const uint32_t j = ctx.choose(n);
    const Holder a = make(i);
    const Holder b = make(j);
    ctx.step();
    pair(ctx, V(a.data, UInt32(a.param)), {static_cast<long double>(i)}, V(b.data, UInt32(b.param)), {static_cast<long double>(j)}, false);
    hashes(ctx, V(a.data, UInt32(a.param)), {static_cast<long double>(i)}, V(b.data, UInt32(b.param)), {static_cast<long double>(j)});
}

// ---------------------------------------------------------------- long values

// values of many elements that differ in one of them, or in their length, against each other
template <typename MAKE>
void longPairs(Ctx& ctx, bool ordered, const MAKE& make)
{
    const uint32_t n = ctx.pick(ob::largeSizes(ctx.thorough()));
    const uint32_t at = ctx.pick(std::vector<uint32_t>{0, 14, 16, 32, 62, 64, 100, 128, 255, 256, n - 1});
    if (at >= n)
    {
        ctx.skip();
    }
    std::vector<uint8_t> base(n, 0);
    for (uint32_t i = 0; i < n; ++i)
    {
        base[i] = static_cast<uint8_t>(1 + (i * 29 + i / 256) % 100);
    }
    std::vector<std::vector<uint8_t>> contents = {base, base, base, base, base};
    contents[1][at] = static_cast<uint8_t>(contents[1][at] + 1);
    contents[2][at] = static_cast<uint8_t>(contents[2][at] - 1);
    contents[3].pop_back();
    contents[4].push_back(0);
    for (const auto& left : contents)
    {
        for (const auto& right : contents)
        {
            const Key kl(left.begin(), left.end());
            const Key kr(right.begin(), right.end());
            const auto a = make(left);
            const auto b = make(right);
            pair(ctx, a, kl, b, kr, ordered);
            hashes(ctx, a, kl, b, kr);
            ctx.cases();
        }
    }
    ctx.step();
    ctx.state(str(n, ",", at));
}
void longValues(Ctx& ctx)
{
    using Raw = std::vector<uint8_t>;
    switch (ctx.choose(9))
    {
    case 0:
        return longPairs(ctx, true, [](const Raw& r) { return String(r.begin(), r.end()); });
    case 1:
        return longPairs(ctx, true, [](const Raw& r) { return std::string_view(reinterpret_cast<const char*>(r.data()), r.size()); });
    case 2:
        return longPairs(ctx, true, [](const Raw& r) { return Bytes(r.begin(), r.end()); });
    case 3:
        return longPairs(ctx, true, [](const Raw& r) { return BytesView(r.data(), r.size()); });
    case 4:
        return longPairs(ctx, false, [](const Raw& r) { return BitBuffer(Span<const uint8_t>(r.data(), r.size()), r.size() * 8); });
    case 5:
        return longPairs(ctx, true, [](const Raw& r) { return Vector<UInt32>(r.begin(), r.end()); });
    case 6: {
        return longPairs(ctx, true, [](const Raw& r) {
            static std::map<Raw, Vector<UInt32>> kept;
            auto& v = kept[r];
            v.assign(r.begin(), r.end());
            return ArrayView<const UInt32>(Span<const UInt32>(v));
        });
    }
    case 7:
        return longPairs(ctx, false, [](const Raw& r) {
            to::CreatorObject o{to::CreatorObject::allocator_type()};
            for (const uint8_t byte : r)
            {
                o.textArray.push_back(String(1, static_cast<char>(byte)));
            }
            return o;
        });
    default:
        return longPairs(ctx, false, [](const Raw& r) {
            to::WalkerObject o{to::WalkerObject::allocator_type()};
            for (const uint8_t byte : r)
            {
                o.unionArray.push_back(ob::numberedUnion(byte, 1, {}));
            }
            return o;
        });
    }
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {
                    {"bool", wrapperLaws<Bool>, 1},
                    {"int1", wrapperLaws<Int1>, 1},
                    {"int8", wrapperLaws<Int8>, 1},
                    {"uint3", wrapperLaws<UInt3>, 1},
                    {"uint8", wrapperLaws<UInt8>, 1},
                    {"int13", wrapperLaws<Int13>, 1},
                    {"uint16", wrapperLaws<UInt16>, 1},
                    {"int32", wrapperLaws<Int32>, 1},
                    {"uint32", wrapperLaws<UInt32>, 1},
                    {"int64", wrapperLaws<Int64>, 1},
                    {"uint64", wrapperLaws<UInt64>, 1},
                    {"varint16", wrapperLaws<VarInt16>, 1},
                    {"varint32", wrapperLaws<VarInt32>, 1},
                    {"varint64", wrapperLaws<VarInt64>, 1},
                    {"varint", wrapperLaws<VarInt>, 1},
                    {"varuint16", wrapperLaws<VarUInt16>, 1},
                    {"varuint32", wrapperLaws<VarUInt32>, 1},
                    {"varuint64", wrapperLaws<VarUInt64>, 1},
                    {"varuint", wrapperLaws<VarUInt>, 1},
                    {"varsize", wrapperLaws<VarSize>, 1},
                    {"dynint8", dynLaws<int8_t>, 1},
                    {"dynuint16", dynLaws<uint16_t>, 1},
                    {"dynint64", dynLaws<int64_t>, 1},
                    {"dynuint64", dynLaws<uint64_t>, 1},
                    {"dynint-view", dynViewLaws<int8_t>, 1},
                    {"dynuint-view", dynViewLaws<uint64_t>, 1},
                    {"float16", floatLaws<Float16>, 1},
                    {"float32", floatLaws<Float32>, 1},
                    {"float64", floatLaws<Float64>, 1},
                    {"plain-bool", plainLaws<bool>, 1},
                    {"plain-char", plainLaws<char>, 1},
                    {"plain-int8", plainLaws<int8_t>, 1},
                    {"plain-uint16", plainLaws<uint16_t>, 1},
                    {"plain-int32", plainLaws<int32_t>, 1},
                    {"plain-int64", plainLaws<int64_t>, 1},
                    {"plain-uint64", plainLaws<uint64_t>, 1},
                    {"plain-float", plainLaws<float>, 1},
                    {"plain-double", plainLaws<double>, 1},
                    {"string", stringLaws, 1},
                    {"string-view", stringViewLaws, 1},
                    {"bytes", bytesLaws, 1},
                    {"bytes-view", bytesViewLaws, 1},
                    {"bit-buffer", bufferLaws, 1},
                    {"bit-buffer-view", bufferViewLaws, 1},
                    {"enum", scalarLaws<to::CreatorEnum>, 1},
                    {"bitmask", bitmaskLaws, 1},
                    {"monostate", monostateLaws, 1},
                    {"vector-uint8", vectorLaws<UInt8>, 1},
                    {"vector-varint64", vectorLaws<VarInt64>, 1},
                    {"vector-float64", vectorLaws<Float64>, 1},
                    {"vector-string", vectorLaws<String>, 1},
                    {"vector-bytes", vectorLaws<Bytes>, 1},
                    {"vector-bits", vectorLaws<BitBuffer>, 1},
                    {"vector-enum", vectorLaws<to::CreatorEnum>, 1},
                    {"vector-union", vectorLaws<to::WalkerUnion>, 1},
                    {"array-bool", arrayViewLaws<Bool>, 1},
                    {"array-uint8", arrayViewLaws<UInt8>, 1},
                    {"array-varint64", arrayViewLaws<VarInt64>, 1},
                    {"array-float64", arrayViewLaws<Float64>, 1},
                    {"array-string", arrayViewLaws<String>, 1},
                    {"array-bytes", arrayViewLaws<Bytes>, 1},
                    {"array-bits", arrayViewLaws<BitBuffer>, 1},
                    {"array-enum", arrayViewLaws<to::CreatorEnum>, 1},
                    {"array-bitmask", arrayViewLaws<to::CreatorBitmask>, 1},
                    {"array-union", arrayViewLaws<to::WalkerUnion>, 1},
                    {"optional-uint8", optionalLaws<Optional<UInt8>, UInt8, true>, 1},
                    {"optional-float64", optionalLaws<Optional<Float64>, Float64, true>, 1},
                    {"optional-string", optionalLaws<Optional<String>, String, true>, 1},
                    {"optional-nested", optionalLaws<Optional<to::CreatorNested>, to::CreatorNested, true>, 1},
                    {"optional-enum", optionalLaws<Optional<to::CreatorEnum>, to::CreatorEnum, true>, 1},
                    {"optional-bits", optionalLaws<Optional<BitBuffer>, BitBuffer, true>, 1},
                    {"extended-uint8", extendedLaws<UInt8>, 1},
                    {"extended-string", extendedLaws<String>, 1},
                    {"extended-float64", extendedLaws<Float64>, 1},
                    {"extended-nested", extendedLaws<to::CreatorNested>, 1},
                    {"extended-optional", extendedOptionalLaws, 1},
                    {"variant", variantLaws, 1},
                    {"nested-views", nestedViews},
                    {"long-values", longValues, 2},
                    {"creator-objects", [](Ctx& ctx) { objectLaws<to::CreatorObject>(ctx, creatorFew); }},
                    {"creator-triples", [](Ctx& ctx) { objectTriples<to::CreatorObject>(ctx, creatorFew); }},
                    {"walker-objects", [](Ctx& ctx) { objectLaws<to::WalkerObject>(ctx, walkerSmall); }, 4},
                    {"reflectable-objects", [](Ctx& ctx) { objectLaws<to::ReflectableObject>(ctx, reflectableAny); }, 4},
                    {"util-unions", [](Ctx& ctx) { objectLaws<to::ReflectableUtilUnion>(ctx, utilAny); }},
                    {"util-triples", [](Ctx& ctx) { objectTriples<to::ReflectableUtilUnion>(ctx, utilAny); }, 3},
            });
}
