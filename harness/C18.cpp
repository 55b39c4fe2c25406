// C18: reflection shows and changes exactly the part of the object it stands for.
// mc: level=model_checking opt=0 sources=std_test_object
#include <limits>
#include <memory>
#include <tuple>

#include "access.h"
#include "mc.h"
#include "objects.h"
#include "treecmp.h"
#include "zserio/BitBuffer.h"
#include "zserio/ReflectableData.h"
#include "zserio/ReflectableUtil.h"
#include "zserio/TypeInfo.h"

using mc::Ctx;
using mc::str;
using namespace zserio;
using obj::Node;
namespace to = ::test_object::std_allocator;
namespace ob = ::obj::std_allocator;

namespace
{

// "done", "refused" for the library's exception, otherwise what went wrong
__attribute__((noinline)) std::string attempt(const std::function<void()>& operation)
{
    return acc::outcome([&] {
        operation();
        return std::string("done");
    });
}
const char* expected(bool good)
{
    return good ? "done" : "refused";
}

// ---------------------------------------------------------------- values

// a value that is not a compound has no fields, elements or choice
void checkPlain(Ctx& ctx, const IReflectableDataPtr& data, const std::string& what)
{
    const IReflectableDataConstPtr constant = data;
    const std::vector<std::pair<const char*, std::function<void()>>> operations = {
            {"getField", [&] { data->getField("value"); }},
            {"getField const", [&] { constant->getField("value"); }},
            {"createField", [&] { data->createField("value"); }},
            {"setField", [&] { data->setField("value", Any(UInt32(1))); }},
            {"getChoice", [&] { constant->getChoice(); }},
            {"size", [&] { constant->size(); }},
            {"resize", [&] { data->resize(0); }},
            {"at", [&] { data->at(0); }},
            {"at const", [&] { constant->at(0); }},
            {"[]", [&] { (*data)[0]; }},
            {"[] const", [&] { (*constant)[0]; }},
            {"setAt", [&] { data->setAt(Any(UInt32(1)), 0); }},
            {"append", [&] { data->append(Any(UInt32(1))); }},
    };
    for (const auto& operation : operations)
    {
        const std::string result = attempt(operation.second);
        MC_REQUIRE(ctx, result == "refused", "plain-operation", operation.first, " on ", what, ": ", result);
        ctx.cases();
    }
    MC_REQUIRE(ctx, !data->isArray(), "plain-array", what, " is an array");
    for (const char* path : {"", "value", "value.value", ".", "a."})
    {
        std::string result = attempt([&] {
            if (data->find(path) != nullptr || constant->find(path) != nullptr || (*data)[path] != nullptr ||
                    (*constant)[path] != nullptr)
            {
                throw std::runtime_error("found");
            }
        });
        MC_REQUIRE(ctx, result == "done", "plain-find", "find '", path, "' in ", what, ": ", result);
    }
}

template <typename HELD, typename EQUAL>
void checkAny(Ctx& ctx, const IReflectableDataPtr& data, EQUAL&& equal, const std::string& what)
{
    const IReflectableDataConstPtr constant = data;
    const std::string result = attempt([&] {
        if (!equal(data->getAnyValue().template get<HELD>()) ||
                !equal(data->getAnyValue(std::allocator<uint8_t>()).template get<HELD>()) ||
                !equal(constant->getAnyValue().template get<HELD>()) ||
                !equal(constant->getAnyValue(std::allocator<uint8_t>()).template get<HELD>()))
        {
            throw std::runtime_error("differs");
        }
    });
    MC_REQUIRE(ctx, result == "done", "any-value", "the any value of ", what, ": ", result);
}

void checkTable(Ctx& ctx, const IReflectableDataConstPtr& data, const acc::Table& table, const std::string& what)
{
    const std::string difference = acc::difference(acc::read(data), table);
    MC_REQUIRE(ctx, difference.empty(), "getter", what, ": ", difference);
    ctx.cases(acc::CELLS);
}

template <typename T>
std::vector<typename T::ValueType> valuesOf()
{
    using V = typename T::ValueType;
    if constexpr (std::is_same_v<V, bool>)
    {
        return {false, true};
    }
    else if constexpr (std::is_floating_point_v<V>)
    {
        using L = std::numeric_limits<V>;
        return {V(0), -V(0), V(1), V(-1.5), L::max(), L::lowest(), L::min(), L::denorm_min(), L::infinity(),
                -L::infinity(), L::quiet_NaN(), V(0.1)};
    }
    else
    {
        const V low = std::numeric_limits<V>::lowest();
        const V high = std::numeric_limits<V>::max();
        return {low, static_cast<V>(low + 1), static_cast<V>(-1), V(0), V(1), V(13), static_cast<V>(high - 1), high,
                static_cast<V>(high / 2), static_cast<V>(high / 2 + 1)};
    }
}

template <typename T>
void scalar(Ctx& ctx)
{
    static const auto values = valuesOf<T>();
    const typename T::ValueType value = values[ctx.choose(static_cast<uint32_t>(values.size()))];
    using V = typename T::ValueType;
    const T wrapped(value);
    const auto data = reflectable(wrapped);
    ctx.step();
    const std::string what = str(typeInfo<T>().getSchemaName(), " ", +value);
    acc::Table table;
    if constexpr (std::is_floating_point_v<V>)
    {
        table = acc::expectReal(value);
    }
    else
    {
        table = acc::expectIntegral(value);
    }
    checkTable(ctx, data, table, what);
    MC_REQUIRE(ctx, &data->getTypeInfo() == &typeInfo<T>(), "type-info", "type information of ", what);
    auto same = [&](T shown) {
        const V v = shown;
        return v == value || (v != v && value != value);
    };
    checkAny<T>(ctx, data, same, what);
    checkPlain(ctx, data, what);
    MC_REQUIRE(ctx, same(ReflectableUtil::getValue<T>(data)), "get-value", "getValue of ", what);
}

using ScalarBody = void (*)(Ctx&);
template <size_t... I>
std::vector<ScalarBody> fixedBodies(std::index_sequence<I...>)
{
    return {scalar<detail::FixedIntWrapper<static_cast<BitSize>(I + 1), true>>...,
            scalar<detail::FixedIntWrapper<static_cast<BitSize>(I + 1), false>>...};
}
void fixedIntegers(Ctx& ctx)
{
    static const auto bodies = fixedBodies(std::make_index_sequence<64>());
    ctx.pick(bodies)(ctx);
}
void otherScalars(Ctx& ctx)
{
    static const std::vector<ScalarBody> bodies = {scalar<Bool>, scalar<DynInt8>, scalar<DynInt16>, scalar<DynInt32>,
            scalar<DynInt64>, scalar<DynUInt8>, scalar<DynUInt16>, scalar<DynUInt32>, scalar<DynUInt64>,
            scalar<VarInt16>, scalar<VarInt32>, scalar<VarInt64>, scalar<VarInt>, scalar<VarUInt16>,
            scalar<VarUInt32>, scalar<VarUInt64>, scalar<VarUInt>, scalar<VarSize>, scalar<Float16>, scalar<Float32>,
            scalar<Float64>};
    ctx.pick(bodies)(ctx);
}

void items(Ctx& ctx)
{
    acc::Table table;
    IReflectableDataPtr data;
    switch (ctx.choose(4))
    {
    case 0: {
        const auto value = ctx.pick(std::vector<int>{-1, 0, 1});
        const auto item = static_cast<to::CreatorEnum>(value);
        data = reflectable(item);
        table = acc::expectItem(static_cast<int8_t>(value), value == 0 ? "ONE" : value == 1 ? "TWO" : "MinusOne");
        checkAny<to::CreatorEnum>(ctx, data, [&](to::CreatorEnum v) { return v == item; }, "enum");
        MC_REQUIRE(ctx, ReflectableUtil::getValue<to::CreatorEnum>(data) == item, "get-value", "getValue of an enum");
        break;
    }
    case 1: {
        const uint32_t value = ctx.choose(2);
        const auto item = static_cast<to::CreatorUnsignedEnum>(value);
        data = reflectable(item);
        table = acc::expectItem(static_cast<uint8_t>(value), value == 0 ? "ONE" : "TWO");
        checkAny<to::CreatorUnsignedEnum>(ctx, data, [&](to::CreatorUnsignedEnum v) { return v == item; }, "enum");
        break;
    }
    case 2: {
        const uint32_t value = ctx.choose(256);
        const to::CreatorBitmask mask{UInt8(static_cast<uint8_t>(value))};
        data = reflectable(mask);
        table = acc::expectItem(static_cast<uint8_t>(value),
                obj::nodeMask(value, "CreatorBitmask", {{1, "READ"}, {2, "WRITE"}}).text);
        checkAny<to::CreatorBitmask>(ctx, data, [&](to::CreatorBitmask v) { return v == mask; }, "bitmask");
        MC_REQUIRE(ctx, ReflectableUtil::getValue<to::CreatorBitmask>(data) == mask, "get-value", "getValue of a bitmask");
        break;
    }
    default: {
        const auto value = ctx.pick(std::vector<uint32_t>{0, 1, 2, 3, 0x7fffffff, 0x80000000, 0xffffffff});
        const to::WalkerBitmask mask{UInt32(value)};
        data = reflectable(mask);
        table = acc::expectItem(value, obj::nodeMask(value, "WalkerBitmask", {{1, "ZERO"}}).text);
        checkAny<to::WalkerBitmask>(ctx, data, [&](to::WalkerBitmask v) { return v == mask; }, "bitmask");
        break;
    }
    }
    ctx.step();
    checkTable(ctx, data, table, std::string(data->getTypeInfo().getSchemaName()));
    checkPlain(ctx, data, std::string(data->getTypeInfo().getSchemaName()));
}

void sequences(Ctx& ctx)
{
    static const std::vector<std::string> texts = {"", "t", std::string("a\0b", 3), obj::longText(),
            std::string("\xff\x00\x80", 3)};
    const std::string text = ctx.pick(texts);
    IReflectableDataPtr data;
    acc::Table table;
    const String string(text);
    const Bytes bytes(text.begin(), text.end());
    const uint32_t what = ctx.choose(6);
    ctx.step();
    BitBuffer buffer;
    auto viewOk = [&](std::string_view v) { return v == text; };
    auto bytesOk = [&](BytesView v) { return v.size() == text.size() && std::equal(v.begin(), v.end(), bytes.begin()); };
    switch (what)
    {
    case 0:
        data = reflectable(string);
        table = acc::expectString(text);
        checkAny<std::string_view>(ctx, data, viewOk, "string");
        break;
    case 1:
        data = reflectable(std::string_view(text));
        table = acc::expectString(text);
        checkAny<std::string_view>(ctx, data, viewOk, "string view");
        MC_REQUIRE(ctx, ReflectableUtil::getValue<std::string_view>(data) == text, "get-value", "getValue of a string");
        break;
    case 2:
        data = reflectable(bytes);
        table = acc::expectBytes(text);
        checkAny<BytesView>(ctx, data, bytesOk, "bytes");
        break;
    case 3:
        data = reflectable(BytesView(bytes.data(), bytes.size()));
        table = acc::expectBytes(text);
        checkAny<BytesView>(ctx, data, bytesOk, "bytes view");
        break;
    default: {
        const size_t unused = text.empty() ? 0 : ctx.choose(8);
        std::string raw = text;
        if (unused > 0)
        {
            raw.back() = static_cast<char>(static_cast<uint8_t>(raw.back()) & (0xff << unused));
        }
        buffer = BitBuffer(std::vector<uint8_t>(raw.begin(), raw.end()), text.size() * 8 - unused);
        table = acc::expectBits(raw, text.size() * 8 - unused);
        if (what == 4)
        {
            data = reflectable(buffer);
            checkAny<std::reference_wrapper<const BitBuffer>>(
                    ctx, data, [&](std::reference_wrapper<const BitBuffer> v) { return &v.get() == &buffer; }, "bits");
            MC_REQUIRE(ctx, &ReflectableUtil::getValue<BitBuffer>(data) == &buffer, "get-value", "getValue of bits");
        }
        else
        {
            const BitBuffer& constant = buffer;
            const IReflectableDataConstPtr constData = reflectable(constant);
            checkTable(ctx, constData, table, "constant bits");
            MC_REQUIRE(ctx, &ReflectableUtil::getValue<BitBuffer>(constData) == &buffer, "get-value", "getValue of bits");
            return;
        }
        break;
    }
    }
    checkTable(ctx, data, table, std::string(data->getTypeInfo().getSchemaName()));
    checkPlain(ctx, data, std::string(data->getTypeInfo().getSchemaName()));
}

// ---------------------------------------------------------------- arrays

template <typename T>
struct Kind;

// for elements with two distinguishable values: what a value for a set may be held as, and what it may not
template <typename T, bool COMPOUND = false>
struct NumericKind
{
    static T value(size_t which) { return T(static_cast<typename T::ValueType>(which == 0 ? 1 : 0)); }
    static std::vector<std::pair<Any, bool>> anys(size_t which)
    {
        const T v = value(which);
        return {{Any(v), true}, {Any(static_cast<typename T::ValueType>(v)), true}, {Any(String("x")), false},
                {Any(nullptr), false}, {Any(), false}, {Any(std::is_same_v<T, Int7>), std::is_same_v<T, Bool>}};
    }
    static acc::Table table(const T& v)
    {
        if constexpr (std::is_floating_point_v<typename T::ValueType>)
        {
            return acc::expectReal(static_cast<typename T::ValueType>(v));
        }
        else
        {
            return acc::expectIntegral(static_cast<typename T::ValueType>(v));
        }
    }
};
template <>
struct Kind<Bool>
{
    static Bool value(size_t which) { return which == 0; }
    static std::vector<std::pair<Any, bool>> anys(size_t which)
    {
        return {{Any(value(which)), true}, {Any(which == 0), true}, {Any(UInt8(1)), false}, {Any(1), false},
                {Any(nullptr), false}, {Any(), false}};
    }
    static acc::Table table(Bool v) { return acc::expectIntegral(static_cast<bool>(v)); }
};
template <>
struct Kind<Int7> : NumericKind<Int7>
{};
template <>
struct Kind<UInt33> : NumericKind<UInt33>
{};
template <>
struct Kind<VarSize> : NumericKind<VarSize>
{};
template <>
struct Kind<DynUInt16> : NumericKind<DynUInt16>
{};
template <>
struct Kind<Float16> : NumericKind<Float16>
{};
template <>
struct Kind<Float64> : NumericKind<Float64>
{};
template <>
struct Kind<String>
{
    static String value(size_t which) { return which == 0 ? obj::longText() : ""; }
    static std::vector<std::pair<Any, bool>> anys(size_t which)
    {
        return {{Any(value(which)), true}, {Any(std::string_view("x")), false}, {Any(UInt8(1)), false},
                {Any(nullptr), false}, {Any(), false}};
    }
    static acc::Table table(const String& v) { return acc::expectString(v); }
};
template <>
struct Kind<Bytes>
{
    static Bytes value(size_t which) { return which == 0 ? Bytes{{0, 255, 3}} : Bytes(); }
    static std::vector<std::pair<Any, bool>> anys(size_t which)
    {
        return {{Any(value(which)), true}, {Any(String("x")), false}, {Any(UInt8(1)), false}, {Any(nullptr), false},
                {Any(), false}};
    }
    static acc::Table table(const Bytes& v) { return acc::expectBytes(std::string(v.begin(), v.end())); }
};
template <>
struct Kind<BitBuffer>
{
    static BitBuffer value(size_t which)
    {
        return which == 0 ? BitBuffer(std::vector<uint8_t>{0xab, 0xc0}, 11) : BitBuffer();
    }
    static std::vector<std::pair<Any, bool>> anys(size_t which)
    {
        return {{Any(value(which)), true}, {Any(Bytes()), false}, {Any(nullptr), false}, {Any(), false}};
    }
    static acc::Table table(const BitBuffer& v)
    {
        const auto data = v.getData();
        return acc::expectBits(std::string(data.begin(), data.end()), v.getBitSize());
    }
};
template <>
struct Kind<to::CreatorEnum>
{
    static to::CreatorEnum value(size_t which) { return which == 0 ? to::CreatorEnum::MinusOne : to::CreatorEnum::TWO; }
    static std::vector<std::pair<Any, bool>> anys(size_t which)
    {
        const int8_t raw = static_cast<int8_t>(value(which));
        return {{Any(value(which)), true}, {Any(Int8(raw)), true}, {Any(raw), true}, {Any(int8_t(2)), false},
                {Any(Int8(-2)), false}, {Any(int(raw)), false}, {Any(to::ReflectableEnum::VALUE1), false},
                {Any(String("TWO")), false}, {Any(nullptr), false}, {Any(), false}};
    }
    static acc::Table table(to::CreatorEnum v)
    {
        return acc::expectItem(static_cast<int8_t>(v),
                v == to::CreatorEnum::ONE       ? "ONE"
                        : v == to::CreatorEnum::TWO ? "TWO"
                                                    : "MinusOne");
    }
};
template <>
struct Kind<to::CreatorBitmask>
{
    static to::CreatorBitmask value(size_t which) { return to::CreatorBitmask(UInt8(which == 0 ? 3 : 255)); }
    static std::vector<std::pair<Any, bool>> anys(size_t which)
    {
        const uint8_t raw = value(which).getValue();
        return {{Any(value(which)), true}, {Any(UInt8(raw)), true}, {Any(raw), true}, {Any(uint32_t(raw)), false},
                {Any(to::CreatorBitmask::Values::READ), false}, {Any(to::ReflectableBitmask()), false},
                {Any(String("READ")), false}, {Any(nullptr), false}, {Any(), false}};
    }
    static acc::Table table(to::CreatorBitmask v)
    {
        return acc::expectItem(static_cast<uint8_t>(v.getValue()),
                obj::nodeMask(v.getValue(), "", {{1, "READ"}, {2, "WRITE"}}).text);
    }
};
template <>
struct Kind<to::CreatorNested>
{
    static to::CreatorNested value(size_t which) { return ob::creatorNested(static_cast<uint32_t>(which + 1)); }
    static std::vector<std::pair<Any, bool>> anys(size_t which)
    {
        return {{Any(value(which)), true}, {Any(to::CreatorObject()), false}, {Any(UInt32(1)), false},
                {Any(nullptr), false}, {Any(), false}};
    }
    static acc::Table table(const to::CreatorNested&) { return acc::refused(); }
};

template <typename T>
void array(Ctx& ctx)
{
    using K = Kind<T>;
    Vector<T> real(ctx.choose(3));
    Vector<T> model = real;
    const auto data = reflectableArray(real);
    const Vector<T>& constReal = real;
    const IReflectableDataConstPtr constData = reflectableArray(constReal);
    // only through the constant object, so that it refuses changes
    const auto constAsPtr = std::const_pointer_cast<IReflectableData>(constData);
    auto check = [&](bool all) {
        MC_REQUIRE(ctx, real == model, "array-content", "the array differs");
        if (!all)
        {
            return;
        }
        for (const IReflectableDataConstPtr& shown : {IReflectableDataConstPtr(data), constData})
        {
            MC_REQUIRE(ctx, shown->isArray() && shown->size() == model.size(), "array-size", "size ", shown->size(),
                    " instead of ", model.size());
            MC_REQUIRE(ctx, &shown->getTypeInfo() == &typeInfo<T>(), "type-info", "type information of an array");
            MC_REQUIRE(ctx,
                    &shown->getAnyValue().template get<std::reference_wrapper<const Vector<T>>>().get() == &real,
                    "any-value", "the any value of an array");
            for (size_t i = 0; i < model.size(); ++i)
            {
                checkTable(ctx, i % 2 == 0 ? shown->at(i) : (*shown)[i], K::table(model[i]), str("element ", i));
            }
            for (const size_t bad : {model.size(), model.size() + 1, SIZE_MAX})
            {
                MC_REQUIRE(ctx, attempt([&] { shown->at(bad); }) == "refused", "array-index", "index ", bad);
                MC_REQUIRE(ctx, attempt([&] { (*shown)[bad]; }) == "refused", "array-index", "index ", bad);
            }
            checkTable(ctx, shown, acc::refused(), "array");
            MC_REQUIRE(ctx, shown->find("value") == nullptr, "array-find", "a field of an array is found");
            MC_REQUIRE(ctx, attempt([&] { shown->getField("value"); }) == "refused", "array-field", "a field of an array");
            MC_REQUIRE(ctx, attempt([&] { shown->getChoice(); }) == "refused", "array-choice", "a choice of an array");
        }
        for (size_t i = 0; i < model.size(); ++i)
        {
            checkTable(ctx, i % 2 != 0 ? data->at(i) : (*data)[i], K::table(model[i]), str("element ", i));
        }
        MC_REQUIRE(ctx, &ReflectableUtil::getValue<Vector<T>>(data) == &real, "get-value", "getValue of an array");
        MC_REQUIRE(ctx, &ReflectableUtil::getValue<Vector<T>>(constData) == &real, "get-value", "getValue of an array");
        ctx.state(str(typeid(T).name(), model.size(), mc::Ctx::hashOf(str(model.empty() ? 0 : K::table(model.back())[acc::TO_STRING].size()))));
    };
    const uint32_t depth = ctx.thorough() ? 3 : 2;
    for (uint32_t step = 0; step < depth; ++step)
    {
        std::string result;
        bool good = true;
        std::string what;
        switch (ctx.choose(8))
        {
        case 0: {
            const uint32_t size = ctx.choose(4);
            what = str("resize ", size);
            result = attempt([&] { data->resize(size); });
            model.resize(size);
            break;
        }
        case 1: {
            const auto anys = K::anys(0);
            const uint32_t which = ctx.choose(static_cast<uint32_t>(anys.size()));
            what = str("append ", which);
            good = anys[which].second;
            result = attempt([&] { data->append(anys[which].first); });
            if (good)
            {
                model.push_back(K::value(0));
            }
            break;
        }
        case 2: {
            const auto anys = K::anys(1);
            const uint32_t which = ctx.choose(static_cast<uint32_t>(anys.size()));
            const size_t index = ctx.pick(std::vector<size_t>{0, 1, model.size(), SIZE_MAX});
            what = str("setAt ", which, " index ", index);
            good = anys[which].second && index < model.size();
            result = attempt([&] { data->setAt(anys[which].first, index); });
            if (good)
            {
                model[index] = K::value(1);
            }
            break;
        }
        case 3: {
            what = "set through the any value";
            auto& reached = data->getAnyValue().template get<std::reference_wrapper<Vector<T>>>().get();
            result = "done";
            reached.push_back(K::value(1));
            model.push_back(K::value(1));
            break;
        }
        case 4:
            good = false;
            what = "change a constant array";
            switch (ctx.choose(5))
            {
            case 0:
                result = attempt([&] { constAsPtr->resize(1); });
                break;
            case 1:
                result = attempt([&] { constAsPtr->append(Any(K::value(0))); });
                break;
            case 2:
                result = attempt([&] { constAsPtr->setAt(Any(K::value(0)), 0); });
                break;
            case 3:
                result = attempt([&] { constAsPtr->at(0); });
                break;
            default:
                result = attempt([&] { constAsPtr->getAnyValue(); });
                break;
            }
            break;
        case 5:
            good = false;
            what = "use an array as a compound";
            switch (ctx.choose(3))
            {
            case 0:
                result = attempt([&] { data->getField("value"); });
                break;
            case 1:
                result = attempt([&] { data->setField("value", Any(UInt32(1))); });
                break;
            default:
                result = attempt([&] { data->createField("value"); });
                break;
            }
            break;
        case 6:
            if constexpr (std::is_same_v<T, to::CreatorNested>)
            {
                what = "set a field of the first element";
                good = !model.empty();
                result = attempt([&] { data->at(0)->setField("value", Any(UInt32(77))); });
                if (good)
                {
                    model[0].value = 77;
                }
                break;
            }
            ctx.skip();
        default:
            what = "set an element from an element";
            good = model.size() > 1 && !std::is_same_v<T, to::CreatorNested> && !std::is_same_v<T, String> &&
                    !std::is_same_v<T, Bytes> && !std::is_same_v<T, BitBuffer>;
            result = attempt([&] { data->setAt(data->at(1)->getAnyValue(), 0); });
            if (good)
            {
                model[0] = model[1];
            }
            break;
        }
        ctx.step();
        MC_REQUIRE(ctx, result == expected(good), "array-operation", what, ": ", result);
        check(step + 1 == depth); // what the earlier ones show is checked by sequences that end there
    }
}

void arrays(Ctx& ctx)
{
    static const std::vector<ScalarBody> bodies = {array<Bool>, array<Int7>, array<UInt33>, array<VarSize>,
            array<DynUInt16>, array<Float16>, array<Float64>, array<String>, array<Bytes>, array<BitBuffer>,
            array<to::CreatorEnum>, array<to::CreatorBitmask>, array<to::CreatorNested>};
    ctx.pick(bodies)(ctx);
}

// many elements: each of them alone differs from the others, is shown, set and removed
template <typename T>
void longArray(Ctx& ctx)
{
    using K = Kind<T>;
    const uint32_t n = ctx.pick(ob::largeSizes(false));
    const uint32_t other = ctx.pick(std::vector<uint32_t>{0, 16, 64, 128, 255, 256, n - 1});
    if (other >= n)
    {
        ctx.skip();
    }
    Vector<T> real(n, K::value(0));
    real[other] = K::value(1);
    Vector<T> model = real;
    const auto data = reflectableArray(real);
    const Vector<T>& constReal = real;
    const IReflectableDataConstPtr constData = reflectableArray(constReal);
    const std::string what = str("array of ", n, " elements, element ", other);
    MC_REQUIRE(ctx, data->size() == n && constData->size() == n, "long-array", what, ": size ", data->size());
    for (const uint32_t index : {0U, 15U, 16U, 64U, 128U, 255U, 256U, n - 1, other})
    {
        if (index < n)
        {
            const auto table = K::table(K::value(index == other ? 1 : 0));
            checkTable(ctx, data->at(index), table, what);
            checkTable(ctx, (*data)[index], table, what);
            checkTable(ctx, constData->at(index), table, what);
            checkTable(ctx, (*constData)[index], table, what);
        }
    }
    MC_REQUIRE(ctx, attempt([&] { data->at(n); }) == "refused" && attempt([&] { constData->at(n); }) == "refused", "long-array", what, ": an element behind the end");
    MC_REQUIRE(ctx, ReflectableUtil::equal<std::allocator<uint8_t>>(constData, reflectableArray(model)), "long-array", what, ": differs from its copy");
    model[other] = K::value(0);
    MC_REQUIRE(ctx, !ReflectableUtil::equal<std::allocator<uint8_t>>(constData, reflectableArray(model)), "long-array", what, ": a difference there is not seen");
    MC_REQUIRE(ctx, attempt([&] { data->setAt(Any(K::value(0)), other); }) == "done" && real == model, "long-array", what, ": setAt");
    MC_REQUIRE(ctx, attempt([&] { data->append(Any(K::value(1))); }) == "done", "long-array", what, ": append");
    model.push_back(K::value(1));
    MC_REQUIRE(ctx, real == model, "long-array", what, ": append");
    for (const uint32_t size : {other, n + 300, n + 1, 3U, 700U, 0U})
    {
        MC_REQUIRE(ctx, attempt([&] { data->resize(size); }) == "done", "long-array", what, ": resize");
        model.resize(size);
        MC_REQUIRE(ctx, real == model, "long-array", what, ": resize to ", size);
        ctx.step();
    }
    ctx.state(str(typeid(T).name(), n, ",", other));
}
void longArrays(Ctx& ctx)
{
    static const std::vector<ScalarBody> bodies = {longArray<Bool>, longArray<Int7>, longArray<UInt33>, longArray<VarSize>,
            longArray<DynUInt16>, longArray<Float16>, longArray<Float64>, longArray<String>, longArray<Bytes>,
            longArray<BitBuffer>, longArray<to::CreatorEnum>, longArray<to::CreatorBitmask>, longArray<to::CreatorNested>};
    ctx.pick(bodies)(ctx);
}

// ---------------------------------------------------------------- compounds

// an operation on the reflection and the same one on the native mirror; the mirror tells whether it is possible
template <typename T>
struct Operation
{
    std::string name;
    std::function<void(IReflectableData&)> reflected;
    std::function<bool(T&)> native;
};

template <typename T>
Operation<T> setOp(const char* field, const char* note, const Any& value, std::function<bool(T&)> native)
{
    return {str("setField ", field, " ", note),
            [field, value](IReflectableData& data) {
                data.setField(field, value);
            },
            std::move(native)};
}
template <typename T>
Operation<T> createOp(const char* field, std::function<bool(T&)> native)
{
    return {str("createField ", field),
            [field](IReflectableData& data) {
                if (!data.createField(field))
                {
                    throw std::runtime_error("null is created");
                }
            },
            std::move(native)};
}
template <typename T>
Operation<T> refusedOp(const char* name, std::function<void(IReflectableData&)> reflected)
{
    return {name, std::move(reflected), [](T&) { return false; }};
}

std::vector<Operation<to::CreatorObject>> creatorOperations()
{
    using T = to::CreatorObject;
    using D = IReflectableData&;
    std::vector<Operation<T>> ops = {
            setOp<T>("value", "wrapper", Any(UInt32(0xffffffffU)), [](T& o) { return o.value = 0xffffffffU, true; }),
            setOp<T>("value", "native", Any(uint32_t(5)), [](T& o) { return o.value = 5, true; }),
            setOp<T>("value", "wrong integer", Any(uint64_t(5)), [](T&) { return false; }),
            setOp<T>("value", "null", Any(nullptr), [](T&) { return false; }),
            setOp<T>("nested", "", Any(ob::creatorNested(2)), [](T& o) { return o.nested = ob::creatorNested(2), true; }),
            setOp<T>("nested", "wrong", Any(UInt32(1)), [](T&) { return false; }),
            setOp<T>("text", "", Any(String(obj::longText())), [](T& o) { return o.text = obj::longText(), true; }),
            setOp<T>("text", "view", Any(std::string_view("x")), [](T&) { return false; }),
            setOp<T>("nestedArray", "", Any(Vector<to::CreatorNested>{ob::creatorNested(1), ob::creatorNested(3)}),
                    [](T& o) {
                        o.nestedArray = {ob::creatorNested(1), ob::creatorNested(3)};
                        return true;
                    }),
            setOp<T>("nestedArray", "one", Any(ob::creatorNested(1)), [](T&) { return false; }),
            setOp<T>("textArray", "", Any(Vector<String>{"", "x"}), [](T& o) { return o.textArray = {"", "x"}, true; }),
            setOp<T>("textArray", "null", Any(nullptr), [](T&) { return false; }),
            setOp<T>("externArray", "", Any(Vector<BitBuffer>{ob::bitBuffer("\x80", 1, {})}),
                    [](T& o) {
                        o.externArray = Vector<BitBuffer>{ob::bitBuffer("\x80", 1, {})};
                        return true;
                    }),
            setOp<T>("externArray", "null", Any(nullptr), [](T& o) { return o.externArray.reset(), true; }),
            setOp<T>("externArray", "wrong", Any(Vector<Bytes>()), [](T&) { return false; }),
            setOp<T>("bytesArray", "", Any(Vector<Bytes>{Bytes()}),
                    [](T& o) { return o.bytesArray = Vector<Bytes>{Bytes()}, true; }),
            setOp<T>("bytesArray", "null", Any(nullptr), [](T& o) { return o.bytesArray.reset(), true; }),
            setOp<T>("optionalBool", "wrapper", Any(Bool(true)), [](T& o) { return o.optionalBool = Bool(true), true; }),
            setOp<T>("optionalBool", "native", Any(false), [](T& o) { return o.optionalBool = Bool(false), true; }),
            setOp<T>("optionalBool", "null", Any(nullptr), [](T& o) { return o.optionalBool.reset(), true; }),
            setOp<T>("optionalBool", "empty", Any(), [](T&) { return false; }),
            setOp<T>("optionalNested", "", Any(ob::creatorNested(1)),
                    [](T& o) { return o.optionalNested = ob::creatorNested(1), true; }),
            setOp<T>("optionalNested", "null", Any(nullptr), [](T& o) { return o.optionalNested.reset(), true; }),
            setOp<T>("optionalNested", "wrong", Any(to::CreatorObject()), [](T&) { return false; }),
            setOp<T>("", "", Any(UInt32(1)), [](T&) { return false; }),
            setOp<T>("Value", "", Any(UInt32(1)), [](T&) { return false; }),
            setOp<T>("nested.value", "", Any(UInt32(1)), [](T&) { return false; }),
            createOp<T>("value", [](T& o) { return o.value = 0, true; }),
            createOp<T>("nested", [](T& o) { return o.nested = to::CreatorNested(), true; }),
            createOp<T>("text", [](T& o) { return o.text = String(), true; }),
            createOp<T>("nestedArray", [](T& o) { return o.nestedArray.clear(), true; }),
            createOp<T>("textArray", [](T& o) { return o.textArray.clear(), true; }),
            createOp<T>("externArray", [](T& o) { return o.externArray = Vector<BitBuffer>(), true; }),
            createOp<T>("bytesArray", [](T& o) { return o.bytesArray = Vector<Bytes>(), true; }),
            createOp<T>("optionalBool", [](T& o) { return o.optionalBool = Bool(), true; }),
            createOp<T>("optionalNested", [](T& o) { return o.optionalNested = to::CreatorNested(), true; }),
            createOp<T>("", [](T&) { return false; }),
            createOp<T>("valueX", [](T&) { return false; }),
            createOp<T>("nested.value", [](T&) { return false; }),
            {"nested.value through getField", [](D d) { d.getField("nested")->setField("value", Any(UInt32(42))); },
                    [](T& o) { return o.nested.value = 42, true; }},
            {"nested.text through find", [](D d) { d.find("nested")->setField("text", Any(String("f"))); },
                    [](T& o) { return o.nested.text = "f", true; }},
            {"nested.creatorEnum", [](D d) { d["nested"]->setField("creatorEnum", Any(int8_t(-1))); },
                    [](T& o) { return o.nested.creatorEnum = to::CreatorEnum::MinusOne, true; }},
            {"nested.creatorEnum invalid", [](D d) { d["nested"]->setField("creatorEnum", Any(int8_t(55))); },
                    [](T&) { return false; }},
            {"nested.creatorBitmask", [](D d) { d["nested"]->setField("creatorBitmask", Any(uint8_t(2))); },
                    [](T& o) { return o.nested.creatorBitmask = to::CreatorBitmask::Values::WRITE, true; }},
            {"create nested.externData", [](D d) { d["nested"]->createField("externData"); },
                    [](T& o) { return o.nested.externData = BitBuffer(), true; }},
            {"nested.bytesData", [](D d) { d["nested"]->setField("bytesData", Any(Bytes{{7}})); },
                    [](T& o) { return o.nested.bytesData = Bytes{{7}}, true; }},
            {"optionalNested.value",
                    [](D d) {
                        auto field = d.getField("optionalNested");
                        if (!field)
                        {
                            throw CppRuntimeException("absent");
                        }
                        field->setField("value", Any(UInt32(9)));
                    },
                    [](T& o) {
                        if (!o.optionalNested.has_value())
                        {
                            return false;
                        }
                        o.optionalNested->value = 9;
                        return true;
                    }},
            {"resize nestedArray", [](D d) { d.getField("nestedArray")->resize(2); },
                    [](T& o) { return o.nestedArray.resize(2), true; }},
            {"clear nestedArray", [](D d) { d.getField("nestedArray")->resize(0); },
                    [](T& o) { return o.nestedArray.clear(), true; }},
            {"append nestedArray", [](D d) { d.getField("nestedArray")->append(Any(ob::creatorNested(4))); },
                    [](T& o) { return o.nestedArray.push_back(ob::creatorNested(4)), true; }},
            {"nestedArray[1].text", [](D d) { d["nestedArray"]->at(1)->setField("text", Any(String("el"))); },
                    [](T& o) {
                        if (o.nestedArray.size() < 2)
                        {
                            return false;
                        }
                        o.nestedArray[1].text = "el";
                        return true;
                    }},
            {"append externArray",
                    [](D d) {
                        auto field = d.find("externArray");
                        if (!field)
                        {
                            throw CppRuntimeException("absent");
                        }
                        field->append(Any(ob::bitBuffer("\xf0", 4, {})));
                    },
                    [](T& o) {
                        if (!o.externArray.has_value())
                        {
                            return false;
                        }
                        o.externArray->push_back(ob::bitBuffer("\xf0", 4, {}));
                        return true;
                    }},
            {"append textArray", [](D d) { d["textArray"]->append(Any(String(obj::longText()))); },
                    [](T& o) { return o.textArray.push_back(obj::longText()), true; }},
            {"append textArray wrong", [](D d) { d["textArray"]->append(Any(1)); }, [](T&) { return false; }},
            {"through the any value", [](D d) { d["nested"]->getAnyValue().get<std::reference_wrapper<to::CreatorNested>>().get().value = 3; },
                    [](T& o) { return o.nested.value = 3, true; }},
    };
    return ops;
}

std::vector<Operation<to::WalkerObject>> walkerOperations()
{
    using T = to::WalkerObject;
    using D = IReflectableData&;
    using UTag = to::WalkerUnion::Tag;
    using CTag = to::WalkerChoice::Tag;
    auto onUnion = [](std::function<void(to::WalkerUnion&)> f) -> std::function<bool(T&)> {
        return [f](T& o) {
            if (o.unionArray.empty())
            {
                return false;
            }
            f(o.unionArray[0]);
            return true;
        };
    };
    std::vector<Operation<T>> ops = {
            {"grow the unions", [](D d) { d["unionArray"]->resize(1); }, [](T& o) { return o.unionArray.resize(1), true; }},
            {"append a union", [](D d) { d["unionArray"]->append(Any(ob::walkerUnion(5))); },
                    [](T& o) { return o.unionArray.push_back(ob::walkerUnion(5)), true; }},
            {"union value", [](D d) { d["unionArray"]->at(0)->setField("value", Any(UInt32(1))); },
                    onUnion([](to::WalkerUnion& u) { u.emplace<UTag::value>(UInt32(1)); })},
            {"union text", [](D d) { d["unionArray"]->at(0)->setField("text", Any(String(obj::longText()))); },
                    onUnion([](to::WalkerUnion& u) { u.emplace<UTag::text>(obj::longText()); })},
            {"union text wrong", [](D d) { d["unionArray"]->at(0)->setField("text", Any(UInt32(1))); },
                    [](T&) { return false; }},
            {"union array",
                    [](D d) {
                        d["unionArray"]->at(0)->setField("nestedArray", Any(Vector<to::WalkerNested>{to::WalkerNested("n")}));
                    },
                    onUnion([](to::WalkerUnion& u) {
                        u.emplace<UTag::nestedArray>(Vector<to::WalkerNested>{to::WalkerNested("n")});
                    })},
            {"create union value", [](D d) { d["unionArray"]->at(0)->createField("value"); },
                    onUnion([](to::WalkerUnion& u) { u.emplace<UTag::value>(); })},
            {"create union text", [](D d) { d["unionArray"]->at(0)->createField("text"); },
                    onUnion([](to::WalkerUnion& u) { u.emplace<UTag::text>(); })},
            {"create union array", [](D d) { d["unionArray"]->at(0)->createField("nestedArray"); },
                    onUnion([](to::WalkerUnion& u) { u.emplace<UTag::nestedArray>(); })},
            {"create union unknown", [](D d) { d["unionArray"]->at(0)->createField("Text"); }, [](T&) { return false; }},
            {"set union unknown", [](D d) { d["unionArray"]->at(0)->setField("Text", Any(String("x"))); },
                    [](T&) { return false; }},
            {"union element", [](D d) { d["unionArray"]->at(0)->getField("nestedArray")->at(0)->setField("text", Any(String("deep"))); },
                    [](T& o) {
                        if (o.unionArray.empty() || o.unionArray[0].index() != UTag::nestedArray ||
                                o.unionArray[0].get<UTag::nestedArray>().empty())
                        {
                            return false;
                        }
                        o.unionArray[0].get<UTag::nestedArray>()[0].text = "deep";
                        return true;
                    }},
            {"choice value8", [](D d) { d["choiceField"]->setField("value8", Any(UInt8(8))); },
                    [](T& o) { return o.choiceField.emplace<CTag::value8>(UInt8(8)), true; }},
            {"choice value16", [](D d) { d["choiceField"]->setField("value16", Any(uint16_t(16))); },
                    [](T& o) { return o.choiceField.emplace<CTag::value16>(UInt16(16)), true; }},
            {"choice value32 wrong", [](D d) { d["choiceField"]->setField("value32", Any(uint16_t(16))); },
                    [](T&) { return false; }},
            {"choice value32 null", [](D d) { d["choiceField"]->setField("value32", Any(nullptr)); },
                    [](T&) { return false; }},
            {"create choice value64", [](D d) { d["choiceField"]->createField("value64"); },
                    [](T& o) { return o.choiceField.emplace<CTag::value64>(), true; }},
            {"create choice unknown", [](D d) { d["choiceField"]->createField("value"); }, [](T&) { return false; }},
            setOp<T>("choiceField", "", Any([] {
                to::WalkerChoice c;
                c.emplace<CTag::value32>(UInt32(70000));
                return c;
            }()),
                    [](T& o) { return o.choiceField.emplace<CTag::value32>(UInt32(70000)), true; }),
            createOp<T>("choiceField", [](T& o) { return o.choiceField = to::WalkerChoice(), true; }),
            createOp<T>("nested", [](T& o) { return o.nested = to::WalkerNested(), true; }),
            setOp<T>("nested", "null", Any(nullptr), [](T& o) { return o.nested.reset(), true; }),
            createOp<T>("optionalUnionArray", [](T& o) { return o.optionalUnionArray = Vector<to::WalkerUnion>(), true; }),
            setOp<T>("optionalUnionArray", "null", Any(nullptr), [](T& o) { return o.optionalUnionArray.reset(), true; }),
            {"append the optional unions",
                    [](D d) {
                        auto field = d["optionalUnionArray"];
                        if (!field)
                        {
                            throw CppRuntimeException("absent");
                        }
                        field->append(Any(ob::walkerUnion(1)));
                    },
                    [](T& o) {
                        if (!o.optionalUnionArray.has_value())
                        {
                            return false;
                        }
                        o.optionalUnionArray->push_back(ob::walkerUnion(1));
                        return true;
                    }},
            {"replace union", [](D d) { d["unionArray"]->setAt(Any(ob::walkerUnion(2)), 0); },
                    onUnion([](to::WalkerUnion& u) { u = ob::walkerUnion(2); })},
            refusedOp<T>("choice of a structure", [](D d) { d.getChoice(); }),
            refusedOp<T>("size of a structure", [](D d) { d.size(); }),
            refusedOp<T>("resize a structure", [](D d) { d.resize(1); }),
            refusedOp<T>("append to a structure", [](D d) { d.append(Any(UInt32(1))); }),
            refusedOp<T>("element of a structure", [](D d) { d.at(0); }),
            refusedOp<T>("set an element of a structure", [](D d) { d.setAt(Any(UInt32(1)), 0); }),
            refusedOp<T>("unknown field", [](D d) { d.getField("unionarray"); }),
            refusedOp<T>("empty field", [](D d) { d.getField(""); }),
    };
    return ops;
}

// fields that are not selected cannot be read, unknown ones neither
template <typename PTR>
std::string unselected(const PTR& data, const Node& node)
{
    if (!data || node.kind == Node::ARRAY)
    {
        if (data)
        {
            for (size_t i = 0; i < node.children.size(); ++i)
            {
                const std::string result = unselected(data->at(i), node.children[i]);
                if (!result.empty())
                {
                    return result;
                }
            }
        }
        return "";
    }
    if (node.kind != Node::COMPOUND)
    {
        return "";
    }
    for (const Node& child : node.children)
    {
        if (node.isChoice && child.name != node.chosen)
        {
            const std::string result = acc::outcome([&] {
                data->getField(child.name);
                return std::string("shown");
            });
            if (result != "refused")
            {
                return str("the field ", child.name, " is ", result, " although '", node.chosen, "' is selected");
            }
        }
        else
        {
            const std::string result = unselected(data->getField(child.name), child);
            if (!result.empty())
            {
                return result;
            }
        }
    }
    const std::string table = acc::difference(acc::read(data), acc::refused());
    return table.empty() ? "" : str("'", node.name, "': ", table);
}

template <typename T>
void operate(Ctx& ctx, const std::vector<Operation<T>>& operations, T start)
{
    T mirror = start;
    T object = start;
    IReflectableDataPtr data;
    const bool owner = ctx.flip();
    if (owner)
    {
        data = typeInfo<T>().createInstance();
        ReflectableUtil::getValue<T>(data) = start;
    }
    else
    {
        data = reflectable(object);
    }
    T& real = ReflectableUtil::getValue<T>(data);
    MC_REQUIRE(ctx, owner || &real == &object, "any-value", "the any value is another object");
    std::string history;
    auto check = [&] {
        MC_REQUIRE(ctx, real == mirror, "content", "the object differs after ", history);
        const Node node = ob::treeOf(mirror);
        std::string difference = treecmp::deep(data, node);
        MC_REQUIRE(ctx, difference.empty(), "shown", difference, " after ", history);
        difference = treecmp::deep(IReflectableDataConstPtr(data), node);
        MC_REQUIRE(ctx, difference.empty(), "shown", difference, " after ", history);
        const T& constant = real;
        difference = treecmp::deep(reflectable(constant), node);
        MC_REQUIRE(ctx, difference.empty(), "shown", difference, " after ", history);
        MC_REQUIRE(ctx, &data->getTypeInfo() == &typeInfo<T>() || owner, "type-info", "type information");
        ctx.state(str(std::hash<T>()(mirror), typeid(T).name()));
        return node;
    };
    const uint32_t depth = ctx.thorough() ? 3 : 2;
    for (uint32_t step = 0; step < depth; ++step)
    {
        const Operation<T>& operation = operations[ctx.choose(static_cast<uint32_t>(operations.size()))];
        history += operation.name + "; ";
        const T before = mirror;
        const bool good = operation.native(mirror);
        const std::string result = attempt([&] { operation.reflected(*data); });
        ctx.step();
        MC_REQUIRE(ctx, result == expected(good), "operation", result, ": ", history);
        MC_REQUIRE(ctx, good || mirror == before, "harness", operation.name, " changes the mirror");
        check();
    }
    const Node node = check();
    const std::string difference = unselected(data, node);
    MC_REQUIRE(ctx, difference.empty(), "unselected", difference, " after ", history);
}

void structures(Ctx& ctx)
{
    static const auto operations = creatorOperations();
    to::CreatorObject start;
    if (ctx.flip())
    {
        start.value = 3;
        start.nestedArray = {ob::creatorNested(1), ob::creatorNested(2)};
        start.textArray = {"a", obj::longText()};
        start.externArray.emplace();
        start.bytesArray.emplace(Vector<Bytes>{Bytes{{1, 2}}});
        start.optionalBool = Bool(true);
        start.optionalNested.emplace(ob::creatorNested(3));
    }
    operate(ctx, operations, std::move(start));
}

void choices(Ctx& ctx)
{
    static const auto operations = walkerOperations();
    to::WalkerObject start;
    if (ctx.flip())
    {
        start.unionArray = {ob::walkerUnion(4), ob::walkerUnion(1)};
        start.optionalUnionArray.emplace();
        start.nested.emplace(to::WalkerNested("x"));
        start.choiceField.emplace<to::WalkerChoice::Tag::value64>(UInt64(64));
    }
    operate(ctx, operations, std::move(start));
}

// several reflections of one object at once, operations through any of them are seen through all
void aliases(Ctx& ctx)
{
    to::CreatorObject object;
    object.nestedArray = {ob::creatorNested(1)};
    object.optionalNested.emplace(ob::creatorNested(2));
    to::CreatorObject mirror = object;
    auto first = reflectable(object);
    auto second = reflectable(object);
    auto nested = first->getField("nested");
    auto arrayField = second->getField("nestedArray");
    auto optional = first->find("optionalNested");
    for (uint32_t step = 0; step < (ctx.thorough() ? 4 : 3); ++step)
    {
        ctx.step();
        const uint32_t value = ctx.choose(2);
        switch (ctx.choose(7))
        {
        case 0:
            first->setField("value", Any(UInt32(value)));
            mirror.value = value;
            break;
        case 1:
            second->setField("nested", Any(ob::creatorNested(value)));
            mirror.nested = ob::creatorNested(value);
            break;
        case 2:
            nested->setField("value", Any(UInt32(value)));
            mirror.nested.value = value;
            break;
        case 3:
            arrayField->append(Any(ob::creatorNested(value)));
            mirror.nestedArray.push_back(ob::creatorNested(value));
            break;
        case 4:
            arrayField->at(0)->setField("value", Any(UInt32(value + 10)));
            mirror.nestedArray[0].value = value + 10;
            break;
        case 5:
            optional->setField("text", Any(String(value == 0 ? "" : obj::longText())));
            mirror.optionalNested->text = value == 0 ? "" : obj::longText();
            break;
        default:
            second->createField("nested");
            mirror.nested = to::CreatorNested();
            break;
        }
        const Node node = ob::treeOf(mirror);
        MC_REQUIRE(ctx, object == mirror, "content", "the object differs");
        for (const std::string& difference : {treecmp::deep(first, node), treecmp::deep(second, node),
                     treecmp::deep(nested, node.children[1]), treecmp::deep(arrayField, node.children[3]),
                     treecmp::deep(optional, node.children[8])})
        {
            MC_REQUIRE(ctx, difference.empty(), "shown", difference);
        }
        ctx.state(str(std::hash<to::CreatorObject>()(mirror)));
    }
}

// ---------------------------------------------------------------- lookup

const Node* follow(const Node& root, const std::string& path)
{
    const Node* node = &root;
    size_t begin = 0;
    for (;;)
    {
        const size_t dot = path.find('.', begin);
        const std::string part = path.substr(begin, dot == std::string::npos ? dot : dot - begin);
        if (node->kind != Node::COMPOUND)
        {
            return nullptr;
        }
        const Node* next = nullptr;
        for (const Node& child : node->children)
        {
            if (child.name == part && (!node->isChoice || node->chosen == part))
            {
                next = &child;
            }
        }
        if (!next || next->kind == Node::NUL)
        {
            return nullptr;
        }
        node = next;
        if (dot == std::string::npos)
        {
            return node;
        }
        begin = dot + 1;
    }
}

template <typename T>
void findAll(Ctx& ctx, T object, const std::vector<std::string>& parts)
{
    std::string path = ctx.pick(parts);
    const uint32_t length = ctx.choose(ctx.thorough() ? 4 : 3);
    for (uint32_t i = 0; i < length; ++i)
    {
        path += "." + ctx.pick(parts);
    }
    const Node tree = ob::treeOf(object);
    const Node* found = follow(tree, path);
    const T& constant = object;
    ctx.step();
    auto owner = typeInfo<T>().createInstance();
    owner->getAnyValue().template get<std::reference_wrapper<T>>().get() = object;
    auto see = [&](const auto& data, const char* how) {
        const std::string difference = found ? treecmp::deep(data, *found) : data ? "something is found" : "";
        MC_REQUIRE(ctx, difference.empty(), "find", how, " '", path, "': ", difference);
        ctx.cases();
    };
    const std::string result = attempt([&] {
        const auto data = reflectable(object);
        const IReflectableDataConstPtr constData = reflectable(constant);
        const IReflectableDataConstPtr constOwner = owner;
        see(data->find(path), "find");
        see((*data)[path], "[]");
        see(IReflectableDataConstPtr(data)->find(path), "find of a constant pointer");
        see(constData->find(path), "find of a constant");
        see((*constData)[path], "[] of a constant");
        see(owner->find(path), "find of an owner");
        see((*owner)[path], "[] of an owner");
        see(constOwner->find(path), "find of a constant owner");
        see((*constOwner)[path], "[] of a constant owner");
    });
    MC_REQUIRE(ctx, result == "done", "find", "'", path, "': ", result);

    // an owner gives what a reflection of the object gives, also where that is a refusal
    const IReflectableDataPtr direct = reflectable(object);
    const IReflectableDataConstPtr constDirect = direct;
    const IReflectableDataPtr owned = owner;
    const IReflectableDataConstPtr constOwned = owner;
    using Get = std::function<std::string(const IReflectableDataPtr&, const IReflectableDataConstPtr&)>;
    const auto shown = [](const Any& any) {
        return std::string(any.isType<std::reference_wrapper<T>>() ? "reference" : any.isType<std::reference_wrapper<const T>>() ? "constant reference" : "other");
    };
    const std::vector<std::pair<const char*, Get>> operations = {
            {"at", [](const auto& d, const auto&) { d->at(0); return std::string("done"); }},
            {"at of a constant", [](const auto&, const auto& c) { c->at(0); return std::string("done"); }},
            {"[]", [](const auto& d, const auto&) { (*d)[size_t(0)]; return std::string("done"); }},
            {"[] of a constant", [](const auto&, const auto& c) { (*c)[size_t(0)]; return std::string("done"); }},
            {"setAt", [](const auto& d, const auto&) { d->setAt(Any(UInt32(1)), 0); return std::string("done"); }},
            {"append", [](const auto& d, const auto&) { d->append(Any(UInt32(1))); return std::string("done"); }},
            {"resize", [](const auto& d, const auto&) { d->resize(0); return std::string("done"); }},
            {"size", [](const auto&, const auto& c) { return std::to_string(c->size()); }},
            {"getChoice", [](const auto&, const auto& c) { return std::string(c->getChoice()); }},
            {"isArray", [](const auto&, const auto& c) { return std::to_string(c->isArray()); }},
            {"getTypeInfo", [](const auto&, const auto& c) { return std::string(c->getTypeInfo().getSchemaName()); }},
            {"getAnyValue", [&](const auto& d, const auto&) { return shown(d->getAnyValue()); }},
            {"getAnyValue with an allocator", [&](const auto& d, const auto&) { return shown(d->getAnyValue(std::allocator<uint8_t>())); }},
            {"getValue", [&](const auto& d, const auto&) { return std::string(ReflectableUtil::getValue<T>(d) == object ? "equal" : "different"); }},
            {"getField const", [&](const auto&, const auto& c) { return std::string(c->getField(parts[0]) ? "something" : "nothing"); }},
    };
    // (the any value of a constant owner is a reference which is not constant, as the repository's tests have it)
    for (const auto& operation : operations)
    {
        const std::string expected = acc::outcome([&] { return operation.second(direct, constDirect); });
        const std::string got = acc::outcome([&] { return operation.second(owned, constOwned); });
        MC_REQUIRE(ctx, got == expected, "owner", operation.first, " of an owner: ", got, " instead of ", expected);
        ctx.cases();
    }
    const std::string difference = acc::difference(acc::read(constOwned), acc::read(constDirect));
    MC_REQUIRE(ctx, difference.empty(), "owner", "of an owner: ", difference);
}

void lookup(Ctx& ctx)
{
    static const std::vector<std::string> creatorParts = {"value", "nested", "nestedArray", "optionalNested", "text",
            "creatorEnum", "optionalBool", "", "x", "nestedArray[0]", "value ", "size"};
    static const std::vector<std::string> walkerParts = {"identifier", "nested", "unionArray", "choiceField", "value8",
            "value64", "text", "", "optionalUnionArray", "getValue", "x"};
    if (ctx.flip())
    {
        to::CreatorObject object;
        object.nestedArray = {ob::creatorNested(1)};
        if (ctx.flip())
        {
            object.optionalNested.emplace(ob::creatorNested(2));
            object.optionalBool = Bool(false);
        }
        findAll(ctx, std::move(object), creatorParts);
    }
    else
    {
        to::WalkerObject object;
        const uint32_t which = ctx.choose(3);
        if (which > 0)
        {
            object.nested.emplace(to::WalkerNested("x"));
        }
        if (which == 1)
        {
            object.choiceField.emplace<to::WalkerChoice::Tag::value8>(UInt8(8));
        }
        else if (which == 2)
        {
            object.choiceField.emplace<to::WalkerChoice::Tag::value64>(UInt64(8));
        }
        findAll(ctx, std::move(object), walkerParts);
    }
}

// ---------------------------------------------------------------- constants

// changes and non constant access of constant reflections are refused everywhere
void refuseAll(Ctx& ctx, const IReflectableDataConstPtr& constData, const Node& node, bool reference)
{
    if (!constData)
    {
        return;
    }
    const auto data = std::const_pointer_cast<IReflectableData>(constData);
    std::vector<std::pair<std::string, std::function<void()>>> operations;
    if (node.kind == Node::ARRAY)
    {
        operations = {{"resize", [&] { data->resize(0); }}, {"append", [&] { data->append(Any(UInt32(1))); }},
                {"setAt", [&] { data->setAt(Any(UInt32(1)), 0); }}, {"at", [&] { data->at(0); }},
                {"[]", [&] { (*data)[0]; }}, {"getAnyValue", [&] { data->getAnyValue(); }}};
    }
    else if (node.kind == Node::COMPOUND)
    {
        operations = {{"getAnyValue", [&] { data->getAnyValue(); }}};
        for (const Node& child : node.children)
        {
            operations.push_back({"getField", [&] { data->getField(child.name); }});
            operations.push_back({"setField", [&] { data->setField(child.name, Any(nullptr)); }});
            operations.push_back({"createField", [&] { data->createField(child.name); }});
        }
    }
    (void)reference;
    for (const auto& operation : operations)
    {
        const std::string result = attempt(operation.second);
        MC_REQUIRE(ctx, result == "refused", "constant", operation.first, " on constant ", node.name, ": ", result);
        ctx.cases();
    }
    for (size_t i = 0; i < node.children.size(); ++i)
    {
        if (node.kind == Node::ARRAY)
        {
            refuseAll(ctx, constData->at(i), node.children[i], true);
        }
        else if (!node.isChoice || node.chosen == node.children[i].name)
        {
            refuseAll(ctx, constData->getField(node.children[i].name), node.children[i], true);
        }
    }
}
template <typename T>
void constant(Ctx& ctx, const T& object)
{
    const T before = object;
    const Node node = ob::treeOf(object);
    const auto data = reflectable(object);
    ctx.step();
    refuseAll(ctx, data, node, true);
    MC_REQUIRE(ctx, object == before, "constant-changed", "a constant object is changed");
    const std::string difference = treecmp::deep(data, node) + unselected(data, node);
    MC_REQUIRE(ctx, difference.empty(), "shown", difference);
    MC_REQUIRE(ctx, &ReflectableUtil::getValue<T>(data) == &object, "get-value", "getValue of a constant object");
}
void constants(Ctx& ctx)
{
    switch (ctx.choose(3))
    {
    case 0:
        constant(ctx, ob::creatorObject(ctx, 0));
        break;
    case 1:
        constant(ctx, ob::walkerObject(ctx, ctx.thorough() ? 1 : 0));
        break;
    default:
        constant(ctx, ob::reflectableObject(ctx, 0));
        break;
    }
}

// ---------------------------------------------------------------- comparison

to::CreatorObject themed(uint32_t bits, uint32_t theme)
{
    to::CreatorObject o;
    auto on = [&](uint32_t bit) { return (bits >> bit & 1) != 0; };
    if (on(0))
    {
        o.value = 1 + theme;
    }
    if (on(1))
    {
        o.nested = ob::creatorNested(1 + theme);
    }
    if (on(2))
    {
        o.text = theme == 0 ? "x" : obj::longText();
    }
    if (on(3))
    {
        o.nestedArray = theme == 0 ? Vector<to::CreatorNested>(1)
                                   : theme == 1 ? Vector<to::CreatorNested>{ob::creatorNested(1)}
                                                : Vector<to::CreatorNested>{ob::creatorNested(1), ob::creatorNested(2)};
    }
    if (on(4))
    {
        o.textArray = theme == 0 ? Vector<String>(1) : Vector<String>{"a", "b"};
    }
    if (on(5))
    {
        o.externArray = theme == 0 ? Vector<BitBuffer>()
                                   : Vector<BitBuffer>{ob::bitBuffer("\xf0", theme == 1 ? 8 : 4, {})};
    }
    if (on(6))
    {
        o.bytesArray = theme == 0 ? Vector<Bytes>() : Vector<Bytes>{Bytes(theme)};
    }
    if (on(7))
    {
        o.optionalBool = Bool(theme == 1);
    }
    if (on(8))
    {
        o.optionalNested = theme == 0 ? to::CreatorNested() : ob::creatorNested(theme + 2);
    }
    return o;
}

void objectsEqual(Ctx& ctx)
{
    const uint32_t theme = ctx.choose(3);
    const uint32_t otherTheme = ctx.choose(3);
    const uint32_t bits = ctx.choose(512);
    const auto left = themed(bits, theme);
    const auto leftData = reflectable(left);
    // every object that differs in at most three fields, all of them in the thorough tier
    for (uint32_t difference = 0; difference < 512; ++difference)
    {
        if (!ctx.thorough() && __builtin_popcount(difference) > 2)
        {
            continue;
        }
        const auto right = themed(bits ^ difference, otherTheme);
        ctx.step();
        const bool equal = left == right;
        const std::string result = acc::outcome([&] {
            return std::string(ReflectableUtil::equal<std::allocator<uint8_t>>(leftData, reflectable(right)) ? "equal" : "different");
        });
        MC_REQUIRE(ctx, result == (equal ? "equal" : "different"), "equal", "objects ", bits, "/", theme, " and ",
                bits ^ difference, "/", otherTheme, " are shown as ", result);
    }
}

// one difference in one place of a large object
void largeEqual(Ctx& ctx)
{
    const uint32_t place = ctx.choose(ob::largeCreatorPlaces + ob::largeWalkerPlaces);
    const uint32_t n = ctx.pick(ob::largeSizes(false));
    const uint32_t at = ctx.pick(std::vector<uint32_t>{0, 16, 31, 64, 128, 255, 256, n - 1});
    if (at >= n)
    {
        ctx.skip();
    }
    const auto check = [&](const auto& left, const auto& right) {
        const auto data = reflectable(left);
        const std::string difference = treecmp::deep(data, ob::treeOf(left));
        MC_REQUIRE(ctx, difference.empty(), "large", difference, " with ", n, " elements at place ", place);
        const auto same = left;
        MC_REQUIRE(ctx, ReflectableUtil::equal<std::allocator<uint8_t>>(data, reflectable(same)), "large-equal", "a copy differs, place ", place, " of ", n);
        MC_REQUIRE(ctx, !ReflectableUtil::equal<std::allocator<uint8_t>>(data, reflectable(right)), "large-equal", "a difference at ", at, " of ", n,
                " is not seen at place ", place);
        ctx.step(3);
        ctx.state(str(place, ",", n, ",", at));
    };
    if (place < ob::largeCreatorPlaces)
    {
        const auto left = ob::largeCreator(place, n);
        auto right = left;
        switch (place)
        {
        case 0:
            right.nestedArray[at].value = 123456;
            break;
        case 1:
            right.textArray[at] += "x";
            break;
        case 2:
            (*right.externArray)[at] = ob::bitBuffer("abc", 24, {});
            break;
        case 3:
            (*right.bytesArray)[at][2] = 0;
            break;
        case 4:
            right.text[at] = 'X' + (right.text[at] == 'X' ? 1 : 0);
            break;
        case 5:
            right.nested.bytesData[at] ^= 1;
            break;
        default: {
            const auto bytes = left.nested.externData.getData();
            std::string data(bytes.begin(), bytes.end());
            data[at] = static_cast<char>(data[at] ^ 0x80);
            right.nested.externData = ob::bitBuffer(data, left.nested.externData.getBitSize(), {});
            break;
        }
        }
        check(left, right);
    }
    else
    {
        const auto left = ob::largeWalker(place - ob::largeCreatorPlaces, n);
        auto right = left;
        switch (place - ob::largeCreatorPlaces)
        {
        case 0:
            right.unionArray[at] = ob::numberedUnion(at + 1, 1, {});
            break;
        case 1:
            (*right.optionalUnionArray)[at] = ob::numberedUnion(at + 3, 1, {});
            break;
        default:
            right.unionArray[0].get<to::WalkerUnion::Tag::nestedArray>()[at].text = "x";
            break;
        }
        check(left, right);
    }
}

void choicesEqual(Ctx& ctx)
{
    const auto left = ob::walkerObject(ctx, 0);
    const auto leftData = reflectable(left);
    for (uint32_t which = 0; which < ob::walkerUnionVariants * 8; ++which)
    {
        auto right = left;
        right.unionArray.clear();
        if (which % 2 == 1)
        {
            right.unionArray.push_back(ob::walkerUnion(which / 8));
        }
        if (which / 2 % 2 == 1)
        {
            right.choiceField.emplace<to::WalkerChoice::Tag::value16>(UInt16(1));
        }
        if (which / 4 % 2 == 1)
        {
            right.optionalUnionArray.emplace(Vector<to::WalkerUnion>{ob::walkerUnion(which / 8)});
        }
        ctx.step();
        const bool equal = left == right;
        const bool shown = ReflectableUtil::equal<std::allocator<uint8_t>>(leftData, reflectable(right));
        MC_REQUIRE(ctx, shown == equal, "equal", "objects with choices are shown as ", shown ? "equal" : "different");
    }
}

// values of different types are different, equal values of one type are equal
void valuesEqual(Ctx& ctx)
{
    static String textA("a");
    static String textB("b");
    static Bytes bytesA{{'a'}};
    static BitBuffer bitsA(std::vector<uint8_t>{0x61}, 8);
    static BitBuffer bitsB(std::vector<uint8_t>{0x61}, 7);
    static Vector<UInt8> array1{UInt8(1)};
    static Vector<UInt8> array0;
    static Vector<UInt16> array16;
    static Vector<to::CreatorNested> nestedArray;
    static to::CreatorNested nested;
    static to::WalkerNested other;
    struct Entry
    {
        const char* id; // equal exactly when the ids are equal
        IReflectableDataConstPtr data;
    };
    static const std::vector<Entry> entries = {{"null", nullptr}, {"null", nullptr}, {"bool true", reflectable(Bool(true))},
            {"bool true", reflectable(Bool(true))}, {"bool false", reflectable(Bool(false))},
            {"int8 1", reflectable(Int8(1))}, {"int8 -1", reflectable(Int8(-1))}, {"uint8 1", reflectable(UInt8(1))},
            {"uint8 255", reflectable(UInt8(255))}, {"uint16 1", reflectable(UInt16(1))},
            {"int7 1", reflectable(Int7(1))}, {"int64 min", reflectable(Int64(INT64_MIN))},
            {"int64 max", reflectable(Int64(INT64_MAX))}, {"uint64 max", reflectable(UInt64(UINT64_MAX))},
            {"uint64 max-1", reflectable(UInt64(UINT64_MAX - 1))}, {"uint64 0", reflectable(UInt64(0))},
            {"varsize 1", reflectable(VarSize(1))}, {"varuint 1", reflectable(VarUInt(1))},
            {"varuint 1", reflectable(VarUInt(1))}, {"varint -1", reflectable(VarInt(-1))},
            {"float16 1", reflectable(Float16(1.0F))}, {"float32 1", reflectable(Float32(1.0F))},
            {"float64 1", reflectable(Float64(1.0))}, {"string a", reflectable(textA)},
            {"string a", reflectable(std::string_view("a"))}, {"string b", reflectable(textB)},
            {"string ", reflectable(std::string_view(""))}, {"bytes a", reflectable(bytesA)},
            {"bytes ", reflectable(BytesView())}, {"bits a8", reflectable(bitsA)}, {"bits a7", reflectable(bitsB)},
            {"enum 1", reflectable(to::CreatorEnum::TWO)}, {"enum 0", reflectable(to::CreatorEnum::ONE)},
            {"enum -1", reflectable(to::CreatorEnum::MinusOne)},
            {"other enum 1", reflectable(to::ReflectableEnum::VALUE3)},
            {"unsigned enum 1", reflectable(to::CreatorUnsignedEnum::TWO)},
            {"mask 1", reflectable(to::CreatorBitmask(to::CreatorBitmask::Values::READ))},
            {"mask 129", reflectable(to::CreatorBitmask(UInt8(129)))},
            {"array 1", reflectableArray(array1)}, {"array 0", reflectableArray(array0)},
            {"array16 0", reflectableArray(array16)}, {"nested array", reflectableArray(nestedArray)},
            {"nested", reflectable(nested)}, {"other", reflectable(other)}};
    const Entry& left = ctx.pick(entries);
    for (const Entry& right : entries)
    {
        ctx.step();
        const bool expectEqual = std::string(left.id) == right.id;
        const std::string result = acc::outcome([&] {
            return std::string(ReflectableUtil::equal<std::allocator<uint8_t>>(left.data, right.data) ? "equal" : "different");
        });
        MC_REQUIRE(ctx, result == (expectEqual ? "equal" : "different"), "equal", left.id, " and ", right.id,
                " are shown as ", result);
    }
}

// "almost equal": neighbours are equal, values that differ by much more than the rounding are not
void doublesEqual(Ctx& ctx)
{
    using L = std::numeric_limits<double>;
    static const std::vector<double> magnitudes = {0.0, L::denorm_min(), L::min() / 2, L::min(), 2 * L::min(), 1e-300,
            1e-10, 0.1, 1.0, 1.5, 3.0, 1e10, 1e300, L::max() / 4, L::max() / 2, L::max() * 0.75, L::max(),
            L::infinity(), L::quiet_NaN()};
    auto value = [&] {
        const double magnitude = ctx.pick(magnitudes);
        const double shifted = std::isfinite(magnitude) && ctx.flip() ? std::nextafter(magnitude, 0.0) : magnitude;
        return ctx.flip() ? -shifted : shifted;
    };
    const double left = value();
    const double right = value();
    ctx.step();
    const bool floats = ctx.flip();
    bool shown = false;
    double l = left;
    double r = right;
    if (floats)
    {
        l = static_cast<double>(static_cast<float>(left));
        r = static_cast<double>(static_cast<float>(right));
        shown = ReflectableUtil::equal<std::allocator<uint8_t>>(
                reflectable(Float32(static_cast<float>(left))), reflectable(Float32(static_cast<float>(right))));
    }
    else
    {
        shown = ReflectableUtil::equal<std::allocator<uint8_t>>(reflectable(Float64(left)), reflectable(Float64(right)));
    }
    const std::string what = str(acc::real(l), " and ", acc::real(r), " are shown as ", shown ? "equal" : "different");
    if (std::isnan(l) || std::isnan(r))
    {
        MC_REQUIRE(ctx, shown == (std::isnan(l) && std::isnan(r)), "doubles", what);
    }
    else if (std::isinf(l) || std::isinf(r))
    {
        MC_REQUIRE(ctx, shown == (l == r), "doubles", what);
    }
    else
    {
        const long double distance = std::fabs(static_cast<long double>(l) - static_cast<long double>(r));
        const long double size = std::max(std::fabs(static_cast<long double>(l)), std::fabs(static_cast<long double>(r)));
        if (l == r || std::nextafter(l, r) == r)
        {
            MC_REQUIRE(ctx, shown, "doubles", what);
        }
        else if (distance > size * 8 * static_cast<long double>(L::epsilon()) &&
                distance > 4 * static_cast<long double>(L::min()))
        {
            MC_REQUIRE(ctx, !shown, "doubles", what);
        }
    }
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {
                    {"fixed-integers", fixedIntegers, 1},
                    {"other-scalars", otherScalars, 1},
                    {"items", items},
                    {"sequences", sequences},
                    {"arrays", arrays},
                    {"long-arrays", longArrays, 3},
                    {"structures", structures, 3},
                    {"choices", choices, 3},
                    {"aliases", aliases},
                    {"lookup", lookup, 3},
                    {"constants", constants, 4},
                    {"objects-equal", objectsEqual},
                    {"large-equal", largeEqual, 3},
                    {"choices-equal", choicesEqual, 4},
                    {"values-equal", valuesEqual},
                    {"doubles-equal", doublesEqual},
            });
}
