// C27: enumerations and bitmasks convert consistently.
// mc: level=model_checking opt=1 sources=std_test_object:ReflectableEnum,std_test_object:ReflectableBitmask
#include <array>
#include <map>
#include <sstream>

#include "bitmodel.h"
#include "mc.h"
#include "test_object/std_allocator/ReflectableBitmask.h"
#include "test_object/std_allocator/ReflectableEnum.h"
#include "zserio/Bitmasks.h"
#include "zserio/BuiltInOperators.h"
#include "zserio/Enums.h"
#include "zserio/GenericAccessor.h"
#include "zserio/HashCodeUtil.h"
#include "zserio/IReflectableData.h"
#include "zserio/JsonWriter.h"
#include "zserio/ReflectableData.h"
#include "zserio/ReflectableUtil.h"
#include "zserio/TypeInfo.h"
#include "zserio/Types.h"
#include "zserio/Walker.h"
#include "zserio/ZserioTreeCreator.h"

using mc::Ctx;
using mc::str;
using namespace zserio;
using test_object::std_allocator::ReflectableBitmask;
using test_object::std_allocator::ReflectableEnum;
using Alloc = std::allocator<uint8_t>;

namespace
{

// ---------------------------------------------------------------- enumeration types in the form the generator emits

enum class EBits3 : uint8_t { A = 0, AB = 1, B = 5, a = 7 };
enum class EInt8 : int8_t { LOWEST = -128, MINUS = -1, ZERO = 0, HIGHEST = 127 };
enum class EInt5 : int8_t { LOW = -16, _X = 2, X_ = 3, X = 15 };
enum class EUInt16 : uint16_t { NONE = 0, SOME = 300, LAST = 65535 };
enum class EInt64 : int64_t { MIN = std::numeric_limits<int64_t>::min(), MID = 1, MAX = std::numeric_limits<int64_t>::max() };
enum class EUInt64 : uint64_t { ONE = 1, TOP = 1ULL << 63, ALL = ~0ULL };
enum class EVarUInt : uint64_t { ONE = 1, TWOBYTES = 128, ALL = ~0ULL };
enum class EVarInt16 : int16_t { NEG = -16383, TINY = -1, BIG = 16383 };
enum class EVarSize : uint32_t { FIRST = 0, FOUR = 1U << 21, MAXIMUM = (1U << 31) - 1 };

template <typename E>
struct Table; // name and value of every item as the schema has it

#define MC_ENUM(E, Z) \
    template <> \
    struct Table<E> \
    { \
        static std::vector<std::pair<std::string, E>> items(); \
        static const char* name() { return #E; } \
        using Zserio = Z; \
    };

MC_ENUM(EBits3, UInt3)
MC_ENUM(EInt8, Int8)
MC_ENUM(EInt5, Int5)
MC_ENUM(EUInt16, UInt16)
MC_ENUM(EInt64, Int64)
MC_ENUM(EUInt64, UInt64)
MC_ENUM(EVarUInt, VarUInt)
MC_ENUM(EVarInt16, VarInt16)
MC_ENUM(EVarSize, VarSize)
template <>
struct Table<ReflectableEnum>
{
    static std::vector<std::pair<std::string, ReflectableEnum>> items();
    static const char* name() { return "ReflectableEnum"; }
    using Zserio = Int8;
};

#define MC_ITEM(E, I) {#I, E::I}
std::vector<std::pair<std::string, EBits3>> Table<EBits3>::items() { return {MC_ITEM(EBits3, A), MC_ITEM(EBits3, AB), MC_ITEM(EBits3, B), MC_ITEM(EBits3, a)}; }
std::vector<std::pair<std::string, EInt8>> Table<EInt8>::items() { return {MC_ITEM(EInt8, HIGHEST), MC_ITEM(EInt8, MINUS), MC_ITEM(EInt8, ZERO), MC_ITEM(EInt8, LOWEST)}; }
std::vector<std::pair<std::string, EInt5>> Table<EInt5>::items() { return {MC_ITEM(EInt5, LOW), MC_ITEM(EInt5, _X), MC_ITEM(EInt5, X_), MC_ITEM(EInt5, X)}; }
std::vector<std::pair<std::string, EUInt16>> Table<EUInt16>::items() { return {MC_ITEM(EUInt16, NONE), MC_ITEM(EUInt16, SOME), MC_ITEM(EUInt16, LAST)}; }
std::vector<std::pair<std::string, EInt64>> Table<EInt64>::items() { return {MC_ITEM(EInt64, MIN), MC_ITEM(EInt64, MID), MC_ITEM(EInt64, MAX)}; }
std::vector<std::pair<std::string, EUInt64>> Table<EUInt64>::items() { return {MC_ITEM(EUInt64, ONE), MC_ITEM(EUInt64, TOP), MC_ITEM(EUInt64, ALL)}; }
std::vector<std::pair<std::string, EVarUInt>> Table<EVarUInt>::items() { return {MC_ITEM(EVarUInt, ONE), MC_ITEM(EVarUInt, TWOBYTES), MC_ITEM(EVarUInt, ALL)}; }
std::vector<std::pair<std::string, EVarInt16>> Table<EVarInt16>::items() { return {MC_ITEM(EVarInt16, NEG), MC_ITEM(EVarInt16, TINY), MC_ITEM(EVarInt16, BIG)}; }
std::vector<std::pair<std::string, EVarSize>> Table<EVarSize>::items() { return {MC_ITEM(EVarSize, FIRST), MC_ITEM(EVarSize, FOUR), MC_ITEM(EVarSize, MAXIMUM)}; }
std::vector<std::pair<std::string, ReflectableEnum>> Table<ReflectableEnum>::items()
{
    return {MC_ITEM(ReflectableEnum, VALUE1), MC_ITEM(ReflectableEnum, VALUE2), MC_ITEM(ReflectableEnum, VALUE3)};
}

} // namespace

namespace zserio
{

#define MC_TRAITS(E, Z, N, ...) \
    template <> \
    struct EnumTraits<E> \
    { \
        static constexpr std::array<std::string_view, N> names = {{__VA_ARGS__}}; \
        static const std::array<E, N> values; \
        static constexpr std::string_view enumName = #E; \
        using ZserioType = Z; \
    };

MC_TRAITS(EBits3, UInt3, 4, "A", "AB", "B", "a")
MC_TRAITS(EInt8, Int8, 4, "HIGHEST", "MINUS", "ZERO", "LOWEST")
MC_TRAITS(EInt5, Int5, 4, "LOW", "_X", "X_", "X")
MC_TRAITS(EUInt16, UInt16, 3, "NONE", "SOME", "LAST")
MC_TRAITS(EInt64, Int64, 3, "MIN", "MID", "MAX")
MC_TRAITS(EUInt64, UInt64, 3, "ONE", "TOP", "ALL")
MC_TRAITS(EVarUInt, VarUInt, 3, "ONE", "TWOBYTES", "ALL")
MC_TRAITS(EVarInt16, VarInt16, 3, "NEG", "TINY", "BIG")
MC_TRAITS(EVarSize, VarSize, 3, "FIRST", "FOUR", "MAXIMUM")

#define MC_DEF(E, N, ...) \
    const std::array<E, N> EnumTraits<E>::values = {{__VA_ARGS__}}; \
    template <> \
    size_t enumToOrdinal(E value) \
    { \
        for (size_t i = 0; i < N; ++i) \
        { \
            if (EnumTraits<E>::values[i] == value) \
            { \
                return i; \
            } \
        } \
        throw CppRuntimeException("Unknown value for enumeration " #E ": ") \
                << static_cast<std::underlying_type_t<E>>(value) << "!"; \
    } \
    template <> \
    E valueToEnum(EnumTraits<E>::ZserioType rawValue) \
    { \
        for (E value : EnumTraits<E>::values) \
        { \
            if (static_cast<std::underlying_type_t<E>>(value) == static_cast<std::underlying_type_t<E>>(rawValue)) \
            { \
                return value; \
            } \
        } \
        throw CppRuntimeException("Unknown value for enumeration " #E ": ") << rawValue << "!"; \
    }

MC_DEF(EBits3, 4, EBits3::A, EBits3::AB, EBits3::B, EBits3::a)
MC_DEF(EInt8, 4, EInt8::HIGHEST, EInt8::MINUS, EInt8::ZERO, EInt8::LOWEST)
MC_DEF(EInt5, 4, EInt5::LOW, EInt5::_X, EInt5::X_, EInt5::X)
MC_DEF(EUInt16, 3, EUInt16::NONE, EUInt16::SOME, EUInt16::LAST)
MC_DEF(EInt64, 3, EInt64::MIN, EInt64::MID, EInt64::MAX)
MC_DEF(EUInt64, 3, EUInt64::ONE, EUInt64::TOP, EUInt64::ALL)
MC_DEF(EVarUInt, 3, EVarUInt::ONE, EVarUInt::TWOBYTES, EVarUInt::ALL)
MC_DEF(EVarInt16, 3, EVarInt16::NEG, EVarInt16::TINY, EVarInt16::BIG)
MC_DEF(EVarSize, 3, EVarSize::FIRST, EVarSize::FOUR, EVarSize::MAXIMUM)

} // namespace zserio

namespace
{

__attribute__((noinline)) std::string thrown(const std::function<void()>& f)
{
    try
    {
        f();
    }
    catch (const CppRuntimeException&)
    {
        return "library";
    }
    catch (const std::exception& e)
    {
        return str("other: ", e.what());
    }
    return "";
}

template <typename E>
std::string rawText(E value)
{
    using U = std::underlying_type_t<E>;
    return std::is_signed_v<U> ? std::to_string(static_cast<int64_t>(static_cast<U>(value))) : std::to_string(static_cast<uint64_t>(static_cast<U>(value)));
}

// every item: name, value and ordinal agree, and every other text is refused
template <typename E>
void enumScenario(Ctx& ctx)
{
    using Z = typename Table<E>::Zserio;
    using U = std::underlying_type_t<E>;
    const auto items = Table<E>::items();

    std::vector<std::string> texts = {"", " ", std::string(1, '\0'), "no_such"};
    for (const auto& item : items)
    {
        for (size_t n = 0; n <= item.first.size(); ++n)
        {
            texts.push_back(item.first.substr(0, n));
            texts.push_back(item.first.substr(n));
            for (char c : {'A', 'X', '_', ' ', '1', '\0'})
            {
                texts.push_back(item.first.substr(0, n) + c + item.first.substr(n));
                if (n < item.first.size())
                {
                    std::string changed = item.first;
                    changed[n] = c;
                    texts.push_back(changed);
                    changed[n] = static_cast<char>(item.first[n] ^ 0x20);
                    texts.push_back(changed);
                }
            }
        }
        for (const auto& other : items)
        {
            texts.push_back(item.first + other.first);
        }
    }

    const std::string& text = ctx.pick(texts);
    const E* expected = nullptr;
    for (const auto& item : items)
    {
        if (item.first == text)
        {
            expected = &item.second;
        }
    }
    ctx.note(str(Table<E>::name(), " from '", text, "'"));
    ctx.step();
    // heap copy of exactly the text, so that reading outside it shows
    std::vector<char> exact(text.begin(), text.end());
    const std::string_view view(exact.data(), exact.size());
    E got{};
    const std::string error = thrown([&]() { got = stringToEnum<E>(view); });
    if (expected == nullptr)
    {
        MC_REQUIRE(ctx, error == "library", "unknown-name", "name '", text, "' not refused: '", error, "' value ", rawText(got));
        return;
    }
    MC_REQUIRE(ctx, error.empty() && got == *expected, "name", "name '", text, "' gave ", rawText(got), " ", error);
    MC_REQUIRE(ctx, enumToString(got) == text, "to-string", "item ", text, " has the name ", std::string(enumToString(got)));
    const Z raw = enumToValue(got);
    MC_REQUIRE(ctx, static_cast<U>(raw) == static_cast<U>(*expected), "to-value", "item ", text, " has the value ", +static_cast<U>(raw), " instead of ", rawText(*expected));
    MC_REQUIRE(ctx, valueToEnum<E>(raw) == got, "from-value", "value of ", text, " converts to another item");
    MC_REQUIRE(ctx, EnumTraits<E>::values[enumToOrdinal(got)] == got && EnumTraits<E>::names[enumToOrdinal(got)] == text, "ordinal", "ordinal of ", text, " is another item");
    MC_REQUIRE(ctx, static_cast<U>(builtin::valueOf(got)) == static_cast<U>(*expected), "value-of", "valueof(", text, ") is ", +static_cast<U>(builtin::valueOf(got)));
    CppRuntimeException exception("<");
    exception << got << ">";
    MC_REQUIRE(ctx, std::string(exception.what()) == "<" + text + ">", "message", "item ", text, " is rendered ", exception.what());
    MC_REQUIRE(ctx, thrown([&]() { detail::validate(got, "field"); }).empty(), "validate", "item ", text, " is refused by validate");

    // wire
    for (size_t shift = 0; shift < 8; ++shift)
    {
        BitBuffer plain(300);
        BitBuffer viaEnum(300);
        BitStreamWriter first(plain);
        BitStreamWriter second(viaEnum);
        if (shift > 0)
        {
            first.writeUnsignedBits32(1, static_cast<uint8_t>(shift));
            second.writeUnsignedBits32(1, static_cast<uint8_t>(shift));
        }
        detail::write(first, raw);
        detail::write(second, got);
        MC_REQUIRE(ctx, first.getBitPosition() == second.getBitPosition(), "wire-size", "item ", text, " is written in ", second.getBitPosition() - shift, " bits");
        MC_REQUIRE(ctx, detail::bitSizeOf(got, shift) == second.getBitPosition() - shift, "bit-size", "item ", text, " has the bit size ", static_cast<size_t>(detail::bitSizeOf(got, shift)));
        MC_REQUIRE(ctx, plain == viaEnum, "wire", "item ", text, " is not written as its value");
        BitStreamReader reader(viaEnum);
        reader.setBitPosition(shift);
        E back{};
        detail::read(reader, back);
        MC_REQUIRE(ctx, back == got && reader.getBitPosition() == second.getBitPosition(), "read", "item ", text, " reads back as ", rawText(back));
    }
    ctx.state(str(Table<E>::name(), text));
}

// every raw value of the type: known ones become their item, others are refused by read, validate-free conversion and write
template <typename E>
void rawScenario(Ctx& ctx, const std::vector<int64_t>& values)
{
    using Z = typename Table<E>::Zserio;
    using U = std::underlying_type_t<E>;
    const int64_t value = ctx.pick(values);
    ctx.note(str(Table<E>::name(), " raw ", value));
    ctx.step();
    const Z raw = fromCheckedValue<Z>(static_cast<U>(value));
    std::string name;
    for (const auto& item : Table<E>::items())
    {
        if (static_cast<U>(item.second) == static_cast<U>(value))
        {
            name = item.first;
        }
    }
    BitBuffer buffer(100);
    BitStreamWriter writer(buffer);
    detail::write(writer, raw);
    BitStreamReader reader(buffer);
    E back{};
    const std::string error = thrown([&]() { detail::read(reader, back); });
    MC_REQUIRE(ctx, error == (name.empty() ? "library" : ""), "read-raw", "raw value ", value, " of item '", name, "': ", error);
    if (!name.empty())
    {
        MC_REQUIRE(ctx, enumToString(back) == name, "read-item", "raw value ", value, " reads as ", std::string(enumToString(back)), " instead of ", name);
    }
    else
    {
        std::string_view text;
        const std::string nameError = thrown([&]() { text = enumToString(static_cast<E>(static_cast<U>(value))); });
        MC_REQUIRE(ctx, nameError == "library", "name-of-unknown", "unknown value ", value, " has the name '", std::string(text), "' ", nameError);
    }
    ctx.state(str(Table<E>::name(), value));
}

std::vector<int64_t> range(int64_t from, int64_t to)
{
    std::vector<int64_t> out;
    for (int64_t v = from; v <= to; ++v)
    {
        out.push_back(v);
    }
    return out;
}

const std::vector<int64_t> allUInt16 = range(0, 65535);
const std::vector<int64_t> allVarInt16 = range(-16383, 16383);

// packed sequences of items
template <typename E>
void packedScenario(Ctx& ctx)
{
    const auto items = Table<E>::items();
    std::vector<E> sequence;
    const uint32_t length = 1 + ctx.choose(ctx.thorough() ? 6 : 5);
    std::string text;
    for (uint32_t i = 0; i < length; ++i)
    {
        const auto& item = ctx.pick(items);
        sequence.push_back(item.second);
        text += item.first + " ";
    }
    ctx.note(str(Table<E>::name(), " ", text));
    ctx.step();
    detail::DeltaContext viaEnum;
    detail::DeltaContext plain;
    for (E item : sequence)
    {
        detail::initContext(viaEnum, item);
        detail::initContext(plain, enumToValue(item));
    }
    detail::DeltaContext enumSize = viaEnum;
    detail::DeltaContext plainSize = plain;
    BitBuffer enumBuffer(2000);
    BitBuffer plainBuffer(2000);
    BitStreamWriter enumWriter(enumBuffer);
    BitStreamWriter plainWriter(plainBuffer);
    size_t size = 0;
    // sizes first as a caller has to
    for (E item : sequence)
    {
        const size_t a = static_cast<size_t>(detail::bitSizeOf(enumSize, item));
        const size_t b = static_cast<size_t>(detail::bitSizeOf(plainSize, enumToValue(item)));
        MC_REQUIRE(ctx, a == b, "packed-size", "packed item takes ", a, " bits instead of ", b);
        size += a;
    }
    viaEnum = detail::DeltaContext();
    plain = detail::DeltaContext();
    for (E item : sequence)
    {
        detail::initContext(viaEnum, item);
        detail::initContext(plain, enumToValue(item));
    }
    for (E item : sequence)
    {
        detail::write(viaEnum, enumWriter, item);
        detail::write(plain, plainWriter, enumToValue(item));
    }
    MC_REQUIRE(ctx, enumBuffer == plainBuffer && enumWriter.getBitPosition() == plainWriter.getBitPosition(), "packed-wire", "packed items are not written as their values");
    MC_REQUIRE(ctx, enumWriter.getBitPosition() == size, "packed-size", "packed items take ", enumWriter.getBitPosition(), " bits, announced ", size);
    BitStreamReader reader(enumBuffer);
    detail::DeltaContext readContext;
    for (E item : sequence)
    {
        E back{};
        detail::read(readContext, reader, back);
        MC_REQUIRE(ctx, back == item, "packed-read", "packed item ", rawText(item), " reads back as ", rawText(back));
    }
    ctx.state(str(Table<E>::name(), size));
}

// ---------------------------------------------------------------- bitmask operators

void operators(Ctx& ctx)
{
    const uint32_t a = ctx.choose(256);
    const ReflectableBitmask left(static_cast<UInt8>(static_cast<uint8_t>(a)));
    using V = ReflectableBitmask::Values;
    const auto value = [](const ReflectableBitmask& m) { return static_cast<uint32_t>(static_cast<uint8_t>(m.getValue())); };
    MC_REQUIRE(ctx, value(left) == a && static_cast<uint8_t>(static_cast<UInt8>(left)) == a, "value", "bitmask of ", a, " has the value ", value(left));
    MC_REQUIRE(ctx, value(~left) == (~a & 0xff), "not", "~", a, " is ", value(~left));
    MC_REQUIRE(ctx, value(ReflectableBitmask()) == 0, "default", "default bitmask is not 0");
    MC_REQUIRE(ctx, static_cast<uint8_t>(builtin::valueOf(left)) == a, "value-of", "valueof(", a, ")");
    for (uint32_t b = 0; b < 256; ++b)
    {
        ctx.cases();
        const ReflectableBitmask right(static_cast<UInt8>(static_cast<uint8_t>(b)));
        MC_REQUIRE(ctx, value(left | right) == (a | b) && value(left & right) == (a & b) && value(left ^ right) == (a ^ b), "binary", "binary operators of ", a, " and ", b);
        ReflectableBitmask c = left;
        c |= right;
        ReflectableBitmask d = left;
        d &= right;
        ReflectableBitmask e = left;
        e ^= right;
        MC_REQUIRE(ctx, value(c) == (a | b) && value(d) == (a & b) && value(e) == (a ^ b), "assigning", "assigning operators of ", a, " and ", b);
        MC_REQUIRE(ctx, (left == right) == (a == b) && (left != right) == (a != b) && (left < right) == (a < b) && (left <= right) == (a <= b) && (left > right) == (a > b) && (left >= right) == (a >= b),
                "compare", "comparisons of ", a, " and ", b);
        MC_REQUIRE(ctx, builtin::isSet(left, right) == ((a & b) == b), "is-set", "isset(", a, ", ", b, ") is ", builtin::isSet(left, right));
    }
    for (V item : {V::CREATE, V::READ, V::WRITE})
    {
        const uint32_t b = static_cast<uint32_t>(item);
        MC_REQUIRE(ctx, builtin::isSet(left, item) == ((a & b) == b), "is-set", "isset(", a, ", item ", b, ")");
        MC_REQUIRE(ctx, value(left | item) == (a | b) && value(left & item) == (a & b) && value(left ^ item) == (a ^ b) && value(~item) == (~b & 0xff), "item", "operators of ", a, " and item ", b);
    }
    std::string text;
    for (const auto& [bit, name] : std::vector<std::pair<uint32_t, std::string>>{{1, "CREATE"}, {2, "READ"}, {4, "WRITE"}})
    {
        if (a & bit)
        {
            text += (text.empty() ? "" : " | ") + name;
        }
    }
    MC_REQUIRE(ctx, std::string(left.toString().c_str()) == str(a, "[", text, "]"), "to-string", "text of ", a, " is ", left.toString());
    CppRuntimeException exception("<");
    exception << left << ">";
    MC_REQUIRE(ctx, std::string(exception.what()) == str("<", a, ">"), "message", "bitmask ", a, " is rendered ", exception.what());
    for (size_t shift = 0; shift < 8; ++shift)
    {
        BitBuffer buffer(24);
        BitStreamWriter writer(buffer);
        writer.writeUnsignedBits32(0, static_cast<uint8_t>(shift + 1));
        detail::write(writer, left);
        MC_REQUIRE(ctx, writer.getBitPosition() == shift + 9 && detail::bitSizeOf(left, shift) == 8U, "wire-size", "bitmask is written in ", writer.getBitPosition() - shift - 1, " bits");
        BitStreamReader reader(buffer);
        reader.setBitPosition(shift + 1);
        ReflectableBitmask back;
        detail::read(reader, back);
        MC_REQUIRE(ctx, value(back) == a, "read", "bitmask ", a, " reads back as ", value(back));
    }
    MC_REQUIRE(ctx, thrown([&]() { detail::validate(left, "field"); }).empty(), "validate", "bitmask ", a, " is refused");
    ctx.step();
    ctx.state(str(a));
}

// ---------------------------------------------------------------- item text of enumerations and bitmasks in JSON and tree creation

struct ItemSet
{
    const char* name;
    std::vector<ItemInfo> items;
    const IBasicTypeInfo<Alloc>* underlying;
    uint64_t mask; // of the type
    int64_t minimum = 0;
};

template <typename Z>
const IBasicTypeInfo<Alloc>* info()
{
    return &zserio::typeInfo<Z, Alloc>();
}

std::vector<ItemSet>& maskSets()
{
    static std::vector<ItemSet> sets = {
            {"flags", {{"A", 1, false, false}, {"B", 2, false, false}, {"C", 4, false, false}}, info<UInt8>(), 0xff},
            {"zero", {{"NONE", 0, false, false}, {"A", 1, false, false}, {"AB", 2, true, false}, {"NON", 128, false, true}}, info<UInt8>(), 0xff},
            {"overlap", {{"R", 1, false, false}, {"RW", 3, false, false}, {"RWX", 7, false, false}, {"_", 64, false, false}}, info<UInt8>(), 0xff},
            {"no-zero-bit", {{"HIGH", 0xf0, false, false}, {"LOW", 0x0f, false, false}, {"MID", 0x3c, false, false}}, info<UInt8>(), 0xff},
            {"wide", {{"low", 1, false, false}, {"top", 1ULL << 63, false, false}, {"some", 0xff00, false, false}}, info<UInt64>(), ~0ULL},
            {"three-bits", {{"X", 1, false, false}, {"Y", 4, false, false}}, info<UInt3>(), 0x07},
    };
    return sets;
}

struct Raw : public detail::ReflectableDataBase<Alloc>
{
    Raw(const IBasicTypeInfo<Alloc>& info, uint64_t value) :
            detail::ReflectableDataBase<Alloc>(info),
            m_value(value)
    {}
    uint64_t toUInt() const override { return m_value; }
    int64_t toInt() const override { return static_cast<int64_t>(m_value); }
    uint64_t m_value;
};

std::string jsonText(const IBasicTypeInfo<Alloc>& info, uint64_t value)
{
    const BasicFieldInfo<Alloc> field{"field", info, {}, false, {}, {}, {}, false, {}, {}, false, {}, false, false};
    std::ostringstream os;
    BasicJsonWriter<Alloc> writer(os);
    const auto data = std::make_shared<Raw>(info, value);
    static_cast<IBasicWalkObserver<Alloc>&>(writer).visitValue(data, field, 0);
    return os.str();
}

std::string unquoted(Ctx& ctx, const std::string& text)
{
    MC_REQUIRE(ctx, text.size() >= 2 && text.front() == '"' && text.back() == '"', "quotes", "text ", text, " is not a JSON string");
    return text.substr(1, text.size() - 2);
}

template <typename T>
uint64_t anyValue(Ctx& ctx, const BasicAny<Alloc>& any)
{
    MC_REQUIRE(ctx, any.isType<T>(), "any-type", "item text does not give a value of the underlying type");
    return static_cast<uint64_t>(any.get<T>());
}

uint64_t valueOfAny(Ctx& ctx, const IBasicTypeInfo<Alloc>& info, const BasicAny<Alloc>& any)
{
    switch (info.getUnderlyingType().getCppType())
    {
    case CppType::UINT8:
        return anyValue<uint8_t>(ctx, any);
    case CppType::UINT16:
        return anyValue<uint16_t>(ctx, any);
    case CppType::UINT64:
        return anyValue<uint64_t>(ctx, any);
    case CppType::INT8:
        return anyValue<int8_t>(ctx, any);
    case CppType::INT64:
        return anyValue<int64_t>(ctx, any);
    default:
        ctx.fail("any-type", "underlying type not handled");
    }
}

// what tree creation makes of the text, as one overload
std::string created(Ctx& ctx, const IBasicTypeInfo<Alloc>& info, const std::string& text, uint32_t overload, uint64_t& value)
{
    return thrown([&]() {
        std::vector<char> exact(text.begin(), text.end());
        BasicAny<Alloc> any;
        if (overload == 0)
        {
            any = detail::makeAnyValue(info, std::string_view(exact.data(), exact.size()), Alloc());
        }
        else if (overload == 1)
        {
            any = detail::makeAnyValue(info, String(text.begin(), text.end()), Alloc());
        }
        else
        {
            any = detail::makeAnyValue(info, text.c_str(), Alloc());
        }
        value = valueOfAny(ctx, info, any);
    });
}

void maskText(Ctx& ctx)
{
    const ItemSet& set = ctx.pick(maskSets());
    const detail::BitmaskTypeInfo<Alloc> info("mask", *set.underlying, set.items);
    std::vector<uint64_t> values;
    for (uint64_t v = 0; v < (set.mask > 0xff ? 256 : set.mask + 1); ++v)
    {
        values.push_back(v);
    }
    if (set.mask > 0xff)
    {
        for (uint64_t v : {1ULL << 63, (1ULL << 63) + 1, (1ULL << 63) + 0xff00, (1ULL << 63) + 0xff01, 0xff00ULL, 0xff01ULL, ~0ULL, 0xfe00ULL, 1ULL << 32})
        {
            values.push_back(v);
        }
    }
    const uint64_t value = ctx.pick(values);
    ctx.note(str("bitmask ", set.name, " value ", value));
    ctx.step();
    // reference: the items fully contained in the value, in order
    std::string names;
    uint64_t covered = 0;
    for (const ItemInfo& item : set.items)
    {
        if (item.value == 0 ? value == 0 : (value & item.value) == item.value)
        {
            names += (names.empty() ? "" : " | ") + std::string(item.schemaName);
            covered |= item.value;
        }
    }
    const std::string number = std::to_string(value);
    const std::string expected = names.empty() ? number + " /* no match */" : covered != value ? number + " /* partial match: " + names + " */" : names;
    const std::string text = unquoted(ctx, jsonText(info, value));
    MC_REQUIRE(ctx, text == expected, "mask-text", "text of ", value, " is '", text, "' instead of '", expected, "'");
    for (uint32_t overload = 0; overload < 3; ++overload)
    {
        uint64_t back = ~value;
        const std::string error = created(ctx, info, text, overload, back);
        MC_REQUIRE(ctx, error.empty() && back == value, "mask-back", "text '", text, "' of ", value, " is read as ", back, " ", error);
    }
    ctx.state(str(set.name, text));
}

// every text of a few pieces
void maskParse(Ctx& ctx)
{
    const ItemSet& set = ctx.pick(maskSets());
    const detail::BitmaskTypeInfo<Alloc> info("mask", *set.underlying, set.items);
    std::vector<std::string> pieces = {"", "Z", "_", " ", " | ", "|"};
    for (const ItemInfo& item : set.items)
    {
        pieces.emplace_back(item.schemaName);
    }
    std::string text;
    std::vector<std::string> parts;
    const uint32_t length = ctx.thorough() ? 6 : 5;
    for (uint32_t i = 0; i < length; ++i)
    {
        const uint32_t piece = ctx.choose(static_cast<uint32_t>(pieces.size()));
        if (piece == 0)
        {
            break;
        }
        text += pieces[piece];
    }
    ctx.note(str("bitmask ", set.name, " text '", text, "'"));
    ctx.step();
    // reference: names separated by '|' with any spaces around it; texts the documentation leaves open (separators
    // missing between names, repeated or trailing) are only required not to give a wrong value
    uint64_t expected = 0;
    bool wellFormed = true;
    bool namesKnown = true;
    std::vector<std::string> words(1);
    for (char c : text)
    {
        if (c == ' ' || c == '|')
        {
            if (!words.back().empty())
            {
                words.emplace_back();
            }
        }
        else
        {
            words.back() += c;
        }
    }
    if (words.back().empty())
    {
        words.pop_back();
    }
    for (const std::string& word : words)
    {
        bool known = false;
        for (const ItemInfo& item : set.items)
        {
            if (item.schemaName == word)
            {
                expected |= item.value;
                known = true;
            }
        }
        namesKnown = namesKnown && known;
    }
    std::string canonical;
    for (const std::string& word : words)
    {
        canonical += (canonical.empty() ? "" : "|") + word;
    }
    std::string noSpaces;
    for (char c : text)
    {
        if (c != ' ')
        {
            noSpaces += c;
        }
    }
    wellFormed = namesKnown && !words.empty() && noSpaces == canonical && text.front() != ' ' && text.back() != ' ';
    uint64_t got = 0;
    const std::string error = created(ctx, info, text, ctx.choose(3), got);
    MC_REQUIRE(ctx, error.empty() || error == "library", "parse-exception", "text '", text, "': ", error);
    if (wellFormed)
    {
        MC_REQUIRE(ctx, error.empty() && got == expected, "parse-value", "text '", text, "' is read as ", got, " instead of ", expected, " ", error);
    }
    else if (!namesKnown || words.empty())
    {
        MC_REQUIRE(ctx, error == "library", "parse-unknown", "text '", text, "' is read as ", got);
    }
    else if (error.empty())
    {
        MC_REQUIRE(ctx, got == expected, "parse-lenient", "text '", text, "' is read as ", got, " instead of ", expected);
    }
    ctx.state(str(set.name, text));
}

void maskNumbers(Ctx& ctx)
{
    const ItemSet& set = ctx.pick(maskSets());
    const detail::BitmaskTypeInfo<Alloc> info("mask", *set.underlying, set.items);
    const std::vector<std::string> texts = {"0", "1", "7", "8", "255", "256", "65535", "4294967296", "9223372036854775807", "9223372036854775808",
            "18446744073709551615", "18446744073709551616", "99999999999999999999", "-1", "+1", " 1", "1 /* no match */", "x1"};
    const std::vector<int> sizes = {1, 1, 1, 4, 8, 9, 16, 33, 63, 64, 64, 65, 67, -1, -1, -1, 1, -1};
    const uint32_t which = ctx.choose(static_cast<uint32_t>(texts.size()));
    const std::string& text = texts[which];
    const int storage = set.mask > 0xff ? 64 : 8; // values are checked against the C++ type first, the schema range is checked when written
    const bool fits = sizes[which] > 0 && sizes[which] <= storage;
    ctx.note(str("bitmask ", set.name, " text '", text, "'"));
    ctx.step();
    uint64_t got = 0;
    const std::string error = created(ctx, info, text, ctx.choose(3), got);
    MC_REQUIRE(ctx, error == (fits ? "" : "library"), "number-refused", "text '", text, "' for ", storage, " bits: ", error, " value ", got);
    if (fits)
    {
        MC_REQUIRE(ctx, got == std::strtoull(text.c_str(), nullptr, 10), "number", "text '", text, "' is read as ", got);
    }
    ctx.state(str(set.name, text));
}

std::vector<ItemSet>& enumSets()
{
    static std::vector<ItemSet> sets = {
            {"unsigned", {{"ZERO", 0, false, false}, {"ONE", 1, false, false}, {"ON", 2, true, false}, {"LAST", 255, false, true}}, info<UInt8>(), 0xff},
            {"signed", {{"LOW", static_cast<uint64_t>(-128), false, false}, {"MINUS", static_cast<uint64_t>(-1), false, false}, {"_", 127, false, false}}, info<Int8>(), 0xff, -128},
            {"wide", {{"one", 1, false, false}, {"top", ~0ULL, false, false}}, info<UInt64>(), ~0ULL},
            {"wide-signed", {{"min", 1ULL << 63, false, false}, {"minus", ~0ULL, false, false}, {"max", ~0ULL >> 1, false, false}}, info<Int64>(), ~0ULL, std::numeric_limits<int64_t>::min()},
    };
    return sets;
}

void enumText(Ctx& ctx)
{
    const ItemSet& set = ctx.pick(enumSets());
    const detail::EnumTypeInfo<Alloc> info("enumeration", *set.underlying, set.items);
    std::vector<uint64_t> values;
    for (int64_t v = set.minimum < 0 ? -128 : 0; v < (set.minimum < 0 ? 128 : 256); ++v)
    {
        values.push_back(static_cast<uint64_t>(v));
    }
    if (set.mask > 0xff)
    {
        for (uint64_t v : {1ULL << 63, ~0ULL, ~0ULL >> 1, (1ULL << 63) + 1, ~0ULL - 1})
        {
            values.push_back(v);
        }
    }
    const uint64_t value = ctx.pick(values);
    ctx.note(str("enum ", set.name, " value ", value));
    ctx.step();
    std::string name;
    for (const ItemInfo& item : set.items)
    {
        if (item.value == value)
        {
            name = std::string(item.schemaName);
        }
    }
    const std::string number = set.minimum < 0 ? std::to_string(static_cast<int64_t>(value)) : std::to_string(value);
    const std::string expected = name.empty() ? number + " /* no match */" : name;
    const std::string text = unquoted(ctx, jsonText(info, value));
    MC_REQUIRE(ctx, text == expected, "enum-text", "text of ", number, " is '", text, "' instead of '", expected, "'");
    uint64_t back = 0;
    const std::string error = created(ctx, info, text, ctx.choose(3), back);
    MC_REQUIRE(ctx, error == (name.empty() ? "library" : ""), "enum-back", "text '", text, "': ", error);
    if (!name.empty())
    {
        MC_REQUIRE(ctx, back == value, "enum-back", "text '", text, "' is read as ", static_cast<int64_t>(back));
    }
    ctx.state(str(set.name, text));
}

void enumParse(Ctx& ctx)
{
    const ItemSet& set = ctx.pick(enumSets());
    const detail::EnumTypeInfo<Alloc> info("enumeration", *set.underlying, set.items);
    std::vector<std::string> pieces = {"", "E", "_", " ", "1", "|"};
    for (const ItemInfo& item : set.items)
    {
        pieces.emplace_back(item.schemaName);
        pieces.emplace_back(item.schemaName.substr(0, item.schemaName.size() - 1));
    }
    std::string text;
    for (uint32_t i = 0; i < 3; ++i)
    {
        const uint32_t piece = ctx.choose(static_cast<uint32_t>(pieces.size()));
        if (piece == 0)
        {
            break;
        }
        text += pieces[piece];
    }
    ctx.note(str("enum ", set.name, " text '", text, "'"));
    ctx.step();
    uint64_t got = 0;
    const std::string error = created(ctx, info, text, ctx.choose(3), got);
    for (const ItemInfo& item : set.items)
    {
        if (item.schemaName == text)
        {
            MC_REQUIRE(ctx, error.empty() && got == item.value, "parse-value", "text '", text, "' is read as ", got, " ", error);
            return;
        }
    }
    MC_REQUIRE(ctx, error == "library", "parse-unknown", "text '", text, "' is read as ", got, " ", error);
    ctx.state(str(set.name, text));
}

// ---------------------------------------------------------------- expression operator numbits

void numBits(Ctx& ctx)
{
    std::vector<uint64_t> values;
    for (uint64_t v = 0; v <= 4100; ++v)
    {
        values.push_back(v);
    }
    for (uint32_t shift = 13; shift < 64; ++shift)
    {
        for (int64_t d = -2; d <= 2; ++d)
        {
            values.push_back((1ULL << shift) + static_cast<uint64_t>(d));
        }
    }
    values.push_back(~0ULL);
    values.push_back(~0ULL - 1);
    const uint64_t value = ctx.pick(values);
    // number of bits needed for the values 0..value-1, at least one when there is a value
    uint32_t expected = value == 0 ? 0 : 1;
    while (value != 0 && expected < 64 && (1ULL << expected) < value)
    {
        ++expected;
    }
    ctx.step();
    MC_REQUIRE(ctx, builtin::numBits(value) == expected, "numbits", "numbits(", value, ") is ", +builtin::numBits(value), " instead of ", expected);
}

// every identifier can be a name: each first character with several continuations
void everyName(Ctx& ctx)
{
    static const std::string firsts = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_";
    static const std::string others = firsts + "0123456789";
    const char first = firsts[ctx.choose(static_cast<uint32_t>(firsts.size()))];
    const bool isMask = ctx.flip();
    const uint32_t more = ctx.choose(3); // further characters
    std::vector<std::string> names;
    if (more == 0)
    {
        names.emplace_back(1, first);
    }
    for (char other : others)
    {
        if (more == 1)
        {
            names.push_back({first, other});
        }
        else if (more == 2)
        {
            names.push_back({first, 'x', other, '9'});
        }
    }
    for (const std::string& name : names)
    {
        const std::vector<ItemInfo> items = {{"OTHER", 1, false, false}, {name, 2, false, false}, {"last", 4, false, false}};
        const detail::BitmaskTypeInfo<Alloc> maskInfo("mask", *info<UInt8>(), items);
        const detail::EnumTypeInfo<Alloc> enumInfo("enumeration", *info<UInt8>(), items);
        const IBasicTypeInfo<Alloc>& type = isMask ? static_cast<const IBasicTypeInfo<Alloc>&>(maskInfo) : enumInfo;
        ctx.note(str(isMask ? "bitmask" : "enumeration", " item '", name, "'"));
        const std::string text = unquoted(ctx, jsonText(type, 2));
        MC_REQUIRE(ctx, text == name, "name-text", "text of '", name, "' is '", text, "'");
        std::vector<std::pair<std::string, uint64_t>> texts = {{name, 2}};
        if (isMask)
        {
            texts.push_back({name + " | last", 6});
            texts.push_back({"OTHER | " + name, 3});
        }
        for (const auto& [given, value] : texts)
        {
            for (uint32_t overload = 0; overload < 3; ++overload)
            {
                uint64_t back = 255;
                const std::string error = created(ctx, type, given, overload, back);
                MC_REQUIRE(ctx, error.empty() && back == value, "name-back", "'", given, "' is read as ", back, " ", error);
                ctx.step();
            }
        }
        for (const std::string& unknown : {name + "?", "?" + name, name + name + "0", "1" + name})
        {
            uint64_t back = 255;
            const std::string error = created(ctx, type, unknown, 0, back);
            MC_REQUIRE(ctx, !error.empty(), "unknown-name", "'", unknown, "' is read as ", back);
            ctx.step();
        }
        ctx.cases();
    }
    ctx.state(str(isMask, first, more));
}

} // namespace

int main(int argc, char** argv)
{
    const int64_t min64 = std::numeric_limits<int64_t>::min();
    const int64_t max64 = std::numeric_limits<int64_t>::max();
    return mc::run(argc, argv,
            {
                    {"items-3-bits", enumScenario<EBits3>, 1},
                    {"items-int8", enumScenario<EInt8>, 1},
                    {"items-int5", enumScenario<EInt5>, 1},
                    {"items-uint16", enumScenario<EUInt16>, 1},
                    {"items-int64", enumScenario<EInt64>, 1},
                    {"items-uint64", enumScenario<EUInt64>, 1},
                    {"items-varuint", enumScenario<EVarUInt>, 1},
                    {"items-varint16", enumScenario<EVarInt16>, 1},
                    {"items-varsize", enumScenario<EVarSize>, 1},
                    {"items-generated", enumScenario<ReflectableEnum>, 1},
                    {"raw-3-bits", [](Ctx& ctx) { rawScenario<EBits3>(ctx, range(0, 7)); }, 1},
                    {"raw-int8", [](Ctx& ctx) { rawScenario<EInt8>(ctx, range(-128, 127)); }, 1},
                    {"raw-int5", [](Ctx& ctx) { rawScenario<EInt5>(ctx, range(-16, 15)); }, 1},
                    {"raw-uint16", [](Ctx& ctx) { rawScenario<EUInt16>(ctx, allUInt16); }, 1},
                    {"raw-int64", [=](Ctx& ctx) { rawScenario<EInt64>(ctx, {min64, min64 + 1, -1, 0, 1, 2, max64 - 1, max64}); }, 1},
                    {"raw-uint64", [=](Ctx& ctx) { rawScenario<EUInt64>(ctx, {0, 1, 2, min64, min64 + 1, -1, -2, max64}); }, 1},
                    {"raw-varuint", [=](Ctx& ctx) { rawScenario<EVarUInt>(ctx, {0, 1, 127, 128, 129, min64, -1, -2}); }, 1},
                    {"raw-varint16", [](Ctx& ctx) { rawScenario<EVarInt16>(ctx, allVarInt16); }, 1},
                    {"raw-varsize", [](Ctx& ctx) { rawScenario<EVarSize>(ctx, {0, 1, 127, 128, (1 << 21) - 1, 1 << 21, (1LL << 31) - 2, (1LL << 31) - 1}); }, 1},
                    {"raw-generated", [](Ctx& ctx) { rawScenario<ReflectableEnum>(ctx, range(-128, 127)); }, 1},
                    {"packed-3-bits", packedScenario<EBits3>},
                    {"packed-int8", packedScenario<EInt8>},
                    {"packed-int64", packedScenario<EInt64>},
                    {"packed-uint64", packedScenario<EUInt64>},
                    {"packed-varint16", packedScenario<EVarInt16>},
                    {"bitmask-operators", operators, 1},
                    {"bitmask-text", maskText},
                    {"bitmask-parse", maskParse, 3},
                    {"bitmask-numbers", maskNumbers},
                    {"enum-text", enumText},
                    {"enum-parse", enumParse},
                    {"every-name", everyName},
                    {"numbits", numBits, 1},
            });
}
