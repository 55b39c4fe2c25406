// C06: range checks of every numeric type.
// mc: level=model_checking
#include <algorithm>
#include <functional>
#include <memory>
#include <set>
#include <utility>

#include "mc.h"
#include "zserio/ArrayView.h"
#include "zserio/BitFieldUtil.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/BuiltInOperators.h"
#include "zserio/Bytes.h"
#include "zserio/OutOfRangeException.h"
#include "zserio/SizeConvertUtil.h"
#include "zserio/String.h"
#include "zserio/Types.h"
#include "zserio/Bitmasks.h"
#include "zserio/Enums.h"
#include "zserio/View.h"

using namespace zserio;
using mc::Ctx;
using mc::str;
namespace zd = zserio::detail;
using Wide = __int128;

namespace
{

std::string text(Wide v)
{
    if (v < 0)
    {
        return "-" + text(-v);
    }
    std::string s;
    do
    {
        s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
        v /= 10;
    } while (v != 0);
    return s;
}

constexpr Wide one = 1;

// all values of a small type; of a larger one those around every power of two, or a sweep around its own range
template <typename V, size_t ALL_UP_TO = 2>
const std::vector<V>& alphabet()
{
    static const std::vector<V> values = [] {
        const Wide lo = std::numeric_limits<V>::min();
        const Wide hi = std::numeric_limits<V>::max();
        std::set<V> result;
        if (sizeof(V) <= ALL_UP_TO)
        {
            for (Wide v = lo; v <= hi; ++v)
            {
                result.insert(static_cast<V>(v));
            }
        }
        else
        {
            for (int bit = 0; bit <= 64; ++bit)
            {
                for (int sign = -1; sign <= 1; sign += 2)
                {
                    for (Wide delta = -3; delta <= 3; ++delta)
                    {
                        const Wide v = sign * (one << bit) + delta;
                        if (v >= lo && v <= hi)
                        {
                            result.insert(static_cast<V>(v));
                        }
                    }
                }
            }
        }
        return std::vector<V>(result.begin(), result.end());
    }();
    return values;
}

enum Outcome
{
    ACCEPTED,
    RANGE, // out of range exception
    OTHER // another exception of the library
};

// not inlined: clang 18 was seen to lose the exception pointer when a 16 bit result crosses the landing pad
__attribute__((noinline)) Outcome outcome(const std::function<void()>& f)
{
    try
    {
        f();
        return ACCEPTED;
    }
    catch (const OutOfRangeException&)
    {
        return RANGE;
    }
    catch (const CppRuntimeException&)
    {
        return OTHER;
    }
}

void check(Ctx& ctx, Outcome got, bool inside, const char* what, const std::string& where, bool exact)
{
    ctx.step();
    MC_REQUIRE(ctx, (got == ACCEPTED) == inside, inside ? "inside-rejected" : "outside-accepted", what, " ", where);
    MC_REQUIRE(ctx, inside || !exact || got == RANGE, "exception-type", what, " ", where);
}

template <typename T>
void written(Ctx& ctx, T value, bool inside, const std::string& where)
{
    uint8_t memory[10];
    BitStreamWriter writer(memory, sizeof(memory));
    check(ctx, outcome([&] { zd::write(writer, value); }), inside, "write", where, false);
    BitStreamWriter counter(nullptr, 0);
    check(ctx, outcome([&] { zd::write(counter, value); }), inside, "write without buffer", where, false);
    if (inside)
    {
        BitStreamReader reader(memory, writer.getBitPosition(), BitsTag());
        T back;
        zd::read(reader, back);
        MC_REQUIRE(ctx, back == value, "written-value", where, " read back as ", text(back));
    }
    else
    {
        MC_REQUIRE(ctx, writer.getBitPosition() == 0 && counter.getBitPosition() == 0, "rejected-write-moves", where);
    }
}

// a type with the range lo to hi
template <typename T>
void ranged(Ctx& ctx, const char* name, Wide lo, Wide hi, bool writeChecks = true)
{
    using V = typename T::ValueType;
    MC_REQUIRE(ctx, Wide(V(NumericLimits<T>::min())) == lo, "limits", name, " minimum ",
            text(V(NumericLimits<T>::min())), " expected ", text(lo));
    MC_REQUIRE(ctx, Wide(V(NumericLimits<T>::max())) == hi, "limits", name, " maximum ",
            text(V(NumericLimits<T>::max())), " expected ", text(hi));
    for (const V value : alphabet<V>())
    {
        const bool inside = Wide(value) >= lo && Wide(value) <= hi;
        const std::string where = str(text(value), " as ", name);
        ctx.note(where);
        V kept{};
        check(ctx, outcome([&] { kept = fromCheckedValue<T>(value); }), inside, "fromCheckedValue", where, true);
        MC_REQUIRE(ctx, !inside || kept == value, "value", where, " became ", text(kept));
        check(ctx, outcome([&] { kept = toCheckedValue(T(value)); }), inside, "toCheckedValue", where, true);
        MC_REQUIRE(ctx, !inside || kept == value, "value", where, " became ", text(kept));
        check(ctx, outcome([&] { zd::validate(T(value), "field"); }), inside, "validate", where, true);
        if (writeChecks)
        {
            written(ctx, T(value), inside, where);
            check(ctx, outcome([&] { (void)zd::bitSizeOf(T(value), 0); }), inside, "bitSizeOf",
                    where, false);
        }
        // inside an array
        std::vector<T> values = {T(0), T(value), T(0)};
        const ArrayView<const T> array(values);
        check(ctx, outcome([&] { zd::validate<zd::ArrayType::AUTO>(array, "field"); }), inside, "validate array",
                where, true);
        ctx.state(Ctx::mix(Ctx::hashOf(name), static_cast<uint64_t>(value)));
    }
    ctx.cases(alphabet<V>().size());
}

// what the checks need of a type, the values given as 64 bits
struct Fixed
{
    size_t valueSize;
    bool isSigned;
    Wide lo, hi;
    uint64_t (*from)(uint64_t);
    uint64_t (*to)(uint64_t);
    void (*validate)(uint64_t);
    void (*validateArray)(uint64_t);
    void (*write)(BitStreamWriter&, uint64_t);
    uint64_t (*read)(BitStreamReader&);
};

template <typename T>
struct Thunks
{
    using V = typename T::ValueType;
    static uint64_t from(uint64_t v) { return static_cast<uint64_t>(V(fromCheckedValue<T>(static_cast<V>(v)))); }
    static uint64_t to(uint64_t v) { return static_cast<uint64_t>(toCheckedValue(T(static_cast<V>(v)))); }
    static void validate(uint64_t v) { zd::validate(T(static_cast<V>(v)), "field"); }
    static void validateArray(uint64_t v)
    {
        const T values[] = {T(0), T(static_cast<V>(v)), T(0)};
        zd::validate<zd::ArrayType::AUTO>(ArrayView<const T>(Span<const T>(values, 3)), "field");
    }
    static void write(BitStreamWriter& writer, uint64_t v) { zd::write(writer, T(static_cast<V>(v))); }
    static uint64_t read(BitStreamReader& reader)
    {
        T value;
        zd::read(reader, value);
        return static_cast<uint64_t>(V(value));
    }
    static Fixed make()
    {
        return {sizeof(V), std::is_signed_v<V>, V(NumericLimits<T>::min()), V(NumericLimits<T>::max()), from, to,
                validate, validateArray, write, read};
    }
};

template <size_t... I>
std::vector<Fixed> fixedTypes(bool isSigned, std::index_sequence<I...>)
{
    return isSigned ? std::vector<Fixed>{Thunks<Int<I + 1>>::make()...}
                    : std::vector<Fixed>{Thunks<UInt<I + 1>>::make()...};
}

template <typename V>
void fixedValues(Ctx& ctx, const Fixed& type, size_t bits, const std::string& name, Wide lo, Wide hi)
{
    for (const V v : alphabet<V>())
    {
        const uint64_t value = static_cast<uint64_t>(v);
        const bool inside = Wide(v) >= lo && Wide(v) <= hi;
        const std::string where = str(text(v), " as ", name);
        ctx.note(where);
        uint64_t kept = 0;
        check(ctx, outcome([&] { kept = type.from(value); }), inside, "fromCheckedValue", where, true);
        MC_REQUIRE(ctx, !inside || kept == value, "value", where, " became ", kept);
        check(ctx, outcome([&] { kept = type.to(value); }), inside, "toCheckedValue", where, true);
        MC_REQUIRE(ctx, !inside || kept == value, "value", where, " became ", kept);
        check(ctx, outcome([&] { type.validate(value); }), inside, "validate", where, true);
        check(ctx, outcome([&] { type.validateArray(value); }), inside, "validate array", where, true);
        uint8_t memory[10];
        BitStreamWriter writer(memory, sizeof(memory));
        check(ctx, outcome([&] { type.write(writer, value); }), inside, "write", where, false);
        BitStreamWriter counter(nullptr, 0);
        check(ctx, outcome([&] { type.write(counter, value); }), inside, "write without buffer", where, false);
        MC_REQUIRE(ctx, writer.getBitPosition() == (inside ? bits : 0), "position", where);
        MC_REQUIRE(ctx, counter.getBitPosition() == (inside ? bits : 0), "position", where);
        if (inside)
        {
            BitStreamReader reader(memory, bits, BitsTag());
            kept = type.read(reader);
            MC_REQUIRE(ctx, kept == value, "written-value", where, " read back as ", kept);
        }
        ctx.state(Ctx::mix(Ctx::hashOf(name), value));
    }
    ctx.cases(alphabet<V>().size());
}

void fixedWidths(Ctx& ctx)
{
    static const std::vector<Fixed> types[2] = {fixedTypes(false, std::make_index_sequence<64>()),
            fixedTypes(true, std::make_index_sequence<64>())};
    const size_t bits = 1 + ctx.choose(64);
    const bool isSigned = ctx.flip();
    const Fixed& type = types[isSigned][bits - 1];
    const std::string name = str(isSigned ? "int" : "uint", bits);
    const Wide lo = isSigned ? -(one << (bits - 1)) : 0;
    const Wide hi = isSigned ? (one << (bits - 1)) - 1 : (one << bits) - 1;
    const size_t size = bits <= 8 ? 1 : bits <= 16 ? 2 : bits <= 32 ? 4 : 8;
    MC_REQUIRE(ctx, type.valueSize == size && type.isSigned == isSigned, "value-type", name);
    MC_REQUIRE(ctx, type.lo == lo && type.hi == hi, "limits", name, " from ", text(type.lo), " to ", text(type.hi));
    switch (size)
    {
    case 1:
        isSigned ? fixedValues<int8_t>(ctx, type, bits, name, lo, hi)
                 : fixedValues<uint8_t>(ctx, type, bits, name, lo, hi);
        break;
    case 2:
        isSigned ? fixedValues<int16_t>(ctx, type, bits, name, lo, hi)
                 : fixedValues<uint16_t>(ctx, type, bits, name, lo, hi);
        break;
    case 4:
        isSigned ? fixedValues<int32_t>(ctx, type, bits, name, lo, hi)
                 : fixedValues<uint32_t>(ctx, type, bits, name, lo, hi);
        break;
    default:
        isSigned ? fixedValues<int64_t>(ctx, type, bits, name, lo, hi)
                 : fixedValues<uint64_t>(ctx, type, bits, name, lo, hi);
    }
    if (ctx.wantSample())
    {
        ctx.sample(name);
    }
}

void variableWidths(Ctx& ctx)
{
    switch (ctx.choose(9))
    {
    case 0:
        return ranged<VarInt16>(ctx, "varint16", -((one << 14) - 1), (one << 14) - 1);
    case 1:
        return ranged<VarInt32>(ctx, "varint32", -((one << 28) - 1), (one << 28) - 1);
    case 2:
        return ranged<VarInt64>(ctx, "varint64", -((one << 56) - 1), (one << 56) - 1);
    case 3:
        return ranged<VarInt>(ctx, "varint", INT64_MIN, INT64_MAX);
    case 4:
        return ranged<VarUInt16>(ctx, "varuint16", 0, (one << 15) - 1);
    case 5:
        return ranged<VarUInt32>(ctx, "varuint32", 0, (one << 29) - 1);
    case 6:
        return ranged<VarUInt64>(ctx, "varuint64", 0, (one << 57) - 1);
    case 7:
        return ranged<VarUInt>(ctx, "varuint", 0, (one << 64) - 1);
    default:
        return ranged<VarSize>(ctx, "varsize", 0, (one << 31) - 1);
    }
}

struct Owner
{
    BitSize bits = 0;
};

template <typename T>
struct Traits
{
    using OwnerType = Owner;
    static View<T> at(const Owner& owner, const T& element, size_t)
    {
        return View<T>(element, owner.bits);
    }
};

// bit fields whose width is known at run time only, valid and invalid widths
template <typename V>
void dynamicWidth(Ctx& ctx)
{
    using T = zd::DynIntWrapper<V>;
    const bool isSigned = std::is_signed_v<V>;
    const std::vector<BitSize> invalid = {0, 65, 66, 72, 128, 255, 256, 257, 264, 65536 + 8, (1ULL << 32) + 8, SIZE_MAX};
    const uint32_t choice = ctx.choose(static_cast<uint32_t>(64 + invalid.size()));
    const BitSize bits = choice < 64 ? choice + 1 : invalid[choice - 64];
    const bool valid = bits >= 1 && bits <= sizeof(V) * 8;
    const Wide lo = !valid ? 0 : isSigned ? -(one << (bits - 1)) : 0;
    const Wide hi = !valid ? 0 : isSigned ? (one << (bits - 1)) - 1 : (one << bits) - 1;
    const std::string name = str(isSigned ? "int" : "uint", sizeof(V) * 8, " of ", bits, " bits");
    ctx.note(name);
    V limit{};
    check(ctx, outcome([&] { limit = NumericLimits<T>::max(bits); }), valid, "maximum", name, true);
    MC_REQUIRE(ctx, !valid || Wide(limit) == hi, "limits", name, " maximum ", text(limit));
    if (isSigned || valid)
    {
        check(ctx, outcome([&] { limit = NumericLimits<T>::min(bits); }), valid, "minimum", name, true);
        MC_REQUIRE(ctx, !valid || Wide(limit) == lo, "limits", name, " minimum ", text(limit));
    }
    for (const V value : ctx.thorough() ? alphabet<V, 2>() : alphabet<V, 1>())
    {
        const bool inside = valid && Wide(value) >= lo && Wide(value) <= hi;
        const std::string where = str(text(value), " as ", name);
        ctx.note(where);
        V kept{};
        check(ctx, outcome([&] { kept = fromCheckedValue<T>(value, bits); }), inside, "fromCheckedValue", where, true);
        MC_REQUIRE(ctx, !inside || kept == value, "value", where, " became ", text(kept));
        check(ctx, outcome([&] { kept = toCheckedValue(T(value), bits); }), inside, "toCheckedValue", where, true);
        MC_REQUIRE(ctx, !inside || kept == value, "value", where, " became ", text(kept));
        check(ctx, outcome([&] { zd::validate(T(value), bits, "field"); }), inside, "validate", where, true);
        if (valid)
        {
            const View<T> view(T(value), bits);
            MC_REQUIRE(ctx, view.numBits() == bits && view.value() == value, "view", where);
            check(ctx, outcome([&] { zd::validate(view, "field"); }), inside, "validate view", where, true);
            uint8_t memory[8];
            BitStreamWriter writer(memory, sizeof(memory));
            check(ctx, outcome([&] { zd::write(writer, T(value), static_cast<uint8_t>(bits)); }), inside, "write", where,
                    false);
            if (inside)
            {
                BitStreamReader reader(memory, bits, BitsTag());
                T back;
                zd::read(reader, back, static_cast<uint8_t>(bits));
                MC_REQUIRE(ctx, back == value, "written-value", where, " read back as ", text(back));
            }
            std::vector<T> values = {T(0), T(value), T(0)};
            const ArrayView<const T, Traits<T>> array(values, Owner{bits});
            check(ctx, outcome([&] { zd::validate<zd::ArrayType::AUTO>(array, "field"); }), inside, "validate array",
                    where, true);
        }
        ctx.state(Ctx::mix(Ctx::hashOf(name), static_cast<uint64_t>(value)));
    }
    ctx.cases(alphabet<V>().size());
}

void dynamicWidths(Ctx& ctx)
{
    switch (ctx.choose(8))
    {
    case 0:
        return dynamicWidth<int8_t>(ctx);
    case 1:
        return dynamicWidth<int16_t>(ctx);
    case 2:
        return dynamicWidth<int32_t>(ctx);
    case 3:
        return dynamicWidth<int64_t>(ctx);
    case 4:
        return dynamicWidth<uint8_t>(ctx);
    case 5:
        return dynamicWidth<uint16_t>(ctx);
    case 6:
        return dynamicWidth<uint32_t>(ctx);
    default:
        return dynamicWidth<uint64_t>(ctx);
    }
}

// the bit operations of writer and reader with every number of bits that can be passed
void rawBits(Ctx& ctx)
{
    const uint32_t bits = ctx.choose(256);
    uint8_t memory[8];
    auto run = [&](const char* name, unsigned most, bool isSigned, auto value, auto write, auto read) {
        const bool valid = bits >= 1 && bits <= most;
        const Wide lo = !valid || !isSigned ? 0 : -(one << (bits - 1));
        const Wide hi = !valid ? 0 : isSigned ? (one << (bits - 1)) - 1 : (one << bits) - 1;
        const bool inside = valid && Wide(value) >= lo && Wide(value) <= hi;
        const std::string where = str(name, " ", text(value), " in ", bits, " bits");
        ctx.note(where);
        std::memset(memory, 0xa5, sizeof(memory));
        BitStreamWriter writer(memory, sizeof(memory));
        check(ctx, outcome([&] { write(writer, value, static_cast<uint8_t>(bits)); }), inside, "write", where, false);
        MC_REQUIRE(ctx, writer.getBitPosition() == (inside ? bits : 0), "position", where, ": ",
                writer.getBitPosition());
        if (inside)
        {
            BitStreamReader reader(memory, bits, BitsTag());
            const auto back = read(reader, static_cast<uint8_t>(bits));
            MC_REQUIRE(ctx, back == value, "written-value", where, " read back as ", text(back));
        }
        else if (!valid)
        {
            BitStreamReader reader(memory, sizeof(memory));
            check(ctx, outcome([&] { (void)read(reader, static_cast<uint8_t>(bits)); }), false, "read", where, false);
            MC_REQUIRE(ctx, reader.getBitPosition() == 0, "position", where, ": ", reader.getBitPosition());
        }
        ctx.state(Ctx::mix(Ctx::hashOf(name) + bits, static_cast<uint64_t>(value)));
    };
    for (uint32_t value : alphabet<uint32_t>())
    {
        run("u32", 32, false, value, [](BitStreamWriter& w, uint32_t v, uint8_t n) { w.writeUnsignedBits32(v, n); },
                [](BitStreamReader& r, uint8_t n) { return r.readUnsignedBits32(n); });
    }
    for (int32_t value : alphabet<int32_t>())
    {
        run("s32", 32, true, value, [](BitStreamWriter& w, int32_t v, uint8_t n) { w.writeSignedBits32(v, n); },
                [](BitStreamReader& r, uint8_t n) { return r.readSignedBits32(n); });
    }
    for (uint64_t value : alphabet<uint64_t>())
    {
        run("u64", 64, false, value, [](BitStreamWriter& w, uint64_t v, uint8_t n) { w.writeUnsignedBits64(v, n); },
                [](BitStreamReader& r, uint8_t n) { return r.readUnsignedBits64(n); });
    }
    for (int64_t value : alphabet<int64_t>())
    {
        run("s64", 64, true, value, [](BitStreamWriter& w, int64_t v, uint8_t n) { w.writeSignedBits64(v, n); },
                [](BitStreamReader& r, uint8_t n) { return r.readSignedBits64(n); });
    }
    ctx.cases(1000);
}

// the range given for a bit field of any length
void bitFieldBounds(Ctx& ctx)
{
    const std::vector<size_t> extra = {127, 128, 255, 256, 257, 320, (1ULL << 32) + 1, SIZE_MAX};
    const uint32_t choice = ctx.choose(static_cast<uint32_t>(70 + extra.size()));
    const size_t bits = choice < 70 ? choice : extra[choice - 70];
    const bool valid = bits >= 1 && bits <= 64;
    for (bool isSigned : {false, true})
    {
        const std::string where = str(isSigned ? "signed" : "unsigned", " bit field of ", bits, " bits");
        ctx.note(where);
        int64_t lo = 0;
        uint64_t hi = 0;
        check(ctx, outcome([&] { lo = getBitFieldLowerBound(bits, isSigned); }), valid, "lower bound", where, false);
        check(ctx, outcome([&] { hi = getBitFieldUpperBound(bits, isSigned); }), valid, "upper bound", where, false);
        if (valid)
        {
            MC_REQUIRE(ctx, Wide(lo) == (isSigned ? -(one << (bits - 1)) : 0), "limits", where, " from ", lo);
            MC_REQUIRE(ctx, Wide(hi) == (isSigned ? (one << (bits - 1)) - 1 : (one << bits) - 1), "limits", where,
                    " to ", hi);
        }
        ctx.state(bits * 2 + isSigned);
    }
}

// sizes and lengths
void sizes(Ctx& ctx)
{
    const uint32_t bit = ctx.choose(65);
    for (Wide delta = -3; delta <= 3; ++delta)
    {
        const Wide wide = (one << bit) + delta;
        if (wide < 0 || wide > Wide(UINT64_MAX))
        {
            continue;
        }
        const uint64_t value = static_cast<uint64_t>(wide);
        const std::string where = std::to_string(value);
        ctx.note(where);
        uint64_t kept = 0;
        check(ctx, outcome([&] { kept = convertSizeToUInt32(static_cast<size_t>(value)); }), value <= UINT32_MAX,
                "convertSizeToUInt32", where, false);
        MC_REQUIRE(ctx, value > UINT32_MAX || kept == value, "value", where, " became ", kept);
        check(ctx, outcome([&] { kept = convertUInt64ToSize(value); }), true, "convertUInt64ToSize", where, false);
        MC_REQUIRE(ctx, kept == value, "value", where, " became ", kept);
        // number of bits that n values need
        unsigned bits = value == 0 ? 0 : 1;
        while (value != 0 && bits < 64 && (one << bits) < wide)
        {
            ++bits;
        }
        MC_REQUIRE(ctx, builtin::numBits(value) == bits, "numbits", where, ": ", int(builtin::numBits(value)),
                " expected ", bits);
        // a length that no string or byte array of the format can have; only the length is looked at
        const bool inside = value <= 0x7fffffffU;
        const std::string_view string("", static_cast<size_t>(std::min<uint64_t>(value, uint64_t(1) << 40)));
        const BytesView bytes(reinterpret_cast<const uint8_t*>(""), string.size());
        check(ctx, outcome([&] { (void)zd::bitSizeOf(string, 0); }), inside, "bitSizeOf string", where, false);
        check(ctx, outcome([&] { (void)zd::bitSizeOf(bytes, 0); }), inside, "bitSizeOf bytes", where, false);
        BitStreamWriter counter(nullptr, 0);
        check(ctx, outcome([&] { counter.writeString(string); }), inside, "write string", where, false);
        MC_REQUIRE(ctx, inside || counter.getBitPosition() == 0, "rejected-write-moves", where);
        BitStreamWriter counter2(nullptr, 0);
        check(ctx, outcome([&] { counter2.writeBytes(bytes); }), inside, "write bytes", where, false);
        MC_REQUIRE(ctx, inside || counter2.getBitPosition() == 0, "rejected-write-moves", where);
        // an array is validated against its length field first
        const UInt8 element = 0;
        if (!inside)
        {
            const ArrayView<const UInt8> array(Span<const UInt8>(&element, string.size()));
            check(ctx, outcome([&] { zd::validate<zd::ArrayType::AUTO>(array, "field"); }), false, "validate array",
                    where, false);
            check(ctx, outcome([&] { (void)zd::bitSizeOf<zd::ArrayType::AUTO>(array, 0); }), false, "bitSizeOf array",
                    where, false);
        }
        ctx.state(value);
    }
    ctx.cases(7);
}

// arrays: a fixed length and every element count, an element out of range at every place
void arrayLengths(Ctx& ctx)
{
    const size_t size = ctx.choose(5);
    const size_t expected = ctx.choose(5);
    const size_t bad = ctx.choose(5); // the element that is out of range, if there is one
    std::vector<UInt5> values(size, UInt5(31));
    if (bad < size)
    {
        values[bad] = UInt5(32);
    }
    const std::string where = str(size, " elements, expected ", expected, " element ", bad, " out of range");
    ctx.note(where);
    const ArrayView<const UInt5> array(values);
    auto test = [&](const char* name, bool fixedLength, auto call) {
        std::string result = "accepted";
        try
        {
            call();
        }
        catch (const ArrayLengthException&)
        {
            result = "length";
        }
        catch (const OutOfRangeException&)
        {
            result = "range";
        }
        const std::string wanted = fixedLength && size != expected ? "length" : bad < size ? "range" : "accepted";
        MC_REQUIRE(ctx, result == wanted, "array-validation", name, " ", where, ": ", result, " expected ", wanted);
        ctx.step();
    };
    test("fixed", true, [&] { zd::validate<zd::ArrayType::NORMAL>(array, "f", expected); });
    test("aligned fixed", true, [&] { zd::validate<zd::ArrayType::ALIGNED>(array, "f", expected); });
    test("auto", false, [&] { zd::validate<zd::ArrayType::AUTO>(array, "f"); });
    test("aligned auto", false, [&] { zd::validate<zd::ArrayType::ALIGNED_AUTO>(array, "f"); });
    test("implicit", false, [&] { zd::validate<zd::ArrayType::IMPLICIT>(array, "f"); });
    ctx.state(size * 25 + expected * 5 + bad);
}

// bitmasks and enumerations have the range of the type they are based on
template <typename Z>
class Mask
{
public:
    using ZserioType = Z;
    Mask() = default;
    constexpr explicit Mask(Z value) : m_value(value) {}
    constexpr Z getValue() const { return m_value; }
    constexpr bool operator==(const Mask& other) const { return m_value == other.m_value; }
    constexpr bool operator<(const Mask& other) const { return m_value < other.m_value; }

private:
    Z m_value{};
};
enum class Enum3 : uint8_t { NONE, ONE };
enum class EnumVar : int16_t { NONE, ONE };
} // namespace
namespace zserio
{
template <>
struct EnumTraits<Enum3>
{
    using ZserioType = UInt3;
    static constexpr std::array<std::string_view, 2> names = {{"NONE", "ONE"}};
    static constexpr std::array<Enum3, 2> values = {{Enum3::NONE, Enum3::ONE}};
    static constexpr std::string_view enumName = "Enum3";
};
template <>
struct EnumTraits<EnumVar>
{
    using ZserioType = VarInt16;
    static constexpr std::array<std::string_view, 2> names = {{"NONE", "ONE"}};
    static constexpr std::array<EnumVar, 2> values = {{EnumVar::NONE, EnumVar::ONE}};
    static constexpr std::string_view enumName = "EnumVar";
};
} // namespace zserio
namespace
{
template <typename T, typename Z, typename MAKE>
void based(Ctx& ctx, const char* name, Wide lo, Wide hi, const MAKE& make)
{
    using V = typename Z::ValueType;
    for (const V value : alphabet<V>())
    {
        const bool inside = Wide(value) >= lo && Wide(value) <= hi;
        const std::string where = str(text(value), " as ", name);
        ctx.note(where);
        const T object = make(value);
        check(ctx, outcome([&] { zd::validate(object, "field"); }), inside, "validate", where, true);
        uint8_t memory[16];
        BitStreamWriter writer(memory, sizeof(memory));
        check(ctx, outcome([&] { zd::write(writer, object); }), inside, "write", where, false);
        if (inside)
        {
            check(ctx, outcome([&] { (void)zd::bitSizeOf(object); }), true, "bitSizeOf", where, true);
            zd::DeltaContext context;
            check(ctx, outcome([&] { zd::initContext(context, make(0)); zd::initContext(context, object); }), true, "init context", where, true);
            BitStreamWriter packed(memory, sizeof(memory));
            check(ctx, outcome([&] { zd::write(context, packed, make(0)); zd::write(context, packed, object); }), true, "packed write", where, false);
        }
        const std::vector<T> values = {make(0), object, make(0)};
        const ArrayView<const T> array(values);
        check(ctx, outcome([&] { zd::validate<zd::ArrayType::AUTO>(array, "field"); }), inside, "validate array", where, true);
        ctx.state(Ctx::mix(Ctx::hashOf(name), static_cast<uint64_t>(value)));
    }
    ctx.cases(alphabet<V>().size());
}
template <typename Z>
void mask(Ctx& ctx, const char* name, Wide hi)
{
    based<Mask<Z>, Z>(ctx, name, 0, hi, [](typename Z::ValueType v) { return Mask<Z>(Z(v)); });
}
void basedTypes(Ctx& ctx)
{
    switch (ctx.choose(11))
    {
    case 0: return mask<UInt3>(ctx, "bitmask of bit:3", 7);
    case 1: return mask<UInt8>(ctx, "bitmask of uint8", 255);
    case 2: return mask<UInt15>(ctx, "bitmask of bit:15", 32767);
    case 3: return mask<UInt31>(ctx, "bitmask of bit:31", (one << 31) - 1);
    case 4: return mask<UInt63>(ctx, "bitmask of bit:63", (one << 63) - 1);
    case 5: return mask<VarUInt16>(ctx, "bitmask of varuint16", (one << 15) - 1);
    case 6: return mask<VarUInt32>(ctx, "bitmask of varuint32", (one << 29) - 1);
    case 7: return mask<VarUInt64>(ctx, "bitmask of varuint64", (one << 57) - 1);
    case 8: return mask<VarSize>(ctx, "bitmask of varsize", (one << 31) - 1);
    case 9: return based<Enum3, UInt3>(ctx, "enum of bit:3", 0, 7, [](uint8_t v) { return static_cast<Enum3>(v); });
    default: return based<EnumVar, VarInt16>(ctx, "enum of varint16", -16383, 16383, [](int16_t v) { return static_cast<EnumVar>(v); });
    }
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {{"fixed widths", fixedWidths, 2}, {"variable widths", variableWidths, 1},
                    {"dynamic widths", dynamicWidths, 2}, {"raw bits", rawBits, 1},
                    {"bit field bounds", bitFieldBounds, 1}, {"sizes", sizes, 1}, {"array lengths", arrayLengths, 2},
                    {"based types", basedTypes, 1}});
}
