// C02: wire encoding of every built-in type against a reference encoder and decoder.
// mc: level=model_checking variants=default,arch32
#include "bitmodel.h"
#include "mc.h"

#include "zserio/BitBuffer.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/OutOfRangeException.h"

#include <cmath>
#include <limits>

using namespace zserio;
using bm::Bits;
using mc::Ctx;
using mc::str;

namespace
{

struct VarKind
{
    const char* name;
    bool isSigned;
    unsigned maxBytes;
    uint64_t maxMagnitude;
    std::function<void(BitStreamWriter&, int64_t, uint64_t)> write;
    std::function<void(BitStreamReader&, int64_t&, uint64_t&)> read;
    // the functions that generated code calls, chosen by the type of the value
    std::function<void(BitStreamWriter&, int64_t, uint64_t)> writeTyped;
    std::function<void(BitStreamReader&, int64_t&, uint64_t&)> readTyped;
    std::function<BitSize(int64_t, uint64_t)> bitSize;
};

template <typename T>
typename T::ValueType readTyped(BitStreamReader& reader)
{
    T value{};
    zserio::detail::read(reader, value);
    return value;
}

#define SIGNED_KIND(TYPE, BYTES, MAX) \
    {#TYPE, true, BYTES, MAX, \
            [](BitStreamWriter& w, int64_t v, uint64_t) { w.write##TYPE(TYPE(static_cast<TYPE::ValueType>(v))); }, \
            [](BitStreamReader& r, int64_t& v, uint64_t&) { v = r.read##TYPE(); }, \
            [](BitStreamWriter& w, int64_t v, uint64_t) { \
                zserio::detail::write(w, TYPE(static_cast<TYPE::ValueType>(v))); \
            }, \
            [](BitStreamReader& r, int64_t& v, uint64_t&) { v = readTyped<TYPE>(r); }, \
            [](int64_t v, uint64_t) { return zserio::detail::bitSizeOf(TYPE(static_cast<TYPE::ValueType>(v))); }}
#define UNSIGNED_KIND(TYPE, BYTES, MAX) \
    {#TYPE, false, BYTES, MAX, \
            [](BitStreamWriter& w, int64_t, uint64_t v) { w.write##TYPE(TYPE(static_cast<TYPE::ValueType>(v))); }, \
            [](BitStreamReader& r, int64_t&, uint64_t& v) { v = r.read##TYPE(); }, \
            [](BitStreamWriter& w, int64_t, uint64_t v) { \
                zserio::detail::write(w, TYPE(static_cast<TYPE::ValueType>(v))); \
            }, \
            [](BitStreamReader& r, int64_t&, uint64_t& v) { v = readTyped<TYPE>(r); }, \
            [](int64_t, uint64_t v) { return zserio::detail::bitSizeOf(TYPE(static_cast<TYPE::ValueType>(v))); }}

const std::vector<VarKind>& kinds()
{
    static const std::vector<VarKind> list = {
            SIGNED_KIND(VarInt16, 2, (1ULL << 14) - 1),
            SIGNED_KIND(VarInt32, 4, (1ULL << 28) - 1),
            SIGNED_KIND(VarInt64, 8, (1ULL << 56) - 1),
            SIGNED_KIND(VarInt, 9, (1ULL << 63) - 1),
            UNSIGNED_KIND(VarUInt16, 2, (1ULL << 15) - 1),
            UNSIGNED_KIND(VarUInt32, 4, (1ULL << 29) - 1),
            UNSIGNED_KIND(VarUInt64, 8, (1ULL << 57) - 1),
            UNSIGNED_KIND(VarUInt, 9, ~uint64_t(0)),
            UNSIGNED_KIND(VarSize, 5, (1ULL << 31) - 1),
    };
    return list;
}

std::vector<uint64_t> magnitudes(uint64_t max)
{
    std::set<uint64_t> values;
    for (unsigned k = 0; k < 64; ++k)
    {
        for (int d = -2; d <= 2; ++d)
        {
            values.insert((uint64_t(1) << k) + static_cast<uint64_t>(int64_t(d)));
        }
        values.insert((0xa5a5a5a5a5a5a5a5ULL >> k));
        values.insert((0x123456789abcdef1ULL >> k));
        values.insert((0xffffffffffffff00ULL << (k % 50)));
    }
    for (uint64_t d = 0; d < 300; ++d)
    {
        values.insert(d);
        values.insert(max - d);
    }
    std::vector<uint64_t> result;
    for (uint64_t v : values)
    {
        if (v <= max)
        {
            result.push_back(v);
        }
    }
    return result;
}

void checkWritten(Ctx& ctx, const std::vector<uint8_t>& buffer, const Bits& model, size_t position)
{
    MC_REQUIRE(ctx, position == model.pos, "encoded-length", "written ", position, " bits, expected ", model.pos);
    Bits all = model;
    all.bits.resize(buffer.size() * 8, 0);
    MC_REQUIRE(ctx, all.bytes() == buffer, "encoded-bits", "bits ", mc::hex(buffer.data(), buffer.size()),
            " expected ", mc::hex(all.bytes().data(), buffer.size()));
}

// canonical encoding of boundary values of every variable-length type at every bit offset
void varCanonical(Ctx& ctx)
{
    const VarKind& kind = kinds()[ctx.choose(static_cast<uint32_t>(kinds().size()))];
    const uint32_t start = ctx.choose(8);
    const bool negative = kind.isSigned && ctx.flip();
    const bool typed = ctx.flip();
    for (uint64_t magnitude : magnitudes(kind.maxMagnitude))
    {
        if (negative && magnitude == 0)
        {
            continue;
        }
        const int64_t value = negative ? -static_cast<int64_t>(magnitude) : static_cast<int64_t>(magnitude);
        ctx.note(str(kind.name, " ", negative ? "-" : "", magnitude, " at bit ", start));
        std::vector<uint8_t> buffer(12, 0);
        BitStreamWriter writer(buffer.data(), buffer.size());
        writer.setBitPosition(start);
        (typed ? kind.writeTyped : kind.write)(writer, value, magnitude);
        Bits model;
        model.pos = start;
        model.bits.resize(start, 0);
        model.putVar(magnitude, negative, kind.isSigned, kind.maxBytes);
        checkWritten(ctx, buffer, model, writer.getBitPosition());

        BitStreamReader reader(buffer.data(), model.pos, BitsTag());
        reader.setBitPosition(start);
        int64_t sv = 0;
        uint64_t uv = 0;
        (typed ? kind.readTyped : kind.read)(reader, sv, uv);
        MC_REQUIRE(ctx, kind.isSigned ? sv == value : uv == magnitude, "decoded-value", "decoded ", sv, "/", uv);
        MC_REQUIRE(ctx, reader.getBitPosition() == model.pos, "decoded-length", reader.getBitPosition());
        const size_t size = static_cast<size_t>(kind.bitSize(value, magnitude));
        MC_REQUIRE(ctx, size == model.pos - start, "encoded-size", "size ", size, " of ", model.pos - start, " bits");
        ctx.step(2);
        ctx.cases();
        ctx.state(Ctx::mix(Ctx::mix(Ctx::hashOf(kind.name), magnitude), negative * 8 + start));
    }
    if (kind.maxBytes == 9 && kind.isSigned && negative)
    {
        ctx.note("varint minimum");
        std::vector<uint8_t> buffer(3, 0);
        BitStreamWriter writer(buffer.data(), buffer.size());
        writer.setBitPosition(start);
        writer.writeVarInt(VarInt(INT64_MIN));
        Bits model;
        model.pos = start;
        model.bits.resize(start, 0);
        model.put(0x80, 8);
        checkWritten(ctx, buffer, model, writer.getBitPosition());
        BitStreamReader reader(buffer.data(), model.pos, BitsTag());
        reader.setBitPosition(start);
        MC_REQUIRE(ctx, reader.readVarInt() == INT64_MIN, "decoded-value", "minimum of varint");
    }
}

// exhaustive values of the 16-bit types, both directions
void varExhaustive16(Ctx& ctx)
{
    const bool isSigned = ctx.flip();
    const uint32_t block = ctx.choose(64);
    const VarKind& kind = isSigned ? kinds()[0] : kinds()[4];
    const uint32_t perBlock = (static_cast<uint32_t>(kind.maxMagnitude) + 1) / 64;
    for (uint32_t magnitude = block * perBlock; magnitude < (block + 1) * perBlock; ++magnitude)
    {
        for (int neg = 0; neg < (isSigned && magnitude ? 2 : 1); ++neg)
        {
            ctx.note(str(kind.name, " ", neg ? "-" : "", magnitude));
            const int64_t value = neg ? -int64_t(magnitude) : int64_t(magnitude);
            std::vector<uint8_t> buffer(4, 0);
            BitStreamWriter writer(buffer.data(), buffer.size());
            kind.write(writer, value, magnitude);
            Bits model;
            model.putVar(magnitude, neg != 0, isSigned, 2);
            checkWritten(ctx, buffer, model, writer.getBitPosition());
            BitStreamReader reader(buffer.data(), model.pos, BitsTag());
            int64_t sv = 0;
            uint64_t uv = 0;
            kind.read(reader, sv, uv);
            MC_REQUIRE(ctx, isSigned ? sv == value : uv == magnitude, "decoded-value", "decoded ", sv, "/", uv);
            ctx.step(2);
            ctx.cases();
        }
    }
    ctx.state(Ctx::mix(isSigned, block));
}

// any byte string as the encoding of any variable-length type
void varDecode(Ctx& ctx)
{
    static const std::vector<uint8_t> head = {0x00, 0x01, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0x87, 0x88, 0xc0, 0xe3, 0xff};
    static const std::vector<uint8_t> tail = {0x00, 0x7f, 0x80, 0xff};
    const VarKind& kind = kinds()[ctx.choose(static_cast<uint32_t>(kinds().size()))];
    const uint32_t start = ctx.thorough() ? ctx.choose(8) : (ctx.flip() ? 3 : 0);
    uint8_t bytes[9];
    bytes[0] = ctx.pick(head);
    bytes[1] = kind.maxBytes > 1 ? ctx.pick(head) : 0;
    bytes[2] = kind.maxBytes > 2 ? ctx.pick(head) : 0;
    uint32_t combos = 1;
    for (unsigned i = 3; i < kind.maxBytes; ++i)
    {
        combos *= static_cast<uint32_t>(tail.size());
    }
    for (uint32_t combo = 0; combo < combos; ++combo)
    {
        uint32_t rest = combo;
        bool pruned = false;
        for (unsigned i = 3; i < 9; ++i)
        {
            bytes[i] = i < kind.maxBytes ? tail[rest % tail.size()] : 0xff;
            rest /= static_cast<uint32_t>(tail.size());
        }
        // a byte without continuation makes the rest irrelevant: evaluate only one such combination
        unsigned used = 1;
        while (used < kind.maxBytes)
        {
            const uint8_t flag = (used == 1 && kind.isSigned) ? 0x40 : 0x80;
            if ((bytes[used - 1] & flag) == 0)
            {
                break;
            }
            ++used;
        }
        for (unsigned i = used; i < 9; ++i)
        {
            if (i >= 3 && i < kind.maxBytes && bytes[i] != 0)
            {
                pruned = true;
            }
        }
        if (pruned)
        {
            continue;
        }
        ctx.note(str("decode ", kind.name, " ", mc::hex(bytes, 9), " at bit ", start));
        Bits input(start, 1);
        input.pos = start;
        input.putBytes(bytes, used);
        const std::vector<uint8_t> buffer = input.bytes();
        Bits model = input;
        model.pos = start;
        uint64_t magnitude = 0;
        bool negative = false;
        model.getVar(kind.isSigned, kind.maxBytes, magnitude, negative);
        // five bytes hold 36 bits
        bool tooLarge = false;
        if (kind.maxBytes == 5)
        {
            unsigned __int128 wide = 0;
            for (unsigned i = 0; i < used; ++i)
            {
                wide = i < 4 ? (wide << 7) | (bytes[i] & 0x7f) : (wide << 8) | bytes[i];
            }
            tooLarge = wide > ((1ULL << 31) - 1);
        }
        BitStreamReader reader(buffer.data(), input.bits.size(), BitsTag());
        reader.setBitPosition(start);
        int64_t sv = 0;
        uint64_t uv = 0;
        bool thrown = false;
        try
        {
            kind.read(reader, sv, uv);
        }
        catch (const CppRuntimeException&)
        {
            thrown = true;
        }
        ctx.step();
        ctx.cases();
        MC_REQUIRE(ctx, thrown == tooLarge, "rejected", thrown ? "rejected" : "accepted", " value ", uv);
        if (thrown)
        {
            continue;
        }
        MC_REQUIRE(ctx, reader.getBitPosition() == input.bits.size(), "decoded-length", reader.getBitPosition(),
                " expected ", input.bits.size());
        if (kind.isSigned)
        {
            int64_t expected = negative ? -static_cast<int64_t>(magnitude) : static_cast<int64_t>(magnitude);
            if (kind.maxBytes == 9 && negative && magnitude == 0)
            {
                expected = used == 1 ? INT64_MIN : 0; // only the one byte form stands for the minimum
            }
            MC_REQUIRE(ctx, sv == expected, "decoded-value", "decoded ", sv, " expected ", expected);
        }
        else
        {
            MC_REQUIRE(ctx, uv == magnitude, "decoded-value", "decoded ", uv, " expected ", magnitude);
        }
    }
    ctx.state(Ctx::mix(Ctx::mix(Ctx::hashOf(kind.name), start), bytes[0] * 65536U + bytes[1] * 256U + bytes[2]));
}

// over-long encodings of every magnitude class
void varOverlong(Ctx& ctx)
{
    const VarKind& kind = kinds()[ctx.choose(static_cast<uint32_t>(kinds().size()))];
    const uint32_t len = 1 + ctx.choose(kind.maxBytes);
    const bool negative = kind.isSigned && ctx.flip();
    for (uint64_t magnitude : magnitudes(kind.maxMagnitude))
    {
        if (Bits::varLen(magnitude, kind.isSigned, kind.maxBytes) > len ||
                (negative && magnitude == 0 && len == 1))
        {
            continue;
        }
        for (uint32_t start : {0U, 5U})
        {
            ctx.note(str("over-long ", kind.name, " ", negative ? "-" : "", magnitude, " in ", len, " bytes"));
            Bits input(start, 0);
            input.pos = start;
            input.putVarLen(magnitude, negative, kind.isSigned, kind.maxBytes, len);
            const std::vector<uint8_t> buffer = input.bytes();
            BitStreamReader reader(buffer.data(), input.bits.size(), BitsTag());
            reader.setBitPosition(start);
            int64_t sv = 0;
            uint64_t uv = 0;
            (start != 0 ? kind.readTyped : kind.read)(reader, sv, uv);
            const int64_t expected = negative ? -static_cast<int64_t>(magnitude) : static_cast<int64_t>(magnitude);
            MC_REQUIRE(ctx, kind.isSigned ? sv == expected : uv == magnitude, "decoded-value", "decoded ", sv, "/",
                    uv);
            MC_REQUIRE(ctx, reader.getBitPosition() == input.bits.size(), "decoded-length",
                    reader.getBitPosition());
            ctx.step();
            ctx.cases();
        }
    }
    ctx.state(Ctx::mix(Ctx::mix(Ctx::hashOf(kind.name), len), negative));
}

// fixed width wrappers through the generic write/read used by generated code
template <BitSize N, bool S>
void fixedWidth(Ctx& ctx, uint32_t start)
{
    using T = detail::FixedIntWrapper<N, S>;
    using V = typename T::ValueType;
    const uint64_t mask = bm::maskOf(N);
    for (uint64_t pattern : {uint64_t(0), mask, uint64_t(1) & mask, uint64_t(1) << (N - 1), mask >> 1U,
                 uint64_t(0x5a5a5a5a5a5a5a5aULL) & mask, uint64_t(0xc3a5f00d12345678ULL) & mask})
    {
        Bits value;
        value.put(pattern, N);
        value.pos = 0;
        const V v = S ? static_cast<V>(value.getSigned(N)) : static_cast<V>(pattern);
        ctx.note(str(S ? "int" : "uint", N, " pattern ", pattern, " at bit ", start));
        std::vector<uint8_t> buffer(10, 0);
        BitStreamWriter writer(buffer.data(), buffer.size());
        writer.setBitPosition(start);
        detail::write(writer, T(v));
        Bits model(start, 0);
        model.pos = start;
        model.put(pattern, N);
        checkWritten(ctx, buffer, model, writer.getBitPosition());
        BitStreamReader reader(buffer.data(), model.pos, BitsTag());
        reader.setBitPosition(start);
        T read{};
        detail::read(reader, read);
        MC_REQUIRE(ctx, static_cast<V>(read) == v, "decoded-value", "fixed width ", N);
        MC_REQUIRE(ctx, reader.getBitPosition() == model.pos, "decoded-length", reader.getBitPosition());
        ctx.step(2);
        ctx.cases();
    }
    ctx.state(Ctx::mix(N * 2 + (S ? 1 : 0), start));
}

template <BitSize... N>
void fixedWidths(Ctx& ctx, uint32_t which, bool isSigned, uint32_t start, std::integer_sequence<BitSize, N...>)
{
    using Fn = void (*)(Ctx&, uint32_t);
    static const Fn signedFns[] = {&fixedWidth<N + 1, true>...};
    static const Fn unsignedFns[] = {&fixedWidth<N + 1, false>...};
    (isSigned ? signedFns : unsignedFns)[which](ctx, start);
}

// a boolean is one bit
void boolean(Ctx& ctx)
{
    const uint32_t start = ctx.choose(8);
    const bool value = ctx.flip();
    const bool typed = ctx.flip();
    const uint8_t background = static_cast<uint8_t>(ctx.choose(2) * 0xff);
    ctx.note(str("bool ", value, " at bit ", start));
    std::vector<uint8_t> buffer(2, background);
    BitStreamWriter writer(buffer.data(), buffer.size());
    writer.setBitPosition(start);
    typed ? zserio::detail::write(writer, Bool(value)) : writer.writeBool(value);
    MC_REQUIRE(ctx, writer.getBitPosition() == start + 1, "encoded-length", writer.getBitPosition());
    std::vector<uint8_t> expected(2, background);
    const uint8_t bit = static_cast<uint8_t>(0x80U >> start);
    expected[0] = static_cast<uint8_t>(value ? expected[0] | bit : expected[0] & ~bit);
    MC_REQUIRE(ctx, buffer == expected, "encoded-bits", "bool ", value, " at bit ", start);
    BitStreamReader reader(buffer.data(), start + 1, BitsTag());
    reader.setBitPosition(start);
    const bool back = typed ? bool(readTyped<Bool>(reader)) : bool(reader.readBool());
    MC_REQUIRE(ctx, back == value, "decoded-value", "bool");
    MC_REQUIRE(ctx, reader.getBitPosition() == start + 1, "decoded-length", reader.getBitPosition());
    MC_REQUIRE(ctx, zserio::detail::bitSizeOf(Bool(value)) == 1, "encoded-size", "bool");
    ctx.step(2);
    ctx.state(Ctx::mix(start, value * 4 + typed * 2 + (background & 1)));
}

void fixed(Ctx& ctx)
{
    const uint32_t which = ctx.choose(64);
    const bool isSigned = ctx.flip();
    const uint32_t start = ctx.choose(8);
    fixedWidths(ctx, which, isSigned, start, std::make_integer_sequence<BitSize, 64>());
}

template <typename T>
void dynamicWidth(Ctx& ctx)
{
    using V = typename T::ValueType;
    const uint32_t width = 1 + ctx.choose(sizeof(V) * 8);
    const uint32_t start = ctx.choose(8);
    const uint64_t mask = bm::maskOf(width);
    for (uint64_t pattern : {uint64_t(0), mask, uint64_t(1) & mask, uint64_t(1) << (width - 1), mask >> 1U,
                 uint64_t(0x5a5a5a5a5a5a5a5aULL) & mask})
    {
        Bits value;
        value.put(pattern, width);
        value.pos = 0;
        const V v = std::is_signed_v<V> ? static_cast<V>(value.getSigned(width)) : static_cast<V>(pattern);
        ctx.note(str("dynamic width ", width, " pattern ", pattern, " at bit ", start));
        std::vector<uint8_t> buffer(10, 0);
        BitStreamWriter writer(buffer.data(), buffer.size());
        writer.setBitPosition(start);
        detail::write(writer, T(v), static_cast<uint8_t>(width));
        Bits model(start, 0);
        model.pos = start;
        model.put(pattern, width);
        checkWritten(ctx, buffer, model, writer.getBitPosition());
        BitStreamReader reader(buffer.data(), model.pos, BitsTag());
        reader.setBitPosition(start);
        T read{};
        detail::read(reader, read, static_cast<uint8_t>(width));
        MC_REQUIRE(ctx, static_cast<V>(read) == v, "decoded-value", "dynamic width ", width);
        ctx.step(2);
        ctx.cases();
    }
    ctx.state(Ctx::mix(Ctx::mix(sizeof(V) * 2 + (std::is_signed_v<V> ? 1 : 0), width), start));
}

void dynamic(Ctx& ctx)
{
    switch (ctx.choose(8))
    {
    case 0:
        return dynamicWidth<DynInt8>(ctx);
    case 1:
        return dynamicWidth<DynInt16>(ctx);
    case 2:
        return dynamicWidth<DynInt32>(ctx);
    case 3:
        return dynamicWidth<DynInt64>(ctx);
    case 4:
        return dynamicWidth<DynUInt8>(ctx);
    case 5:
        return dynamicWidth<DynUInt16>(ctx);
    case 6:
        return dynamicWidth<DynUInt32>(ctx);
    default:
        return dynamicWidth<DynUInt64>(ctx);
    }
}

// floats: bit patterns on the wire
void floats(Ctx& ctx)
{
    const uint32_t kind = ctx.choose(3);
    const uint32_t start = ctx.choose(8);
    const bool typed = ctx.flip();
    const uint32_t signExp = ctx.choose(kind == 2 ? 4096 / 16 : 512);
    for (uint32_t sub = 0; sub < (kind == 2 ? 16U : 1U); ++sub)
    {
        for (uint64_t mantissa : {uint64_t(0), uint64_t(1), uint64_t(0x2000000000000), ~uint64_t(0), uint64_t(0x555555)})
        {
            std::vector<uint8_t> buffer(10, 0);
            BitStreamWriter writer(buffer.data(), buffer.size());
            writer.setBitPosition(start);
            Bits model(start, 0);
            model.pos = start;
            if (kind == 2)
            {
                const uint64_t bits = (uint64_t(signExp * 16 + sub) << 52) | (mantissa & bm::maskOf(52));
                double d;
                std::memcpy(&d, &bits, 8);
                ctx.note(str("float64 bits ", bits));
                typed ? zserio::detail::write(writer, Float64(d)) : writer.writeFloat64(d);
                model.put(bits, 64);
                checkWritten(ctx, buffer, model, writer.getBitPosition());
                BitStreamReader reader(buffer.data(), model.pos, BitsTag());
                reader.setBitPosition(start);
                const double back = typed ? readTyped<Float64>(reader) : double(reader.readFloat64());
                uint64_t backBits;
                std::memcpy(&backBits, &back, 8);
                MC_REQUIRE(ctx, backBits == bits, "decoded-value", "float64");
            }
            else if (kind == 1)
            {
                const uint32_t bits = (signExp << 23) | static_cast<uint32_t>(mantissa & bm::maskOf(23));
                float f;
                std::memcpy(&f, &bits, 4);
                ctx.note(str("float32 bits ", bits));
                typed ? zserio::detail::write(writer, Float32(f)) : writer.writeFloat32(f);
                model.put(bits, 32);
                checkWritten(ctx, buffer, model, writer.getBitPosition());
                BitStreamReader reader(buffer.data(), model.pos, BitsTag());
                reader.setBitPosition(start);
                const float back = typed ? readTyped<Float32>(reader) : float(reader.readFloat32());
                uint32_t backBits;
                std::memcpy(&backBits, &back, 4);
                MC_REQUIRE(ctx, backBits == bits, "decoded-value", "float32");
            }
            else
            {
                // half precision: normal numbers and zeros, whose value is exact
                const uint32_t exponent = (signExp >> 1U) & 31;
                if (exponent == 0 || exponent == 31)
                {
                    continue;
                }
                const uint32_t bits = ((signExp & 1) << 15) | (exponent << 10) | static_cast<uint32_t>(mantissa & 1023);
                const float f = std::ldexp(1.0F + static_cast<float>(mantissa & 1023) / 1024.0F,
                                        static_cast<int>(exponent) - 15) * ((signExp & 1) ? -1.0F : 1.0F);
                ctx.note(str("float16 bits ", bits));
                typed ? zserio::detail::write(writer, Float16(f)) : writer.writeFloat16(f);
                model.put(bits, 16);
                checkWritten(ctx, buffer, model, writer.getBitPosition());
                BitStreamReader reader(buffer.data(), model.pos, BitsTag());
                reader.setBitPosition(start);
                const float back = typed ? readTyped<Float16>(reader) : float(reader.readFloat16());
                MC_REQUIRE(ctx, back == f, "decoded-value", "float16");
            }
            ctx.step(2);
            ctx.cases();
        }
    }
    ctx.state(Ctx::mix(Ctx::mix(kind, start), signExp));
}

// length prefixed data: the prefix is a variable size, the data follows bit by bit
void lengthPrefixed(Ctx& ctx)
{
    const uint32_t kind = ctx.choose(3);
    const uint32_t start = ctx.choose(8);
    static const std::vector<uint32_t> lengths = {0, 1, 2, 7, 8, 9, 15, 16, 17, 126, 127, 128, 129, 1015, 1016, 1017,
            1024, 16383, 16384, 16385, 65535, 65536, 65537, 131073};
    const uint32_t length = ctx.pick(lengths);
    const bool typed = ctx.flip();
    const uint32_t bitLength = length < 60000 ? length : 8 * length - 3;
    const std::string data = [&] {
        std::string text;
        for (uint32_t i = 0; i < length; ++i)
        {
            text.push_back(static_cast<char>(0x80 + 73 * i));
        }
        return text;
    }();
    ctx.note(str("length prefixed kind ", kind, " length ", length, " at bit ", start));
    Bits model(start, 0);
    model.pos = start;
    std::vector<uint8_t> buffer(length + 8, 0);
    BitStreamWriter writer(buffer.data(), buffer.size());
    writer.setBitPosition(start);
    const std::vector<uint8_t> bytes(data.begin(), data.end());
    if (kind == 0)
    {
        typed ? zserio::detail::write(writer, std::string_view(data)) : writer.writeString(data);
        model.putString(data);
    }
    else if (kind == 1)
    {
        typed ? zserio::detail::write(writer, BytesView(bytes)) : writer.writeBytes(bytes);
        model.putString(data);
    }
    else
    {
        const BitBuffer bits(bytes, bitLength);
        typed ? zserio::detail::write(writer, BitBufferView(bits)) : writer.writeBitBuffer(bits);
        model.putBitBuffer(bytes, bitLength);
    }
    checkWritten(ctx, buffer, model, writer.getBitPosition());
    BitStreamReader reader(buffer.data(), model.pos, BitsTag());
    reader.setBitPosition(start);
    if (kind == 0)
    {
        String read("before");
        typed ? zserio::detail::read(reader, read) : void(read = reader.readString());
        MC_REQUIRE(ctx, read == data, "decoded-value", "string");
    }
    else if (kind == 1)
    {
        Bytes read(3, uint8_t(7));
        typed ? zserio::detail::read(reader, read) : void(read = reader.readBytes());
        MC_REQUIRE(ctx, read == bytes, "decoded-value", "bytes");
    }
    else
    {
        BitBuffer read(std::vector<uint8_t>(3, 0xff), 21);
        typed ? zserio::detail::read(reader, read) : void(read = reader.readBitBuffer());
        MC_REQUIRE(ctx, read.getBitSize() == bitLength, "decoded-value", "bit buffer size");
        for (uint32_t i = 0; i < bitLength; ++i)
        {
            const auto bit = [&](const uint8_t* p) { return (p[i / 8] >> (7 - i % 8)) & 1; };
            MC_REQUIRE(ctx, bit(read.getBuffer()) == bit(bytes.data()), "decoded-value", "bit ", i);
        }
    }
    MC_REQUIRE(ctx, reader.getBitPosition() == model.pos, "decoded-length", reader.getBitPosition());
    ctx.step(2);
    ctx.state(Ctx::mix(Ctx::mix(kind, start), length));
    ctx.sample(str("kind ", kind, " length ", length, " start ", start));
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {{"var-canonical", varCanonical, 3}, {"var-exhaustive16", varExhaustive16}, {"var-decode", varDecode, 4},
                    {"var-overlong", varOverlong}, {"bool", boolean}, {"fixed", fixed}, {"dynamic", dynamic}, {"floats", floats, 3},
                    {"length-prefixed", lengthPrefixed, 3}});
}
