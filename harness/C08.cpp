// C08: packed arrays against the reference encoding of delta packing.
// mc: level=model_checking sources=std_test_object:Creator,std_test_object:Walker groups=arrays:KIT_PACKED=1
#include <functional>

#include "arrays.h"
#include "test_object/std_allocator/WalkerNested.h"
#include "zserio/BitBuffer.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/Bytes.h"
#include "zserio/DeltaContext.h"
#include "zserio/String.h"
#include "zserio/Types.h"

using namespace kit;

namespace
{

// every array of up to the depth's length over the alphabet of its element kind
void shortArrays(Ctx& ctx)
{
    const uint32_t kindIndex = ctx.choose(static_cast<uint32_t>(kinds().size()));
    const int layout = static_cast<int>(ctx.choose(4));
    const uint32_t start = ctx.pick(ctx.thorough() ? std::vector<uint32_t>{0, 1, 2, 3, 4, 5, 6, 7}
                                                   : std::vector<uint32_t>{0, 5});
    const AnyKind& kind = *kinds()[kindIndex];
    const uint32_t length = ctx.choose(ctx.thorough() ? 6 : 5);
    std::vector<uint32_t> indexes;
    uint64_t hash = Ctx::mix(kindIndex * 16 + static_cast<uint32_t>(layout), start * 8 + length);
    std::string text;
    for (uint32_t i = 0; i < length; ++i)
    {
        indexes.push_back(ctx.choose(kind.alphabet()));
        hash = Ctx::mix(hash, indexes.back());
        text += (i ? "," : "") + std::to_string(indexes.back());
    }
    ctx.note(str(kind.name(), " packed ", layoutName(layout), " at bit ", start, " elements [", text, "]"));
    if (!kind.run(ctx, layout, indexes, start))
    {
        ctx.skip();
    }
    ctx.state(hash);
    if (ctx.wantSample())
    {
        ctx.sample(str(kind.name(), " packed ", layoutName(layout), " at bit ", start, " alphabet indexes [", text,
                "]"));
    }
}

// n equal elements with up to two outliers at any positions: the decision whether packing pays off
void outliers(Ctx& ctx)
{
    const uint32_t kindIndex = ctx.choose(static_cast<uint32_t>(kinds().size()));
    const int layout = ctx.thorough() ? static_cast<int>(ctx.choose(4)) : ctx.flip() ? 1 : 2;
    const AnyKind& kind = *kinds()[kindIndex];
    const uint32_t length = 2 + ctx.choose(ctx.thorough() ? 30 : 15);
    const uint32_t base = ctx.choose(kind.alphabet());
    const uint32_t outlier = ctx.choose(kind.alphabet());
    for (uint32_t i = 0; i <= length; ++i)
    {
        for (uint32_t j = i; j <= length; ++j)
        {
            if (!ctx.thorough() && !(j == i || j == i + 1 || j == length))
            {
                continue;
            }
            std::vector<uint32_t> indexes(length, base);
            if (i < length)
            {
                indexes[i] = outlier;
            }
            if (j < length)
            {
                indexes[j] = outlier;
            }
            ctx.note(str(kind.name(), " packed ", layoutName(layout), " length ", length, " base ", base,
                    " outlier ", outlier, " at ", i, " and ", j));
            if (!kind.run(ctx, layout, indexes, 0))
            {
                ctx.skip();
            }
            ctx.cases();
            ctx.state(Ctx::mix(
                    Ctx::mix(kindIndex * 16 + static_cast<uint32_t>(layout), length * 64 + base * 8 + outlier),
                    i * 64 + j));
            if (outlier == base)
            {
                return;
            }
        }
    }
}

struct StepKind
{
    const char* name;
    unsigned bits;
    bool isSigned;
};

// progressions, alternations and single steps with every power-of-two step (and one off) of the element type
void steps(Ctx& ctx)
{
    const std::vector<StepKind> list = {{"UInt8", 8, false}, {"Int8", 8, true}, {"UInt16", 16, false},
            {"Int16", 16, true}, {"UInt32", 32, false}, {"Int32", 32, true}, {"UInt64", 64, false},
            {"Int64", 64, true}, {"VarUInt", 64, false}, {"VarInt", 64, true}, {"UInt63", 63, false},
            {"Int37", 37, true}, {"UInt5", 5, false}, {"DynInt16", 11, true}};
    const StepKind& type = list[ctx.choose(static_cast<uint32_t>(list.size()))];
    const AnyKind& kind = *findKind(type.name);
    const uint32_t exponent = ctx.choose(type.bits);
    const uint32_t shape = ctx.choose(5);
    const int delta = static_cast<int>(ctx.choose(3)) - 1;
    const int layout = static_cast<int>(ctx.choose(4));
    const __int128 lo = type.isSigned ? -(__int128(1) << (type.bits - 1)) : 0;
    const __int128 hi = type.isSigned ? (__int128(1) << (type.bits - 1)) - 1 : (__int128(1) << type.bits) - 1;
    const __int128 step = (__int128(1) << exponent) + delta;
    const uint32_t maxLength = shape == 4 ? 4 : 12;
    for (uint32_t length = 1; length <= maxLength; ++length)
    {
        std::vector<__int128> values;
        for (uint32_t i = 0; i < length; ++i)
        {
            __int128 v = 0;
            switch (shape)
            {
            case 0: // up from the minimum
                v = lo + step * i;
                break;
            case 1: // down from the maximum
                v = hi - step * i;
                break;
            case 2: // alternating
                v = i % 2 ? lo + step : lo;
                break;
            case 3: // one step in the middle
                v = i >= length / 2 ? hi - step : hi;
                break;
            default: // around the middle of the range, so that differences change sign
                v = (lo + hi) / 2 + (i % 2 ? step / 2 : -(step - step / 2)) * (i % 3 == 2 ? -1 : 1);
                break;
            }
            if (v < lo || v > hi)
            {
                break;
            }
            values.push_back(v);
        }
        ctx.note(str(kind.name(), " packed ", layoutName(layout), " step 2^", exponent, "+", delta, " shape ", shape,
                " length ", values.size()));
        kind.runRaw(ctx, layout, values, 0);
        ctx.cases();
        ctx.state(Ctx::mix(Ctx::hashOf(kind.name()),
                ((exponent * 5 + shape) * 3 + static_cast<uint32_t>(delta + 1)) * 100 + length));
    }
}

// lengths at the borders of the length prefix and of the preallocation limit
void longArrays(Ctx& ctx)
{
    const uint32_t kindIndex = ctx.choose(static_cast<uint32_t>(kinds().size()));
    const int layout = static_cast<int>(ctx.choose(4));
    const uint32_t length = ctx.pick(std::vector<uint32_t>{127, 128, 255, 256, 257, 4097, 16384, 65536, 65537, 65540});
    const size_t prealloc = ctx.pick(std::vector<size_t>{0, 1, 1000});
    const uint32_t shape = ctx.choose(2);
    if (length > 1000 && (prealloc == 1 || (layout != 1 && !ctx.thorough())))
    {
        ctx.skip();
    }
    const AnyKind& kind = *kinds()[kindIndex];
    if (length > 60000 && !ctx.thorough())
    {
        const std::string name = kind.name();
        if (prealloc != 0 || (name != "UInt8" && name != "Int16" && name != "UInt64" && name != "VarUInt"))
        {
            ctx.skip();
        }
    }
    std::vector<uint32_t> indexes;
    const uint32_t n = kind.alphabet();
    for (uint32_t i = 0; i < length; ++i)
    {
        indexes.push_back(shape == 0 ? (i * 7 + i / 3) % n : (i < length / 2 ? 0 : 1 % n));
    }
    ctx.note(str(kind.name(), " packed ", layoutName(layout), " length ", length, " preallocation ", prealloc));
    if (!kind.run(ctx, layout, indexes, 0, prealloc))
    {
        ctx.skip();
    }
    ctx.state(Ctx::mix(Ctx::mix(kindIndex * 16 + static_cast<uint32_t>(layout), length), prealloc * 2 + shape));
}

// ---------------------------------------------------------------- what cannot be packed, in between

namespace zd = zserio::detail;
using zserio::BitSize;

template <typename T>
auto asWritten(const T& value)
{
    if constexpr (std::is_same_v<T, zserio::String>)
    {
        return std::string_view(value);
    }
    else if constexpr (std::is_same_v<T, zserio::Bytes>)
    {
        return zserio::BytesView(value);
    }
    else if constexpr (std::is_same_v<T, zserio::BitBuffer>)
    {
        return zserio::BitBufferView(value);
    }
    else if constexpr (std::is_same_v<T, ::test_object::std_allocator::WalkerNested>)
    {
        return zserio::View<T>(value);
    }
    else
    {
        return value;
    }
}

// numbers packed by one context with values that cannot be packed between them: those are as without a context and do
// not touch it
template <typename T>
void between(Ctx& ctx, const char* name, const std::vector<T>& values)
{
    const std::vector<zserio::UInt16> numbers = {zserio::UInt16(0), zserio::UInt16(1), zserio::UInt16(1000)};
    const uint32_t start = ctx.choose(8);
    const uint32_t length = ctx.choose(ctx.thorough() ? 6 : 5);
    std::vector<int> sequence; // a number, or -1 minus the index of a value
    std::string text = str(name, " at bit ", start, ":");
    for (uint32_t i = 0; i < length; ++i)
    {
        const uint32_t choice = ctx.choose(static_cast<uint32_t>(numbers.size() + values.size()));
        sequence.push_back(choice < numbers.size() ? static_cast<int>(choice) : -1 - static_cast<int>(choice - numbers.size()));
        text += str(" ", sequence.back());
    }
    ctx.note(text);
    ctx.step(length + 1);
    zd::DeltaContext mixed;
    zd::DeltaContext alone;
    for (const int item : sequence)
    {
        if (item >= 0)
        {
            zd::initContext(mixed, numbers[static_cast<size_t>(item)]);
            zd::initContext(alone, numbers[static_cast<size_t>(item)]);
        }
        else
        {
            zd::initContext(mixed, asWritten(values[static_cast<size_t>(-1 - item)]));
        }
    }
    zd::DeltaContext mixedWriter = mixed;
    zd::DeltaContext aloneWriter = alone;
    BitSize position = start;
    for (const int item : sequence)
    {
        BitSize size = 0;
        BitSize expected = 0;
        if (item >= 0)
        {
            size = zd::bitSizeOf(mixed, numbers[static_cast<size_t>(item)], position);
            expected = zd::bitSizeOf(alone, numbers[static_cast<size_t>(item)], position);
        }
        else
        {
            size = zd::bitSizeOf(mixed, asWritten(values[static_cast<size_t>(-1 - item)]), position);
            expected = zd::bitSizeOf(asWritten(values[static_cast<size_t>(-1 - item)]), position);
        }
        MC_REQUIRE(ctx, size == expected, "unpackable-size", text, ": item ", item, " takes ", static_cast<size_t>(size), " bits in a packed array instead of ", static_cast<size_t>(expected));
        position += expected;
    }
    const size_t bits = static_cast<size_t>(position);
    zserio::BitBuffer mixedBuffer(bits);
    zserio::BitBuffer aloneBuffer(bits);
    zserio::BitStreamWriter mixedStream(mixedBuffer);
    zserio::BitStreamWriter aloneStream(aloneBuffer);
    for (uint32_t i = 0; i < start; ++i)
    {
        mixedStream.writeBool(true);
        aloneStream.writeBool(true);
    }
    for (const int item : sequence)
    {
        if (item >= 0)
        {
            zd::write(mixedWriter, mixedStream, numbers[static_cast<size_t>(item)]);
            zd::write(aloneWriter, aloneStream, numbers[static_cast<size_t>(item)]);
        }
        else
        {
            zd::write(mixedWriter, mixedStream, asWritten(values[static_cast<size_t>(-1 - item)]));
            zd::write(aloneStream, asWritten(values[static_cast<size_t>(-1 - item)]));
        }
        MC_REQUIRE(ctx, mixedStream.getBitPosition() == aloneStream.getBitPosition(), "unpackable-write", text, ": another position after item ", item);
    }
    MC_REQUIRE(ctx, mixedBuffer == aloneBuffer && mixedStream.getBitPosition() == bits, "unpackable-write", text, ": other bits are written");
    zserio::BitStreamReader reader(aloneBuffer);
    zd::DeltaContext readContext;
    for (uint32_t i = 0; i < start; ++i)
    {
        (void)reader.readBool();
    }
    for (const int item : sequence)
    {
        if (item >= 0)
        {
            zserio::UInt16 back;
            zd::read(readContext, reader, back);
            MC_REQUIRE(ctx, back == numbers[static_cast<size_t>(item)], "unpackable-read", text, ": number ", item, " is read as ", back);
        }
        else
        {
            T back{};
            zd::read(readContext, reader, back);
            MC_REQUIRE(ctx, back == values[static_cast<size_t>(-1 - item)], "unpackable-read", text, ": value ", -1 - item, " is read as another one");
        }
    }
    MC_REQUIRE(ctx, reader.getBitPosition() == bits, "unpackable-read", text, ": the reader stops at bit ", reader.getBitPosition(), " of ", bits);
    ctx.state(text);
    if (ctx.wantSample())
    {
        ctx.sample(text);
    }
}

void unpackable(Ctx& ctx)
{
    using namespace zserio;
    using ::test_object::std_allocator::WalkerNested;
    switch (ctx.choose(7))
    {
    case 0:
        return between<Float16>(ctx, "Float16", {Float16(0.0F), Float16(-1.5F)});
    case 1:
        return between<Float32>(ctx, "Float32", {Float32(0.0F), Float32(-1e30F)});
    case 2:
        return between<Float64>(ctx, "Float64", {Float64(0.0), Float64(1e300)});
    case 3:
        return between<Bytes>(ctx, "Bytes", {Bytes(), Bytes{1, 2, 255}});
    case 4:
        return between<String>(ctx, "String", {String(""), String("abc")});
    case 5:
        return between<BitBuffer>(ctx, "BitBuffer", {BitBuffer(0), BitBuffer(std::vector<uint8_t>{0xAB, 0xE0}, 11)});
    default:
        return between<WalkerNested>(ctx, "compound", {WalkerNested(""), WalkerNested("xyz")});
    }
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {{"short arrays", shortArrays, 3}, {"outliers", outliers, 3}, {"steps", steps, 3},
                    {"long arrays", longArrays, 3}, {"unpackable", unpackable, 3}});
}
