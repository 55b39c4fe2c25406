// C03: predicted bit sizes equal the bits written and consumed.
// mc: level=model_checking groupopt=0 sources=std_test_object groups=arrays:KIT_PACKED=0,arrays:KIT_PACKED=1:kit=kitp
#include <sys/mman.h>

#include "arrays.h"
#undef VERIF_ARRAYS_H
#define kit kitp
#include "arrays.h"
#undef kit
#include "objects.h"
#include "zserio/ArrayView.h"
#include "zserio/BitPositionUtil.h"
#include "zserio/SerializeUtil.h"

using namespace zserio;
using bm::Bits;
using mc::Ctx;
using mc::str;
namespace zd = zserio::detail;

namespace
{

// predicted, written with and without a buffer, read: all the same number of bits from every start
template <typename V, typename R>
void sizes(Ctx& ctx, const V& value, size_t expected, R&& readBack)
{
    for (size_t start = 0; start < 17; ++start)
    {
        const size_t predicted = zd::bitSizeOf(value, static_cast<BitSize>(start));
        MC_REQUIRE(ctx, predicted == expected, "size", predicted, " expected ", expected, " at ", start);
        if constexpr (!std::is_enum_v<V> && !is_bitmask_v<V>) // these are never asked for offsets
        {
            const size_t end = zd::initializeOffsets(value, static_cast<BitSize>(start));
            MC_REQUIRE(ctx, end == expected, "offsets-size", end, " expected ", expected, " at ", start);
        }
        std::vector<uint8_t> buffer((start + expected + 7) / 8 + 1, 0xff);
        BitStreamWriter writer(buffer.data(), start + expected, BitsTag());
        writer.setBitPosition(start);
        zd::write(writer, value);
        MC_REQUIRE(ctx, writer.getBitPosition() == start + expected, "written", writer.getBitPosition() - start,
                " expected ", expected, " at ", start);
        BitStreamWriter counter(nullptr, 0);
        counter.setBitPosition(start);
        zd::write(counter, value);
        MC_REQUIRE(ctx, counter.getBitPosition() == start + expected, "counted", counter.getBitPosition() - start,
                " expected ", expected, " at ", start);
        BitStreamReader reader(buffer.data(), start + expected, BitsTag());
        reader.setBitPosition(start);
        readBack(reader);
        MC_REQUIRE(ctx, reader.getBitPosition() == start + expected, "consumed", reader.getBitPosition() - start,
                " expected ", expected, " at ", start);
        ctx.step(5);
        ctx.cases();
    }
    // far behind: only the position modulo the alignment matters
    for (size_t start : {(size_t(1) << 32) - 3, (size_t(1) << 35) + 5})
    {
        MC_REQUIRE(ctx, zd::bitSizeOf(value, start) == expected, "size-far", "at ", start);
        if constexpr (!std::is_enum_v<V> && !is_bitmask_v<V>)
        {
            MC_REQUIRE(ctx, zd::initializeOffsets(value, start) == expected, "offsets-size-far", "at ", start);
        }
        BitStreamWriter counter(nullptr, 0);
        counter.setBitPosition(start);
        zd::write(counter, value);
        MC_REQUIRE(ctx, counter.getBitPosition() == start + expected, "counted-far", counter.getBitPosition());
        ctx.step(3);
    }
}

template <typename T>
void number(Ctx& ctx, const T& value, size_t expected)
{
    sizes(ctx, value, expected, [&](BitStreamReader& reader) {
        T out;
        zd::read(reader, out);
        MC_REQUIRE(ctx, out == value, "value", "another value is read back");
    });
}

template <size_t N, bool SIGNED>
void fixedWidth(Ctx& ctx)
{
    using T = zd::FixedIntWrapper<N, SIGNED>;
    using V = typename T::ValueType;
    for (const V value : {NumericLimits<T>::min(), NumericLimits<T>::max()})
    {
        ctx.note(str(SIGNED ? "int" : "bit", N, " ", +value));
        number(ctx, T(value), N);
        ctx.state(Ctx::mix(N * 2 + SIGNED, static_cast<uint64_t>(value)));
    }
}

template <size_t... I>
void allWidths(Ctx& ctx, uint32_t index, std::index_sequence<I...>)
{
    static void (*const table[])(Ctx&) = {fixedWidth<I / 2 + 1, I % 2 == 1>...};
    table[index](ctx);
}

void fixedWidths(Ctx& ctx)
{
    allWidths(ctx, ctx.choose(128), std::make_index_sequence<128>());
}

template <typename T>
void varNumbers(Ctx& ctx, const char* name, bool isSigned, unsigned maxBytes, unsigned payload)
{
    // every bit length of the magnitude, both ends of it
    for (unsigned bits = 0; bits <= payload; ++bits)
    {
        for (uint64_t magnitude : {bits == 0 ? 0 : uint64_t(1) << (bits - 1), bm::maskOf(bits)})
        {
            for (int sign = 0; sign < (isSigned ? 2 : 1); ++sign)
            {
                const int64_t value = sign ? -static_cast<int64_t>(magnitude) : static_cast<int64_t>(magnitude);
                ctx.note(str(name, " ", sign ? "-" : "", magnitude));
                number(ctx, T(static_cast<typename T::ValueType>(value)),
                        8 * Bits::varLen(magnitude, isSigned, maxBytes));
                ctx.state(Ctx::mix(Ctx::hashOf(name), static_cast<uint64_t>(value)));
            }
        }
    }
}

void otherNumbers(Ctx& ctx)
{
    switch (ctx.choose(15))
    {
    case 0:
        number(ctx, Bool(false), 1);
        return number(ctx, Bool(true), 1);
    case 1:
        return varNumbers<VarInt16>(ctx, "varint16", true, 2, 14);
    case 2:
        return varNumbers<VarInt32>(ctx, "varint32", true, 4, 28);
    case 3:
        return varNumbers<VarInt64>(ctx, "varint64", true, 8, 56);
    case 4: {
        varNumbers<VarInt>(ctx, "varint", true, 9, 63);
        ctx.note("varint minimum");
        return number(ctx, VarInt(INT64_MIN), 8);
    }
    case 5:
        return varNumbers<VarUInt16>(ctx, "varuint16", false, 2, 15);
    case 6:
        return varNumbers<VarUInt32>(ctx, "varuint32", false, 4, 29);
    case 7:
        return varNumbers<VarUInt64>(ctx, "varuint64", false, 8, 57);
    case 8:
        return varNumbers<VarUInt>(ctx, "varuint", false, 9, 64);
    case 9:
        return varNumbers<VarSize>(ctx, "varsize", false, 5, 31);
    case 10:
        for (float f : {0.0F, -1.5F, 65504.0F})
        {
            number(ctx, Float16(f), 16);
            number(ctx, Float32(f), 32);
            number(ctx, Float64(f), 64);
        }
        return;
    case 11:
        for (auto e : {obj::std_allocator::to::CreatorEnum::ONE, obj::std_allocator::to::CreatorEnum::MinusOne})
        {
            number(ctx, e, 8);
        }
        return;
    case 12:
        number(ctx, obj::std_allocator::to::CreatorBitmask(UInt8(3)), 8);
        return number(ctx, obj::std_allocator::to::WalkerBitmask(UInt32(1U)), 32);
    case 13:
        for (uint8_t bits = 1; bits <= 64; ++bits)
        {
            ctx.note(str("dynamic bit field of ", +bits));
            sizes(ctx, View<DynUInt64>(DynUInt64(bm::maskOf(bits)), bits), bits, [&](BitStreamReader& reader) {
                DynUInt64 out;
                zd::read(reader, out, bits);
                MC_REQUIRE(ctx, out == bm::maskOf(bits), "value", "another value is read back");
            });
        }
        return;
    default:
        for (uint8_t bits = 1; bits <= 32; ++bits)
        {
            ctx.note(str("signed dynamic bit field of ", +bits));
            sizes(ctx, View<DynInt32>(DynInt32(-1), bits), bits, [&](BitStreamReader& reader) {
                DynInt32 out;
                zd::read(reader, out, bits);
                MC_REQUIRE(ctx, out == -1, "value", "another value is read back");
            });
        }
        return;
    }
}

size_t sizePrefix(size_t size)
{
    return 8 * Bits::varLen(size, false, 5);
}

// strings, bytes and bit buffers around every border of the length prefix
void lengths(Ctx& ctx)
{
    const uint32_t kind = ctx.choose(3);
    const size_t length = ctx.pick(std::vector<size_t>{0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 126,
            127, 128, 129, 130, 1015, 1016, 1017, 1023, 1024, 1025, 16382, 16383, 16384, 16385, 131064, 131071, 131072,
            2097151, 2097152, 2097153});
    if (length > 20000 && !ctx.thorough() && kind != 2 && length > 200000)
    {
        ctx.skip();
    }
    const size_t bytesNeeded = kind == 2 ? (length + 7) / 8 : length;
    const std::string data(bytesNeeded, '\x5a');
    ctx.note(str(kind == 0 ? "string" : kind == 1 ? "bytes" : "bit buffer", " of length ", length));
    ctx.state(Ctx::mix(kind, length));
    if (kind == 0)
    {
        sizes(ctx, std::string_view(data), sizePrefix(length) + 8 * length, [&](BitStreamReader& reader) {
            String out;
            zd::read(reader, out);
            MC_REQUIRE(ctx, out == data, "value", "another value is read back");
        });
    }
    else if (kind == 1)
    {
        sizes(ctx, BytesView(reinterpret_cast<const uint8_t*>(data.data()), data.size()),
                sizePrefix(length) + 8 * length, [&](BitStreamReader& reader) {
                    Bytes out;
                    zd::read(reader, out);
                    MC_REQUIRE(ctx, std::string(out.begin(), out.end()) == data, "value", "another value is read");
                });
    }
    else
    {
        const BitBuffer value(Span<const uint8_t>(reinterpret_cast<const uint8_t*>(data.data()), data.size()), length);
        sizes(ctx, BitBufferView(value), sizePrefix(length) + length, [&](BitStreamReader& reader) {
            BitBuffer out;
            zd::read(reader, out);
            MC_REQUIRE(ctx, out == value, "value", "another value is read back");
        });
    }
}

// lengths the 32-bit bit count of such data cannot hold; a region of untouched zero pages stands for the data
void hugeLengths(Ctx& ctx)
{
    const size_t region = size_t(1) << 31;
    static void* memory = mmap(nullptr, region, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    MC_REQUIRE(ctx, memory != MAP_FAILED, "mmap", "no address space");
    const uint32_t kind = ctx.choose(2);
    const size_t length = ctx.pick(std::vector<size_t>{(1U << 21) - 1, 1U << 21, (1U << 28) - 1, 1U << 28,
            (1U << 29) - 5, (1U << 29) - 1, 1U << 29, (1U << 29) + 1, (1U << 30), (1U << 31) - 1, 1U << 31});
    const size_t start = ctx.pick(std::vector<size_t>{0, 8, size_t(1) << 32, (size_t(1) << 35) + 8});
    const std::string_view text(static_cast<const char*>(memory), length);
    const BytesView data(static_cast<const uint8_t*>(memory), length);
    ctx.note(str(kind == 0 ? "string" : "bytes", " of length ", length, " at ", start));
    ctx.state(Ctx::mix(Ctx::mix(kind, length), start));
    const bool fits = length < (size_t(1) << 31);
    const size_t expected = sizePrefix(length) + 8 * length;
    std::vector<uint64_t> results;
    for (int what = 0; what < 3; ++what)
    {
        try
        {
            size_t result = 0;
            if (what == 0)
            {
                result = kind == 0 ? zd::bitSizeOf(text, start) : zd::bitSizeOf(data, start);
            }
            else if (what == 1)
            {
                result = kind == 0 ? zd::initializeOffsets(text, start) : zd::initializeOffsets(data, start);
            }
            else
            {
                BitStreamWriter counter(nullptr, 0);
                counter.setBitPosition(start);
                if (kind == 0)
                {
                    counter.writeString(text);
                }
                else
                {
                    counter.writeBytes(data);
                }
                result = counter.getBitPosition() - start;
            }
            MC_REQUIRE(ctx, fits, "huge-accepted", "a length beyond the maximum is accepted by ", what);
            MC_REQUIRE(ctx, result == expected, "huge-size", result, " expected ", expected, " by ", what);
        }
        catch (const CppRuntimeException& e)
        {
            MC_REQUIRE(ctx, !fits, "huge-rejected", e.what(), " by ", what);
        }
        ctx.step();
    }
}

template <typename T>
void object(Ctx& ctx, const T& data)
{
    Bits model;
    obj::std_allocator::encode(model, data);
    const View<T> view(data);
    ctx.state(Ctx::hashOf(mc::hex(model.bytes().data(), model.bytes().size())));
    sizes(ctx, view, model.pos, [&](BitStreamReader& reader) {
        T out;
        (void)zd::read(reader, out);
        MC_REQUIRE(ctx, out == data, "value", "another object is read back");
    });
    const auto buffer = serialize(view);
    MC_REQUIRE(ctx, buffer.getBitSize() == model.pos, "serialized-size", buffer.getBitSize(), " expected ", model.pos);
    const auto bytes = serializeToBytes(view);
    MC_REQUIRE(ctx, bytes.size() == (model.pos + 7) / 8, "serialized-bytes", bytes.size());
    const DataView<T> owning = deserialize<T>(buffer);
    MC_REQUIRE(ctx, serialize(owning).getBitSize() == model.pos, "data-view-size", "");
    MC_REQUIRE(ctx, serializeToBytes(owning).size() == bytes.size(), "data-view-bytes", "");
    if (ctx.wantSample())
    {
        ctx.sample(str("object of ", model.pos, " bits from every start"));
    }
}

void objects(Ctx& ctx)
{
    namespace o = obj::std_allocator;
    switch (ctx.choose(4))
    {
    case 0:
        return object(ctx, o::creatorObject(ctx, 0));
    case 1:
        return object(ctx, o::walkerObject(ctx, 0));
    case 2:
        return object(ctx, o::reflectableObject(ctx, 0));
    default:
        return object(ctx, o::reflectableUtilUnion(ctx, 1));
    }
}

template <typename KIND>
void arrayOf(Ctx& ctx, const KIND& kind, int layout)
{
    const uint32_t start = ctx.pick(std::vector<uint32_t>{0, 3, 7});
    const uint32_t length = ctx.pick(std::vector<uint32_t>{0, 1, 2, 3, 127, 128});
    std::vector<uint32_t> indexes;
    for (uint32_t i = 0; i < length; ++i)
    {
        // short arrays in every combination
        indexes.push_back(length < 3 || (length == 3 && ctx.thorough()) ? ctx.choose(kind.alphabet())
                                                                        : (i * 7 + i / 3) % kind.alphabet());
    }
    ctx.note(str(kind.name(), " array ", kit::layoutName(layout), " at ", start, " length ", length));
    if (!kind.run(ctx, layout, indexes, start))
    {
        ctx.skip();
    }
    ctx.state(Ctx::mix(Ctx::hashOf(kind.name()), (start * 1000 + length) * 8 + static_cast<uint32_t>(layout)));
}

void arrays(Ctx& ctx)
{
    const auto* kind = kit::kinds()[ctx.choose(static_cast<uint32_t>(kit::kinds().size()))];
    arrayOf(ctx, *kind, static_cast<int>(ctx.choose(5)));
}

void packedArrays(Ctx& ctx)
{
    const auto* kind = kitp::kinds()[ctx.choose(static_cast<uint32_t>(kitp::kinds().size()))];
    arrayOf(ctx, *kind, static_cast<int>(ctx.choose(5)));
}

// alignment of every position
void alignment(Ctx& ctx)
{
    const size_t base = ctx.pick(std::vector<size_t>{0, (size_t(1) << 32) - 64, size_t(1) << 40});
    for (size_t align = 1; align <= 130; ++align)
    {
        for (size_t pos = base; pos < base + 300; ++pos)
        {
            const size_t expected = (pos + align - 1) / align * align;
            MC_REQUIRE(ctx, alignTo(align, pos) == expected, "align", pos, " to ", align, " is ", alignTo(align, pos));
            BitStreamWriter counter(nullptr, 0);
            counter.setBitPosition(pos);
            counter.alignTo(align);
            MC_REQUIRE(ctx, counter.getBitPosition() == expected, "align-written", pos, " to ", align, " is ",
                    counter.getBitPosition());
            ctx.step(2);
        }
    }
    ctx.state(base);
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {{"fixed widths", fixedWidths, 1}, {"other numbers", otherNumbers, 1}, {"lengths", lengths},
                    {"huge lengths", hugeLengths}, {"objects", objects, 4}, {"arrays", arrays, 3},
                    {"packed arrays", packedArrays, 3}, {"alignment", alignment, 1}});
}
