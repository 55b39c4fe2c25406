// C04: reading arbitrary or truncated bytes.
// mc: level=model_checking variants=default,arch32 sources=std_test_object:Walker
#include <functional>
#include <memory>

#include "bitmodel.h"
#include "mc.h"
#include "test_object/std_allocator/WalkerObject.h"
#include "zserio/ArrayView.h"
#include "zserio/BitBuffer.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/SerializeUtil.h"

using namespace zserio;
using bm::Bits;
using mc::Ctx;
using mc::str;
namespace zd = zserio::detail;

namespace
{

std::unique_ptr<uint8_t[]> exact(const std::vector<uint8_t>& bytes)
{
    std::unique_ptr<uint8_t[]> copy(new uint8_t[bytes.size()]);
    std::copy(bytes.begin(), bytes.end(), copy.get());
    return copy;
}

// an operation gives a text for the value read; the model gives the same text or "fail"
struct Op
{
    std::string name;
    std::function<std::string(BitStreamReader&)> read;
    std::function<std::string(Bits&)> model; // moves the model's position when it succeeds
};

std::string num(uint64_t v)
{
    return std::to_string(v);
}
std::string snum(int64_t v)
{
    return std::to_string(v);
}
template <typename C>
std::string raw(const C& data)
{
    return "x" + mc::hex(data.data(), data.size());
}

std::string modelVar(Bits& b, bool isSigned, unsigned maxBytes)
{
    uint64_t magnitude = 0;
    bool negative = false;
    const size_t before = b.pos;
    if (!b.getVar(isSigned, maxBytes, magnitude, negative))
    {
        return "fail";
    }
    if (maxBytes == 9 && isSigned && negative && magnitude == 0 && b.pos - before == 8)
    {
        return snum(INT64_MIN);
    }
    return isSigned ? snum(negative ? -static_cast<int64_t>(magnitude) : static_cast<int64_t>(magnitude))
                    : num(magnitude);
}

// length prefix, then bits; "fail" when there is less
std::string modelBlob(Bits& b, bool bitCount)
{
    uint64_t length = 0;
    bool negative = false;
    if (!b.getVar(false, 5, length, negative) || length > 0x7fffffffU)
    {
        return "fail";
    }
    const uint64_t bits = bitCount ? length : length * 8;
    if (b.pos + bits > b.bits.size())
    {
        return "fail";
    }
    std::vector<uint8_t> out((bits + 7) / 8, 0);
    for (uint64_t i = 0; i < bits; ++i)
    {
        out[i / 8] = static_cast<uint8_t>(out[i / 8] | (b.get(1) << (7 - i % 8)));
    }
    return raw(out) + (bitCount ? "/" + num(length) : "");
}

std::vector<Op> makeOps(bool full)
{
    std::vector<Op> ops;
    auto bits = [&](unsigned n) {
        const uint8_t width = static_cast<uint8_t>(n);
        ops.push_back({str("bits", n),
                [=](BitStreamReader& r) {
                    return num(n <= 32 ? r.readUnsignedBits32(width) : r.readUnsignedBits64(width));
                },
                [=](Bits& b) { return b.canGet(n) ? num(b.get(n)) : "fail"; }});
    };
    auto ints = [&](unsigned n) {
        const uint8_t width = static_cast<uint8_t>(n);
        ops.push_back({str("int", n),
                [=](BitStreamReader& r) {
                    return snum(n <= 32 ? r.readSignedBits32(width) : r.readSignedBits64(width));
                },
                [=](Bits& b) { return b.canGet(n) ? snum(b.getSigned(n)) : "fail"; }});
    };
    auto align = [&](size_t n) {
        ops.push_back({str("align", n),
                [=](BitStreamReader& r) {
                    r.alignTo(n);
                    return std::string("aligned");
                },
                [=](Bits& b) {
                    const size_t skip = (n - b.pos % n) % n;
                    if (!b.canGet(skip))
                    {
                        return std::string("fail");
                    }
                    b.pos += skip;
                    return std::string("aligned");
                }});
    };
    auto jump = [&](const char* name, size_t target) {
        ops.push_back({name,
                [=](BitStreamReader& r) {
                    const size_t to = target == SIZE_MAX ? r.getBufferBitSize()
                                                         : target == SIZE_MAX - 1 ? r.getBufferBitSize() + 1 : target;
                    r.setBitPosition(to);
                    return std::string("moved");
                },
                [=](Bits& b) {
                    const size_t to =
                            target == SIZE_MAX ? b.bits.size() : target == SIZE_MAX - 1 ? b.bits.size() + 1 : target;
                    if (to > b.bits.size())
                    {
                        return std::string("fail");
                    }
                    b.pos = to;
                    return std::string("moved");
                }});
    };
    bits(1);
    bits(7);
    bits(8);
    bits(33);
    bits(64);
    ints(5);
    ints(32);
    align(8);
    jump("to start", 0);
    jump("to end", SIZE_MAX);
    jump("past end", SIZE_MAX - 1);
    ops.push_back({"varsize", [](BitStreamReader& r) { return num(r.readVarSize()); },
            [](Bits& b) {
                uint64_t v = 0;
                bool n = false;
                return b.getVar(false, 5, v, n) && v <= 0x7fffffffU ? num(v) : "fail";
            }});
    ops.push_back({"varint", [](BitStreamReader& r) { return snum(r.readVarInt()); },
            [](Bits& b) { return modelVar(b, true, 9); }});
    ops.push_back({"string", [](BitStreamReader& r) { return raw(r.readString()); },
            [](Bits& b) { return modelBlob(b, false); }});
    ops.push_back({"bit buffer",
            [](BitStreamReader& r) {
                const BitBuffer v = r.readBitBuffer();
                return raw(v.getData()) + "/" + num(v.getBitSize());
            },
            [](Bits& b) { return modelBlob(b, true); }});
    if (full)
    {
        bits(2);
        bits(9);
        bits(31);
        bits(32);
        bits(57);
        ints(17);
        ints(64);
        align(3);
        align(64);
        align(100);
        jump("to 9", 9);
        ops.push_back({"bool", [](BitStreamReader& r) { return num(r.readBool() ? 1 : 0); },
                [](Bits& b) { return b.canGet(1) ? num(b.get(1)) : "fail"; }});
        ops.push_back({"bytes", [](BitStreamReader& r) { return raw(r.readBytes()); },
                [](Bits& b) { return modelBlob(b, false); }});
        ops.push_back({"varint16", [](BitStreamReader& r) { return snum(r.readVarInt16()); },
                [](Bits& b) { return modelVar(b, true, 2); }});
        ops.push_back({"varint32", [](BitStreamReader& r) { return snum(r.readVarInt32()); },
                [](Bits& b) { return modelVar(b, true, 4); }});
        ops.push_back({"varint64", [](BitStreamReader& r) { return snum(r.readVarInt64()); },
                [](Bits& b) { return modelVar(b, true, 8); }});
        ops.push_back({"varuint16", [](BitStreamReader& r) { return num(r.readVarUInt16()); },
                [](Bits& b) { return modelVar(b, false, 2); }});
        ops.push_back({"varuint32", [](BitStreamReader& r) { return num(r.readVarUInt32()); },
                [](Bits& b) { return modelVar(b, false, 4); }});
        ops.push_back({"varuint64", [](BitStreamReader& r) { return num(r.readVarUInt64()); },
                [](Bits& b) { return modelVar(b, false, 8); }});
        ops.push_back({"varuint", [](BitStreamReader& r) { return num(r.readVarUInt()); },
                [](Bits& b) { return modelVar(b, false, 9); }});
        ops.push_back({"float64",
                [](BitStreamReader& r) {
                    const double d = r.readFloat64();
                    uint64_t u = 0;
                    std::memcpy(&u, &d, 8);
                    return num(u);
                },
                [](Bits& b) { return b.canGet(64) ? num(b.get(64)) : "fail"; }});
        ops.push_back({"float32",
                [](BitStreamReader& r) {
                    const float d = r.readFloat32();
                    uint32_t u = 0;
                    std::memcpy(&u, &d, 4);
                    return num(u);
                },
                [](Bits& b) { return b.canGet(32) ? num(b.get(32)) : "fail"; }});
    }
    return ops;
}

// contents: i-th byte of the pattern
uint8_t patternByte(uint32_t pattern, size_t i)
{
    switch (pattern)
    {
    case 0:
        return 0;
    case 1:
        return 0xff;
    case 2: // short lengths at every byte
        return static_cast<uint8_t>(i % 3 + 1);
    case 3: // continued lengths
        return static_cast<uint8_t>(0x80 + i);
    case 4:
        return static_cast<uint8_t>(0x81 - 0x40 * (i % 2) + i);
    default:
        return static_cast<uint8_t>(0x9d * (i + 3) ^ (i << 3));
    }
}
const uint32_t numPatterns = 6;

std::string readOne(Ctx& ctx, const Op& op, BitStreamReader& reader)
{
    try
    {
        return op.read(reader);
    }
    catch (const CppRuntimeException&)
    {
        return "fail";
    }
    ctx.skip();
}

void sequence(Ctx& ctx, const std::vector<Op>& ops, uint32_t depth, const std::vector<size_t>& sizes)
{
    const size_t size = ctx.pick(sizes);
    const uint32_t pattern = ctx.choose(numPatterns);
    std::vector<uint8_t> bytes((size + 7) / 8);
    for (size_t i = 0; i < bytes.size(); ++i)
    {
        bytes[i] = patternByte(pattern, i);
    }
    const auto buffer = exact(bytes);
    BitStreamReader reader(buffer.get(), size, BitsTag());
    Bits model = Bits::fromBytes(bytes.data(), size);
    std::string text = str(size, " bits of ", mc::hex(bytes.data(), bytes.size()), ":");
    for (uint32_t i = 0; i < depth; ++i)
    {
        const Op& op = ops[ctx.choose(static_cast<uint32_t>(ops.size()))];
        text += " " + op.name;
        ctx.note(text);
        const size_t before = reader.getBitPosition();
        mc::g_maxAlloc = 0;
        Bits trial = model;
        const std::string expected = op.model(trial);
        const std::string got = readOne(ctx, op, reader);
        ctx.step();
        MC_REQUIRE(ctx, got == expected, "value", text, ": got ", got, " expected ", expected);
        const size_t position = reader.getBitPosition();
        MC_REQUIRE(ctx, position <= size, "position-past-end", text, ": position ", position, " of ", size);
        if (expected == "fail")
        {
            // what was consumed by the parts that were read before the failing one stays consumed
            MC_REQUIRE(ctx, position >= before, "position-moved-back", text, ": from ", before, " to ", position);
            model.pos = position;
        }
        else
        {
            MC_REQUIRE(ctx, position == trial.pos, "position", text, ": position ", position, " expected ", trial.pos);
            model.pos = trial.pos;
        }
        ctx.state(Ctx::mix(Ctx::mix(size * 8 + pattern, position), Ctx::hashOf(op.name) + (expected == "fail")));
    }
    if (ctx.wantSample())
    {
        ctx.sample(text);
    }
}

void sequences(Ctx& ctx)
{
    static const std::vector<Op> ops = makeOps(true);
    sequence(ctx, ops, ctx.thorough() ? 3 : 2,
            {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 39, 40, 41, 47, 48,
                    56, 57, 63, 64, 65, 66, 71, 72, 73, 79, 80, 87, 96, 97, 127, 128, 129, 136});
}

void deepSequences(Ctx& ctx)
{
    static const std::vector<Op> ops = makeOps(false);
    sequence(ctx, ops, ctx.thorough() ? 5 : 4, {0, 1, 7, 9, 31, 33, 65, 77});
}

// every byte string of the bound, each operation from each start, cut at each bit of the last byte
void allStrings(Ctx& ctx)
{
    static const std::vector<Op> ops = makeOps(true);
    const Op& op = ops[ctx.choose(static_cast<uint32_t>(ops.size()))];
    const uint32_t length = ctx.thorough() ? 3 : 2;
    const uint32_t first = ctx.choose(256);
    const uint32_t total = length == 3 ? 65536 : 256;
    for (uint32_t rest = 0; rest < total; ++rest)
    {
        std::vector<uint8_t> bytes = {static_cast<uint8_t>(first), static_cast<uint8_t>(rest)};
        if (length == 3)
        {
            bytes.push_back(static_cast<uint8_t>(rest >> 8));
        }
        const auto buffer = exact(bytes);
        for (const size_t start : {0, 3})
        {
            for (const size_t size : {length * 8, length * 8 - 1, length * 8 - 5})
            {
                BitStreamReader reader(buffer.get(), size, BitsTag());
                reader.setBitPosition(start);
                Bits model = Bits::fromBytes(bytes.data(), size);
                model.pos = start;
                const std::string expected = op.model(model);
                const std::string got = readOne(ctx, op, reader);
                if (got != expected)
                {
                    ctx.note(str(op.name, " from bit ", start, " of ", size, " bits of ",
                            mc::hex(bytes.data(), bytes.size())));
                }
                MC_REQUIRE(ctx, got == expected, "value", "got ", got, " expected ", expected);
                MC_REQUIRE(ctx, reader.getBitPosition() <= size, "position-past-end", op.name);
                MC_REQUIRE(ctx, expected == "fail" || reader.getBitPosition() == model.pos, "position", op.name);
                ctx.step();
            }
        }
    }
    ctx.state(Ctx::mix(Ctx::hashOf(op.name), first));
    ctx.cases(total * 6);
}

// a claimed length against the data that is there
template <typename T, bool PACKED>
void claimed(Ctx& ctx)
{
    const uint64_t length = ctx.pick(std::vector<uint64_t>{0, 1, 2, 3, 5, 8, 100, 127, 128, 16384, 1U << 20, 1U << 24,
            (1U << 28) - 1, (1U << 31) - 1, UINT64_C(1) << 58, UINT64_C(1) << 59, UINT64_C(1) << 60,
            (UINT64_C(1) << 61) + 1, UINT64_MAX / 24 + 1, UINT64_C(1) << 63, UINT64_MAX});
    const size_t prealloc = ctx.pick(std::vector<size_t>{0, 1, 64, 1024, size_t(128) * 1024, SIZE_MAX});
    const uint32_t available = ctx.choose(6);
    const uint32_t pattern = ctx.choose(numPatterns);
    const bool fixedLength = ctx.flip();
    const bool aligned = ctx.flip();
    // elements whose packed form takes no bits may be as many as the length says
    if (PACKED && length > 20000 && available > 0 && (patternByte(pattern, 0) & 0xfe) == 0x80)
    {
        ctx.skip();
    }
    // without a limit the length itself is trusted
    if (prealloc == SIZE_MAX && length > 16384)
    {
        ctx.skip();
    }
    // only a length given from outside, such as by a field of 64 bits, is above what varsize stores
    if (!fixedLength && length > (1U << 31) - 1)
    {
        ctx.skip();
    }
    Bits bits;
    if (!fixedLength)
    {
        bits.putVarSize(static_cast<uint32_t>(length));
    }
    for (uint32_t i = 0; i < available * available; ++i)
    {
        bits.put(patternByte(pattern, i), 8);
    }
    const std::vector<uint8_t> bytes = bits.bytes();
    const auto buffer = exact(bytes);
    ctx.note(str("length ", length, " of ", sizeof(T), " byte elements, preallocation ", prealloc, " data ",
            mc::hex(bytes.data(), bytes.size()), PACKED ? " packed" : "", fixedLength ? " fixed" : "",
            aligned ? " aligned" : ""));
    BitStreamReader reader(buffer.get(), bits.bits.size(), BitsTag(), ArrayPreallocation(prealloc));
    std::string result = "ok";
    size_t elements = 0;
    const int64_t live = mc::g_liveAllocs;
    uint64_t largest = 0;
    {
        Vector<T> out;
        mc::g_maxAlloc = 0;
        try
        {
            using zd::ArrayType;
            if constexpr (PACKED)
            {
                fixedLength ? (aligned ? zd::readPacked<ArrayType::ALIGNED>(reader, out, length)
                                       : zd::readPacked<ArrayType::NORMAL>(reader, out, length))
                            : (aligned ? zd::readPacked<ArrayType::ALIGNED_AUTO>(reader, out)
                                       : zd::readPacked<ArrayType::AUTO>(reader, out));
            }
            else
            {
                fixedLength ? (aligned ? zd::read<ArrayType::ALIGNED>(reader, out, length)
                                       : zd::read<ArrayType::NORMAL>(reader, out, length))
                            : (aligned ? zd::read<ArrayType::ALIGNED_AUTO>(reader, out)
                                       : zd::read<ArrayType::AUTO>(reader, out));
            }
        }
        catch (const CppRuntimeException&)
        {
            result = "exception";
        }
        largest = mc::g_maxAlloc;
        elements = out.size();
    }
    MC_REQUIRE(ctx, mc::g_liveAllocs == live, "leak", mc::g_liveAllocs - live, " blocks");
    if (result == "ok")
    {
        MC_REQUIRE(ctx, elements == length, "length", elements, " elements read");
    }
    // what is allocated follows the elements really read, doubled by the growth of the vector, or the limit;
    // one exception object is allocated by the language
    const uint64_t allowed =
            prealloc == SIZE_MAX ? UINT64_MAX : std::max<uint64_t>(prealloc, 2 * (elements + 1) * sizeof(T)) + 1024;
    MC_REQUIRE(ctx, largest <= allowed, "allocation", largest, " bytes allocated for ", elements, " elements");
    if (!PACKED && length > 8 * bytes.size())
    {
        MC_REQUIRE(ctx, result == "exception", "too-long", "an array longer than the data is accepted");
    }
    MC_REQUIRE(ctx, reader.getBitPosition() <= bits.bits.size(), "position-past-end", reader.getBitPosition());
    ctx.step();
    ctx.state(Ctx::mix(Ctx::mix(length, available * 8 + pattern), Ctx::hashOf(result) + elements * 2 + PACKED));
}

__attribute__((noinline)) std::string blobRead(BitStreamReader& reader, uint32_t kind)
{
    try
    {
        if (kind == 0)
        {
            return raw(reader.readString());
        }
        if (kind == 1)
        {
            return raw(reader.readBytes());
        }
        const BitBuffer v = reader.readBitBuffer();
        std::vector<uint8_t> out((v.getBitSize() + 7) / 8, 0);
        for (size_t i = 0; i < v.getBitSize(); ++i)
        {
            out[i / 8] = static_cast<uint8_t>(out[i / 8] | (v.getBuffer()[i / 8] & (0x80U >> (i % 8))));
        }
        return raw(out) + "/" + num(v.getBitSize());
    }
    catch (const CppRuntimeException&)
    {
        return "fail";
    }
}

// strings, bytes and bit buffers of any claimed length: what the input cannot hold is refused and reserves nothing
void claimedBlobs(Ctx& ctx)
{
    const uint32_t kind = ctx.choose(3);
    const uint32_t bit = ctx.choose(32);
    const int64_t length = (INT64_C(1) << bit) + ctx.choose(5) - 2;
    const uint32_t start = ctx.choose(9);
    if (length < 0 || length > INT64_C(0x7fffffff))
    {
        ctx.skip();
    }
    const uint32_t available = ctx.choose(7);
    const uint32_t cut = ctx.choose(3); // bits missing at the end
    Bits bits(start, 1);
    bits.pos = start;
    bits.putVarSize(static_cast<uint32_t>(length));
    const size_t begin = bits.pos;
    for (uint32_t i = 0; i < available; ++i)
    {
        bits.put('a' + i, 8);
    }
    const size_t total = bits.bits.size() - (available > 0 ? cut : 0);
    const std::vector<uint8_t> bytes = bits.bytes();
    const auto buffer = exact(std::vector<uint8_t>(bytes.begin(), bytes.begin() + static_cast<std::ptrdiff_t>((total + 7) / 8)));
    ctx.note(str("kind ", kind, " of claimed length ", length, " at bit ", start, ", ", total - begin, " bits follow"));
    BitStreamReader reader(buffer.get(), total, BitsTag());
    reader.setBitPosition(start);
    Bits model = bits;
    model.bits.resize(total);
    model.pos = start;
    const std::string expected = modelBlob(model, kind == 2);
    const int64_t live = mc::g_liveAllocs;
    mc::g_maxAlloc = 0;
    const std::string result = blobRead(reader, kind);
    const uint64_t largest = mc::g_maxAlloc;
    MC_REQUIRE(ctx, mc::g_liveAllocs - live <= 1, "leak", mc::g_liveAllocs - live, " blocks"); // the text of the result
    MC_REQUIRE(ctx, result == expected, "blob", "read as ", result, ", expected ", expected);
    MC_REQUIRE(ctx, largest <= 1024, "allocation", largest, " bytes allocated for a claimed length of ", length);
    MC_REQUIRE(ctx, reader.getBitPosition() <= total, "position-past-end", reader.getBitPosition());
    ctx.step();
    ctx.state(Ctx::mix(Ctx::mix(static_cast<uint64_t>(length), start * 8 + kind), available * 4 + cut));
}

enum class Color : uint8_t
{
    NONE = 2,
    RED = 3,
    BLACK = 7
};

void claimedLengths(Ctx& ctx)
{
    namespace to = test_object::std_allocator;
    switch (ctx.choose(15))
    {
    case 0:
        return claimed<Bool, false>(ctx);
    case 1:
        return claimed<UInt8, false>(ctx);
    case 2:
        return claimed<UInt64, false>(ctx);
    case 3:
        return claimed<Int33, false>(ctx);
    case 4:
        return claimed<VarUInt, false>(ctx);
    case 5:
        return claimed<VarSize, false>(ctx);
    case 6:
        return claimed<String, false>(ctx);
    case 7:
        return claimed<Bytes, false>(ctx);
    case 8:
        return claimed<BitBuffer, false>(ctx);
    case 9:
        return claimed<to::WalkerUnion, false>(ctx);
    case 10:
        return claimed<Float16, false>(ctx);
    case 11:
        return claimed<UInt8, true>(ctx);
    case 12:
        return claimed<Int64, true>(ctx);
    case 13:
        return claimed<VarInt, true>(ctx);
    default:
        return claimed<UInt33, true>(ctx);
    }
}

// packed arrays cut at every bit and changed at every bit
template <typename T>
void packedDamage(Ctx& ctx, const std::vector<typename T::ValueType>& alphabet)
{
    const uint32_t length = 1 + ctx.choose(4);
    Vector<T> data;
    for (uint32_t i = 0; i < length; ++i)
    {
        data.push_back(T(ctx.pick(alphabet)));
    }
    const ArrayView<const T> view(data);
    using zd::ArrayType;
    const size_t bits = zd::bitSizeOfPacked<ArrayType::AUTO>(view, 0);
    std::vector<uint8_t> bytes((bits + 7) / 8);
    BitStreamWriter writer(bytes.data(), bits, BitsTag());
    zd::writePacked<ArrayType::AUTO>(writer, view);
    const std::string text = mc::hex(bytes.data(), bytes.size());
    for (size_t cut = 0; cut <= bits; ++cut)
    {
        ctx.note(str("packed array ", text, " cut after bit ", cut, " of ", bits));
        const auto buffer = exact(std::vector<uint8_t>(bytes.begin(), bytes.begin() + static_cast<ptrdiff_t>((cut + 7) / 8)));
        BitStreamReader reader(buffer.get(), cut, BitsTag());
        Vector<T> out;
        bool failed = false;
        try
        {
            zd::readPacked<ArrayType::AUTO>(reader, out);
        }
        catch (const CppRuntimeException&)
        {
            failed = true;
        }
        MC_REQUIRE(ctx, failed == (cut < bits), "packed-cut", failed ? "rejected" : "accepted");
        MC_REQUIRE(ctx, failed || out == data, "packed-value", "");
        MC_REQUIRE(ctx, reader.getBitPosition() <= cut, "position-past-end", reader.getBitPosition());
        ctx.step();
    }
    for (size_t flip = 0; flip < bits; ++flip)
    {
        ctx.note(str("packed array ", text, " with bit ", flip, " changed"));
        std::vector<uint8_t> copy(bytes);
        copy[flip / 8] = static_cast<uint8_t>(copy[flip / 8] ^ (0x80 >> (flip % 8)));
        const auto buffer = exact(copy);
        BitStreamReader reader(buffer.get(), bits, BitsTag());
        Vector<T> out;
        bool failed = false;
        try
        {
            zd::readPacked<ArrayType::AUTO>(reader, out);
        }
        catch (const CppRuntimeException&)
        {
            failed = true;
        }
        MC_REQUIRE(ctx, reader.getBitPosition() <= bits, "position-past-end", reader.getBitPosition());
        ctx.state(Ctx::mix(Ctx::hashOf(text), flip * 2 + failed));
        ctx.step();
    }
    ctx.cases(2 * bits);
}

void packedDamages(Ctx& ctx)
{
    switch (ctx.choose(5))
    {
    case 0:
        return packedDamage<UInt8>(ctx, {0, 1, 255});
    case 1:
        return packedDamage<Int64>(ctx, {0, INT64_MAX, INT64_MIN, 5});
    case 2:
        return packedDamage<UInt64>(ctx, {0, UINT64_MAX, 3});
    case 3:
        return packedDamage<VarInt>(ctx, {0, INT64_MIN, 1000});
    default:
        return packedDamage<VarSize>(ctx, {0, 0x7fffffffU, 1000});
    }
}

// a buffer that is larger or smaller than its bit size says
void construction(Ctx& ctx)
{
    const size_t bytes = ctx.choose(4);
    const size_t bits = ctx.choose(40);
    std::vector<uint8_t> data(bytes, 0xff);
    const auto buffer = exact(data);
    bool failed = false;
    ctx.note(str(bits, " bits in ", bytes, " bytes"));
    try
    {
        BitStreamReader reader(Span<const uint8_t>(buffer.get(), bytes), bits);
        MC_REQUIRE(ctx, reader.getBufferBitSize() == bits, "buffer-bit-size", reader.getBufferBitSize());
        for (size_t i = 0; i < bits; ++i)
        {
            MC_REQUIRE(ctx, reader.readUnsignedBits32(1) == 1, "value", "");
        }
        bool end = false;
        try
        {
            (void)reader.readUnsignedBits32(1);
        }
        catch (const CppRuntimeException&)
        {
            end = true;
        }
        MC_REQUIRE(ctx, end, "read-past-end", "a bit behind the end is read");
    }
    catch (const CppRuntimeException&)
    {
        failed = true;
    }
    MC_REQUIRE(ctx, failed == (bits > bytes * 8), "bit-size-check", failed ? "rejected" : "accepted");
    ctx.step();
    ctx.state(bytes * 100 + bits);
}

// buffers of any claimed size: those whose bits cannot be counted are refused before anything is read
__attribute__((noinline)) std::string constructed(const std::function<void()>& make)
{
    try
    {
        make();
        return "accepted";
    }
    catch (const CppRuntimeException&)
    {
        return "refused";
    }
    catch (const std::exception& e)
    {
        return str("another exception ", e.what());
    }
}
void hugeBuffers(Ctx& ctx)
{
    const uint32_t bit = ctx.choose(64);
    const size_t size = (size_t(1) << bit) + ctx.choose(3) - 1;
    const uint32_t way = ctx.choose(3);
    static const uint8_t data[16] = {0x80};
    ctx.note(str(size, " bytes, constructor ", way));
    const bool countable = size <= SIZE_MAX / 8;
    if (countable && size > SIZE_MAX / 8 - 64)
    {
        ctx.skip(); // near the limit, where a reader may need some reserve
    }
    const std::string result = constructed([&] {
        if (way == 0)
        {
            BitStreamReader reader(data, size);
            MC_REQUIRE(ctx, reader.getBufferBitSize() == size * 8 && reader.getBitPosition() == 0, "huge-buffer", "another size");
        }
        else if (way == 1)
        {
            BitStreamReader reader(Span<const uint8_t>(data, size));
            MC_REQUIRE(ctx, reader.getBufferBitSize() == size * 8 && reader.getBitPosition() == 0, "huge-buffer", "another size");
        }
        else
        {
            BitStreamReader reader(Span<const uint8_t>(data, size), size_t(1));
            MC_REQUIRE(ctx, reader.getBufferBitSize() == 1, "huge-buffer", "another size");
        }
    });
    MC_REQUIRE(ctx, result == (countable && !(way == 2 && size == 0) ? "accepted" : "refused"), "huge-buffer", "a buffer of ", size, " bytes is ", result);
    ctx.step();
    ctx.state(str(size, way));
}

// whole objects: cut anywhere, any byte anything
void objects(Ctx& ctx)
{
    namespace to = test_object::std_allocator;
    to::WalkerObject data;
    data.identifier = ctx.flip() ? 1 : 0;
    if (data.identifier != 0)
    {
        data.nested.emplace(to::WalkerNested("abc"));
    }
    data.text = ctx.flip() ? "" : "text";
    const uint32_t unions = ctx.choose(3);
    for (uint32_t i = 0; i < unions; ++i)
    {
        data.unionArray.emplace_back(in_place_index<to::WalkerUnion::Tag::text>, "u");
    }
    if (ctx.flip())
    {
        data.optionalUnionArray.emplace();
        data.optionalUnionArray->emplace_back(in_place_index<to::WalkerUnion::Tag::nestedArray>);
    }
    data.choiceSelector = 16;
    data.choiceField.emplace<to::WalkerChoice::Tag::value16>();
    const BitBuffer buffer = serialize(data);
    const std::vector<uint8_t> bytes(buffer.getData().begin(), buffer.getData().end());
    for (size_t cut = 0; cut < buffer.getBitSize(); ++cut)
    {
        ctx.note(str("object ", mc::hex(bytes.data(), bytes.size()), " cut after bit ", cut));
        const auto copy = exact(std::vector<uint8_t>(bytes.begin(), bytes.begin() + static_cast<ptrdiff_t>((cut + 7) / 8)));
        BitStreamReader reader(copy.get(), cut, BitsTag());
        bool failed = false;
        try
        {
            to::WalkerObject out;
            (void)zd::read(reader, out);
        }
        catch (const CppRuntimeException&)
        {
            failed = true;
        }
        MC_REQUIRE(ctx, failed, "object-cut", "accepted");
        ctx.step();
    }
    for (size_t at = 0; at < bytes.size(); ++at)
    {
        for (uint32_t value = 0; value < 256; ++value)
        {
            ctx.note(str("object ", mc::hex(bytes.data(), bytes.size()), " byte ", at, " is ", value));
            std::vector<uint8_t> copy(bytes);
            copy[at] = static_cast<uint8_t>(value);
            const auto memory = exact(copy);
            bool failed = false;
            BitStreamReader reader(memory.get(), bytes.size());
            try
            {
                to::WalkerObject out;
                mc::g_maxAlloc = 0;
                (void)zd::read(reader, out);
            }
            catch (const CppRuntimeException&)
            {
                failed = true;
            }
            MC_REQUIRE(ctx, mc::g_maxAlloc <= 200 * 1024, "allocation", mc::g_maxAlloc, " bytes allocated");
            ctx.state(Ctx::mix(at * 256 + value, unions * 2 + failed));
            ctx.step();
        }
    }
    ctx.cases(bytes.size() * 256);
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {{"sequences", sequences, 3}, {"deep sequences", deepSequences, 4}, {"all strings", allStrings, 2},
                    {"claimed lengths", claimedLengths, 4}, {"claimed blobs", claimedBlobs, 2}, {"packed damage", packedDamages, 3},
                    {"construction", construction}, {"huge buffers", hugeBuffers, 1}, {"objects", objects, 4}});
}
