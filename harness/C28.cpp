// C28: bit buffers hold exactly their bits.
// mc: level=model_checking opt=2
#include <algorithm>
#include <cstring>
#include <sstream>

#include "mc.h"
#include "tracked.h"
#include "zserio/BitBuffer.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"

using mc::Ctx;
using mc::str;
using namespace zserio;

namespace
{

// reference: a text of 0 and 1
using Bits = std::string;

Bits bitsOf(const std::vector<uint8_t>& bytes, size_t size)
{
    Bits out;
    for (size_t i = 0; i < size; ++i)
    {
        out.push_back(bytes[i / 8] >> (7 - i % 8) & 1 ? '1' : '0');
    }
    return out;
}

template <typename BUFFER>
Bits bitsIn(const BUFFER& buffer)
{
    Bits out;
    for (size_t i = 0; i < buffer.getBitSize(); ++i)
    {
        out.push_back(buffer.getBuffer()[i / 8] >> (7 - i % 8) & 1 ? '1' : '0');
    }
    return out;
}

// bytes holding the bits; garbage fills the unused bits and extra further bytes follow
std::vector<uint8_t> bytesOf(const Bits& bits, uint8_t garbage, size_t extra)
{
    std::vector<uint8_t> bytes((bits.size() + 7) / 8 + extra, garbage);
    for (size_t i = 0; i < bits.size(); ++i)
    {
        const uint8_t mask = static_cast<uint8_t>(0x80 >> i % 8);
        bytes[i / 8] = static_cast<uint8_t>(bits[i] == '1' ? bytes[i / 8] | mask : bytes[i / 8] & ~mask);
    }
    return bytes;
}

template <typename BUFFER>
__attribute__((noinline)) void checkHolds(Ctx& ctx, const BUFFER& buffer, const Bits& bits, const std::string& what)
{
    MC_REQUIRE(ctx, buffer.getBitSize() == bits.size(), "bit-size", what, ": ", buffer.getBitSize(), " bits instead of ", bits.size());
    MC_REQUIRE(ctx, buffer.getByteSize() == (bits.size() + 7) / 8, "byte-size", what, ": ", buffer.getByteSize(), " bytes for ", bits.size(), " bits");
    MC_REQUIRE(ctx, buffer.getBytes().size() >= buffer.getByteSize(), "bytes", what, ": only ", buffer.getBytes().size(), " bytes for ", bits.size(), " bits");
    MC_REQUIRE(ctx, bitsIn(buffer) == bits, "bits", what, ": bits are ", bitsIn(buffer), " instead of ", bits);
    const Span<const uint8_t> data = buffer.getData();
    MC_REQUIRE(ctx, data.size() == buffer.getBytes().size() && (data.empty() || data.data() == buffer.getBuffer()) && buffer.getBuffer() == buffer.getBytes().data(),
            "data", what, ": accessors of the bytes disagree");
}

// ---------------------------------------------------------------- pairs

std::vector<Bits> allBits(size_t upTo)
{
    std::vector<Bits> out;
    for (size_t n = 0; n <= upTo; ++n)
    {
        for (uint32_t v = 0; v < 1U << n; ++v)
        {
            Bits b;
            for (size_t i = n; i-- > 0;)
            {
                b.push_back(v >> i & 1 ? '1' : '0');
            }
            out.push_back(b);
        }
    }
    // longer ones that differ early, late or in length
    for (const Bits& head : {Bits("00000000"), Bits("11111111"), Bits("10000000"), Bits("0000000011111111"), Bits("1010101001010101")})
    {
        for (const char* tail : {"", "0", "1", "00", "10", "0000000", "00000000", "000000000", "10000000", "11111111", "111111110", "00000001", "00000001000000001"})
        {
            out.push_back(head + tail);
        }
    }
    std::sort(out.begin(), out.end()); // the order of texts: by the first bit that differs, a beginning before its continuation
    out.erase(std::unique(out.begin(), out.end()), out.end());
    return out;
}

struct Entry
{
    BitBuffer buffer;
    size_t rank;
};

__attribute__((noinline)) void relation(Ctx& ctx, const BitBuffer& a, const BitBuffer& b, int order)
{
    const bool good = (a == b) == (order == 0) && (a != b) == (order != 0) && (a < b) == (order < 0) && (a > b) == (order > 0) && (a <= b) == (order <= 0) &&
            (a >= b) == (order >= 0);
    if (!good)
    {
        ctx.fail("compare", str("comparing ", bitsIn(a), " (", a.getBitSize(), " bits) with ", bitsIn(b), " (", b.getBitSize(), " bits): ==", a == b, " !=", a != b, " <", a < b,
                " >", a > b, " <=", a <= b, " >=", a >= b));
    }
    if (order == 0 && (a.hashCode() != b.hashCode() || std::hash<BitBuffer>()(a) != std::hash<BitBuffer>()(b) || calcHashCode(HASH_SEED, a) != calcHashCode(HASH_SEED, b) ||
            std::hash<BasicBitBufferView<std::allocator<uint8_t>>>()(std::cref(a)) != std::hash<BitBuffer>()(b)))
    {
        ctx.fail("hash", str("equal buffers of ", a.getBitSize(), " bits have different hash codes"));
    }
}

// long buffers that differ in one bit, in their length, or in unused bits only
void longPairs(Ctx& ctx)
{
    const uint32_t bits = ctx.pick(std::vector<uint32_t>{63, 64, 65, 127, 129, 255, 256, 257, 511, 1023, 1025, 2047, 2048, 2049, 4099, 65537, 1048575, 1048577});
    const uint32_t at = ctx.pick(std::vector<uint32_t>{0, 31, 32, 62, 64, 126, 128, 254, 256, 300, 512, 1000, 1025, 2046, 2048, 4096, 65535, 1048560, bits - 1});
    if (at >= bits || (bits > 1000000 && at != 0 && at < 65535))
    {
        ctx.skip();
    }
    Bits base;
    for (uint32_t i = 0; i < bits; ++i)
    {
        base.push_back((i * 2654435761U >> 13U) % 3 == 0 ? '1' : '0');
    }
    base[at] = '0';
    std::vector<Bits> contents = {base, base, base, base};
    contents[1][at] = '1';
    contents[2].pop_back();
    contents[3].push_back('0');
    for (const Bits& left : contents)
    {
        for (const Bits& right : contents)
        {
            const BitBuffer a(bytesOf(left, 0x00, 0), left.size());
            const BitBuffer b(bytesOf(right, 0xff, 0), right.size());
            checkHolds(ctx, a, left, "long");
            relation(ctx, a, b, left < right ? -1 : left == right ? 0 : 1);
            ctx.cases();
        }
    }
    ctx.step();
    ctx.state(str(bits, ",", at));
}

void pairs(Ctx& ctx)
{
    static const std::vector<Bits> all = allBits(ctx.thorough() ? 11 : 9);
    static const std::vector<Entry> entries = [] {
        std::vector<Entry> out;
        for (size_t i = 0; i < all.size(); ++i)
        {
            out.push_back({BitBuffer(bytesOf(all[i], 0x00, 0), all[i].size()), i});
            out.push_back({BitBuffer(bytesOf(all[i], 0xff, 0), all[i].size()), i});
            out.push_back({BitBuffer(bytesOf(all[i], static_cast<uint8_t>(0x5a + i), 1), all[i].size()), i});
        }
        return out;
    }();
    const uint32_t part = ctx.choose(256);
    for (size_t i = part; i < entries.size(); i += 256)
    {
        checkHolds(ctx, entries[i].buffer, all[entries[i].rank], "constructed");
        for (const Entry& other : entries)
        {
            relation(ctx, entries[i].buffer, other.buffer, entries[i].rank < other.rank ? -1 : entries[i].rank > other.rank);
        }
        ctx.cases(entries.size());
        ctx.step();
        ctx.state(i);
    }
}

// ---------------------------------------------------------------- serialization

void serialization(Ctx& ctx)
{
    const size_t size = ctx.choose(ctx.thorough() ? 140 : 70);
    const size_t start = ctx.choose(17);
    for (uint32_t pattern = 0; pattern < 6; ++pattern)
    {
        Bits bits;
        for (size_t i = 0; i < size; ++i)
        {
            bits.push_back((pattern == 0) || (pattern == 1 && i == 0) || (pattern == 2 && i + 1 == size) || (pattern == 3 && i % 3 == 0) ||
                                    (pattern == 4 && (0xb5c3a7 >> i % 24 & 1))
                            ? '1'
                            : '0');
        }
        std::vector<uint8_t> first;
        for (uint8_t garbage : {0x00, 0xff, 0xa5})
        {
            for (size_t extra : {size_t(0), size_t(2)})
            {
                const BitBuffer buffer(bytesOf(bits, garbage, extra), size);
                std::vector<uint8_t> memory(start / 8 + 4 + size / 8 + 3, 0);
                BitStreamWriter writer(Span<uint8_t>(memory.data(), memory.size()));
                writer.writeUnsignedBits32(start ? 1 : 0, static_cast<uint8_t>(start ? start : 1));
                const size_t begin = writer.getBitPosition();
                writer.writeBitBuffer(buffer);
                const size_t end = writer.getBitPosition();
                MC_REQUIRE(ctx, end - begin == detail::bitSizeOf(BasicBitBufferView<std::allocator<uint8_t>>(buffer)), "size", size, " bits are written as ", end - begin);
                if (first.empty())
                {
                    first = memory;
                }
                MC_REQUIRE(ctx, memory == first, "garbage-written", "the bytes written for a buffer of ", size, " bits depend on its unused bits");
                BitStreamReader reader(Span<const uint8_t>(memory.data(), memory.size()));
                reader.setBitPosition(begin);
                const BitBuffer read = reader.readBitBuffer<std::allocator<uint8_t>>();
                checkHolds(ctx, read, bits, str("read back at ", begin));
                relation(ctx, read, buffer, 0);
                MC_REQUIRE(ctx, reader.getBitPosition() == end, "position", "reader ends at ", reader.getBitPosition(), " instead of ", end);
                ctx.cases();
            }
        }
    }
    ctx.step();
    ctx.state(size * 100 + start);
}

// ---------------------------------------------------------------- constructions

void sizes(Ctx& ctx)
{
    // every number of bytes with every bit size around it and the largest ones
    const size_t bytes = ctx.choose(12);
    const uint32_t kind = ctx.choose(3);
    std::vector<size_t> bitSizes;
    for (size_t b = 0; b <= bytes * 8 + 20; ++b)
    {
        bitSizes.push_back(b);
    }
    for (size_t d = 0; d < 20; ++d)
    {
        bitSizes.push_back(SIZE_MAX - d);
        bitSizes.push_back(SIZE_MAX / 2 - d + 10);
        bitSizes.push_back((size_t(1) << 32) - d + 10);
    }
    std::vector<uint8_t> data(bytes);
    for (size_t i = 0; i < bytes; ++i)
    {
        data[i] = static_cast<uint8_t>(0x9d * (i + 1));
    }
    for (size_t bitSize : bitSizes)
    {
        const bool fits = bitSize <= bytes * 8;
        bool threw = false;
        try
        {
            if (kind == 0)
            {
                checkHolds(ctx, BitBuffer(Span<const uint8_t>(data), bitSize), fits ? bitsOf(data, bitSize) : "", "from span");
            }
            else if (kind == 1)
            {
                checkHolds(ctx, BitBuffer(std::vector<uint8_t>(data), bitSize), fits ? bitsOf(data, bitSize) : "", "from vector");
            }
            else
            {
                const tr::TrackAlloc<uint8_t, true> alloc(tr::arena(1));
                checkHolds(ctx, BasicBitBuffer<tr::TrackAlloc<uint8_t, true>>(Span<const uint8_t>(data), bitSize, alloc), fits ? bitsOf(data, bitSize) : "", "from span with allocator");
            }
        }
        catch (const CppRuntimeException&)
        {
            threw = true;
        }
        MC_REQUIRE(ctx, threw == !fits, "bit-size-check", bitSize, " bits in ", bytes, " bytes are ", threw ? "rejected" : "accepted");
        ctx.cases();
    }
    checkHolds(ctx, BitBuffer(Span<const uint8_t>(data)), bitsOf(data, bytes * 8), "from whole span");
    checkHolds(ctx, BitBuffer(std::vector<uint8_t>(data)), bitsOf(data, bytes * 8), "from whole vector");
    for (size_t b = bytes * 8; b < bytes * 8 + 8; ++b)
    {
        checkHolds(ctx, BitBuffer(b), Bits(b, '0'), "from size");
    }
    // a size whose rounding up overflows must not give an empty buffer that claims to hold bits
    for (size_t d = 0; d < 16; ++d)
    {
        bool refused = false;
        try
        {
            const BitBuffer huge(SIZE_MAX - d);
        }
        catch (const std::exception&) // length_error or bad_alloc
        {
            refused = true;
        }
        MC_REQUIRE(ctx, refused, "huge-size", "a buffer of SIZE_MAX - ", d, " bits is constructed");
    }
    ctx.step();
    ctx.state(bytes * 3 + kind);
}

// ---------------------------------------------------------------- histories

template <typename ALLOC>
void histories(Ctx& ctx)
{
    using Buffer = BasicBitBuffer<ALLOC>;
    using Vec = std::vector<uint8_t, ALLOC>;
    using Kit = tr::AllocKit<ALLOC>;
    tr::begin();
    {
        std::vector<Buffer> vars;
        vars.reserve(3);
        std::vector<Bits> model(2);
        static const std::vector<Bits> values = {"", "1", "01101", "10000000", "100000000", "0110100111010001011"};
        std::string history;
        const uint32_t depth = ctx.thorough() ? 3 : 2;
        auto fill = [&](const Bits& bits, uint8_t garbage, size_t extra, int id) {
            const std::vector<uint8_t> bytes = bytesOf(bits, garbage, extra);
            return Vec(bytes.begin(), bytes.end(), Kit::make(id));
        };
        for (int i = 0; i < 2; ++i)
        {
            const Bits& v = ctx.pick(values);
            vars.emplace_back(fill(v, i ? 0xff : 0x00, 0, i + 1), v.size());
            model[static_cast<size_t>(i)] = v;
            history += v + " ";
        }
        // what is left behind in a buffer that was moved from is not specified, but it has to be a usable buffer
        auto resync = [&](size_t i) {
            MC_REQUIRE(ctx, vars[i].getBytes().size() >= vars[i].getByteSize(), "moved-from", history, ": the moved-from buffer claims ", vars[i].getBitSize(), " bits but has ",
                    vars[i].getBytes().size(), " bytes");
            model[i] = bitsIn(vars[i]);
        };
        for (uint32_t s = 0; s < depth; ++s)
        {
            const uint32_t op = ctx.choose(13);
            if (op == 12)
            {
                break;
            }
            const uint32_t t = ctx.choose(2);
            const uint32_t o = 1 - t;
            history += str(" ", op, "/", t);
            ctx.note(history);
            ctx.step();
            switch (op)
            {
            case 0:
            {
                const Bits& v = ctx.pick(values);
                vars[t] = Buffer(fill(v, 0xff, 0, static_cast<int>(t) + 1), v.size());
                model[t] = v;
                break;
            }
            case 1:
            {
                const Bits& v = ctx.pick(values);
                const std::vector<uint8_t> bytes = bytesOf(v, 0x3c, 1);
                const Buffer fresh(Span<const uint8_t>(bytes), v.size(), Kit::make(1));
                vars[t] = fresh;
                model[t] = v;
                break;
            }
            case 2:
            {
                const size_t n = ctx.pick(std::vector<size_t>{0, 3, 16});
                vars[t] = Buffer(n, Kit::make(2));
                model[t] = Bits(n, '0');
                break;
            }
            case 3:
                vars[t] = vars[o];
                model[t] = model[o];
                break;
            case 4:
                vars[t] = std::move(vars[o]);
                model[t] = model[o];
                resync(o);
                break;
            case 5:
            {
                Buffer& self = vars[t];
                vars[t] = self;
                break;
            }
            case 6:
            {
                Buffer& self = vars[t];
                vars[t] = std::move(self);
                resync(t);
                break;
            }
            case 7:
            {
                // copy and move through a third buffer
                Buffer copy(vars[t]);
                checkHolds(ctx, copy, model[t], history + " copy");
                MC_REQUIRE(ctx, copy == vars[t] && !(copy < vars[t]), "copy", history, ": the copy differs");
                Buffer moved(std::move(copy));
                checkHolds(ctx, moved, model[t], history + " moved copy");
                MC_REQUIRE(ctx, copy.getBytes().size() >= copy.getByteSize(), "moved-from", history, ": the moved-from buffer claims ", copy.getBitSize(), " bits but has ",
                        copy.getBytes().size(), " bytes");
                MC_REQUIRE(ctx, copy == copy && copy.hashCode() == copy.hashCode(), "moved-from", history, ": moved-from buffer is not usable");
                copy = moved;
                checkHolds(ctx, copy, model[t], history + " assigned after move");
                break;
            }
            case 8:
            {
                for (int id : {1, 2})
                {
                    Buffer copy(vars[t], Kit::make(id));
                    checkHolds(ctx, copy, model[t], history + " copy with allocator");
                    MC_REQUIRE(ctx, Kit::id(copy.get_allocator()) == Kit::id(Kit::make(id)), "allocator", history, ": the copy does not use the given allocator");
                    const int other = 3 - id;
                    Buffer moved(std::move(copy), Kit::make(other));
                    checkHolds(ctx, moved, model[t], history + " moved with allocator");
                    MC_REQUIRE(ctx, Kit::id(moved.get_allocator()) == Kit::id(Kit::make(other)), "allocator", history, ": the moved buffer does not use the given allocator");
                    MC_REQUIRE(ctx, copy.getBytes().size() >= copy.getByteSize(), "moved-from", history, ": moved-from buffer claims ", copy.getBitSize(), " bits");
                    MC_REQUIRE(ctx, (copy == moved) == (bitsIn(copy) == model[t]), "moved-from", history, ": moved-from buffer does not compare");
                }
                break;
            }
            case 9: // change a bit
                if (!model[t].empty())
                {
                    const size_t n = model[t].size() - 1;
                    vars[t].getBuffer()[n / 8] ^= static_cast<uint8_t>(0x80 >> n % 8);
                    model[t][n] ^= 1;
                }
                break;
            case 10: // change all unused bits
                if (!vars[t].getData().empty())
                {
                    const Span<uint8_t> data = vars[t].getData();
                    for (size_t i = model[t].size(); i < data.size() * 8; ++i)
                    {
                        data[i / 8] ^= static_cast<uint8_t>(0x80 >> i % 8);
                    }
                }
                break;
            default:
            {
                bool threw = false;
                try
                {
                    Buffer wrong(fill("1111", 0, 0, 1), 9);
                    vars[t] = std::move(wrong);
                }
                catch (const CppRuntimeException&)
                {
                    threw = true;
                }
                MC_REQUIRE(ctx, threw, "bit-size-check", "9 bits in one byte are accepted");
                break;
            }
            }
            for (size_t i = 0; i < 2; ++i)
            {
                checkHolds(ctx, vars[i], model[i], history);
            }
            const bool equal = model[0] == model[1];
            const bool less = model[0] < model[1];
            MC_REQUIRE(ctx, (vars[0] == vars[1]) == equal && (vars[0] != vars[1]) == !equal && (vars[0] < vars[1]) == less && (vars[1] < vars[0]) == (!less && !equal) &&
                            (vars[0] <= vars[1]) == (less || equal) && (vars[0] >= vars[1]) == !less,
                    "compare", history, ": comparison of ", model[0], " with ", model[1], " is wrong");
            MC_REQUIRE(ctx, !equal || vars[0].hashCode() == vars[1].hashCode(), "hash", history, ": equal buffers have different hash codes");
            tr::verify(ctx, history.c_str());
            ctx.state(Ctx::mix(Ctx::hashOf(model[0]), Ctx::hashOf(model[1])));
        }
        ctx.sample(history);
    }
    tr::end(ctx);
}

} // namespace

int main(int argc, char** argv)
{
    using Prop = tr::TrackAlloc<uint8_t, true>;
    using NonProp = tr::TrackAlloc<uint8_t, false>;
    return mc::run(argc, argv,
            {{"pairs", pairs, 1}, {"long-pairs", longPairs, 2}, {"serialization", serialization, 2}, {"sizes", sizes, 2}, {"histories-std", histories<std::allocator<uint8_t>>, 3},
                    {"histories-propagating", histories<Prop>, 3}, {"histories-not-propagating", histories<NonProp>, 3},
                    {"histories-pmr", histories<std::pmr::polymorphic_allocator<uint8_t>>, 3}});
}
