// C01: sequences of bit stream operations against a vector of bits.
// mc: level=model_checking variants=default,arch32
#include "bitmodel.h"
#include "mc.h"

#include "zserio/BitBuffer.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"

#include <cmath>
#include <memory>

#include <sys/mman.h>

using namespace zserio;
using bm::Bits;
using mc::Ctx;
using mc::str;

namespace
{

struct Op
{
    std::string name;
    std::function<void(BitStreamWriter&)> write;
    std::function<void(Bits&)> model;
    std::function<bool(BitStreamReader&)> readEq; // reads and compares with the written value
};

std::vector<Op> makeOps(bool full)
{
    std::vector<Op> ops;
    auto u32 = [&](uint32_t v, uint8_t n) {
        ops.push_back({str("u32(", v, ",", int(n), ")"), [=](BitStreamWriter& w) { w.writeUnsignedBits32(v, n); },
                [=](Bits& b) { b.put(v, n); },
                [=](BitStreamReader& r) { return r.readUnsignedBits32(n) == v; }});
    };
    auto s32 = [&](int32_t v, uint8_t n) {
        ops.push_back({str("s32(", v, ",", int(n), ")"), [=](BitStreamWriter& w) { w.writeSignedBits32(v, n); },
                [=](Bits& b) { b.put(static_cast<uint64_t>(int64_t(v)), n); },
                [=](BitStreamReader& r) { return r.readSignedBits32(n) == v; }});
    };
    auto u64 = [&](uint64_t v, uint8_t n) {
        ops.push_back({str("u64(", v, ",", int(n), ")"), [=](BitStreamWriter& w) { w.writeUnsignedBits64(v, n); },
                [=](Bits& b) { b.put(v, n); },
                [=](BitStreamReader& r) { return r.readUnsignedBits64(n) == v; }});
    };
    auto s64 = [&](int64_t v, uint8_t n) {
        ops.push_back({str("s64(", v, ",", int(n), ")"), [=](BitStreamWriter& w) { w.writeSignedBits64(v, n); },
                [=](Bits& b) { b.put(static_cast<uint64_t>(v), n); },
                [=](BitStreamReader& r) { return r.readSignedBits64(n) == v; }});
    };
    auto align = [&](size_t a) {
        ops.push_back({str("align(", a, ")"), [=](BitStreamWriter& w) { w.alignTo(a); },
                [=](Bits& b) { b.alignTo(a); },
                [=](BitStreamReader& r) {
                    r.alignTo(a);
                    return true;
                }});
    };
    u32(1, 1);
    u32(0, 3);
    u32(0x5a, 7);
    u32(0xa5, 8);
    u32(0x1ff, 9);
    s32(-1, 5);
    s32(-0x10000, 17);
    u32(0xdeadbeefU, 32);
    u64(0x1a5a5a5a5ULL, 33);
    s64(-2, 40);
    u64(0x8123456789abcdefULL, 64);
    ops.push_back({"bool(true)", [](BitStreamWriter& w) { w.writeBool(true); }, [](Bits& b) { b.put(1, 1); },
            [](BitStreamReader& r) { return static_cast<bool>(r.readBool()); }});
    ops.push_back({"varint16(-300)", [](BitStreamWriter& w) { w.writeVarInt16(VarInt16(-300)); },
            [](Bits& b) { b.putVarInt16(-300); }, [](BitStreamReader& r) { return r.readVarInt16() == -300; }});
    ops.push_back({"varsize(70000)", [](BitStreamWriter& w) { w.writeVarSize(VarSize(70000)); },
            [](Bits& b) { b.putVarSize(70000); }, [](BitStreamReader& r) { return r.readVarSize() == 70000; }});
    ops.push_back({"string(ab)", [](BitStreamWriter& w) { w.writeString("a\xc3"); },
            [](Bits& b) { b.putString("a\xc3"); }, [](BitStreamReader& r) { return r.readString() == "a\xc3"; }});
    ops.push_back({"bytes", [](BitStreamWriter& w) { w.writeBytes(std::vector<uint8_t>{0xfe, 0x01, 0x80}); },
            [](Bits& b) { b.putString(std::string("\xfe\x01\x80", 3)); },
            [](BitStreamReader& r) { return r.readBytes() == std::vector<uint8_t>{0xfe, 0x01, 0x80}; }});
    ops.push_back({"bitbuffer(11)",
            [](BitStreamWriter& w) { w.writeBitBuffer(BitBuffer(std::vector<uint8_t>{0xab, 0xe0}, 11)); },
            [](Bits& b) { b.putBitBuffer({0xab, 0xe0}, 11); },
            [](BitStreamReader& r) {
                return r.readBitBuffer() == BitBuffer(std::vector<uint8_t>{0xab, 0xe0}, 11);
            }});
    align(8);
    align(3);
    align(64);
    if (full)
    {
        u32(3, 2);
        u32(0x7fff, 16);
        u32(0x1ffffff, 31);
        s32(INT32_MIN, 32);
        s64(INT64_MIN, 64);
        s64(-1, 63);
        u64(0xffffffffffffULL, 56);
        align(16);
        align(32);
        align(130);
        ops.push_back({"float32", [](BitStreamWriter& w) { w.writeFloat32(-1.25F); },
                [](Bits& b) { b.putFloat32(-1.25F); }, [](BitStreamReader& r) { return r.readFloat32() == -1.25F; }});
        ops.push_back({"float64", [](BitStreamWriter& w) { w.writeFloat64(-1.1); },
                [](Bits& b) { b.putFloat64(-1.1); }, [](BitStreamReader& r) { return r.readFloat64() == -1.1; }});
        ops.push_back({"float16", [](BitStreamWriter& w) { w.writeFloat16(1.5F); },
                [](Bits& b) { b.put(0x3e00, 16); }, [](BitStreamReader& r) { return r.readFloat16() == 1.5F; }});
        ops.push_back({"varint(min)", [](BitStreamWriter& w) { w.writeVarInt(VarInt(INT64_MIN + 1)); },
                [](Bits& b) { b.putVarInt(INT64_MIN + 1); },
                [](BitStreamReader& r) { return r.readVarInt() == INT64_MIN + 1; }});
        ops.push_back({"varuint64", [](BitStreamWriter& w) { w.writeVarUInt64(VarUInt64(1ULL << 40)); },
                [](Bits& b) { b.putVarUInt64(1ULL << 40); },
                [](BitStreamReader& r) { return r.readVarUInt64() == 1ULL << 40; }});
        ops.push_back({"string()", [](BitStreamWriter& w) { w.writeString(""); },
                [](Bits& b) { b.putString(""); }, [](BitStreamReader& r) { return r.readString().empty(); }});
        ops.push_back({"bitbuffer(0)", [](BitStreamWriter& w) { w.writeBitBuffer(BitBuffer()); },
                [](Bits& b) { b.putBitBuffer({}, 0); },
                [](BitStreamReader& r) { return r.readBitBuffer().getBitSize() == 0; }});
    }
    return ops;
}

void compareBuffer(Ctx& ctx, const std::vector<uint8_t>& buffer, const Bits& model, size_t capacity,
        const char* where)
{
    Bits expected = model;
    expected.bits.resize(capacity);
    const std::vector<uint8_t> bytes = expected.bytes();
    MC_REQUIRE(ctx, std::memcmp(bytes.data(), buffer.data(), bytes.size()) == 0, "buffer-content", where,
            ": buffer is ", mc::hex(buffer.data(), buffer.size()), " expected ",
            mc::hex(bytes.data(), bytes.size()));
}

// every sequence of write operations, on a buffer that already holds bits, then the matching reads
void sequences(Ctx& ctx, const std::vector<Op>& ops, uint32_t depth, const std::vector<uint32_t>& starts)
{
    const uint32_t start = ctx.pick(starts);
    const uint8_t background = ctx.flip() ? 0xff : 0x00;
    const size_t numBytes = 160;
    const size_t capacity = numBytes * 8 - 3;
    std::vector<uint8_t> buffer(numBytes, background);
    Bits model = Bits::fromBytes(buffer.data(), numBytes * 8);
    BitStreamWriter writer(Span<uint8_t>(buffer.data(), buffer.size()), capacity);
    BitStreamWriter counter(static_cast<uint8_t*>(nullptr), 0);
    writer.setBitPosition(start);
    counter.setBitPosition(start);
    model.pos = start;
    std::vector<const Op*> done;
    std::string text = str("start ", start, " background ", int(background));
    for (uint32_t i = 0; i < depth; ++i)
    {
        const Op& op = ops[ctx.choose(static_cast<uint32_t>(ops.size()))];
        text += " " + op.name;
        ctx.note(text);
        op.model(model);
        op.write(writer);
        op.write(counter);
        ctx.step(2);
        done.push_back(&op);
        MC_REQUIRE(ctx, writer.getBitPosition() == model.pos, "write-position", text, ": position ",
                writer.getBitPosition(), " expected ", model.pos);
        MC_REQUIRE(ctx, counter.getBitPosition() == model.pos, "count-position", text, ": position ",
                counter.getBitPosition(), " expected ", model.pos);
        ctx.state(Ctx::mix(Ctx::mix(model.pos, background), Ctx::hashOf(op.name)));
    }
    compareBuffer(ctx, buffer, model, numBytes * 8, "after writing");

    BitStreamReader reader(Span<const uint8_t>(buffer.data(), buffer.size()), model.pos);
    reader.setBitPosition(start);
    Bits pos;
    pos.pos = start;
    for (const Op* op : done)
    {
        MC_REQUIRE(ctx, op->readEq(reader), "read-value", text, ": ", op->name, " reads a different value");
        op->model(pos);
        ctx.step();
        MC_REQUIRE(ctx, reader.getBitPosition() == pos.pos, "read-position", text, ": position ",
                reader.getBitPosition(), " expected ", pos.pos);
    }
    MC_REQUIRE(ctx, reader.getBitPosition() == writer.getBitPosition(), "end-position", text);
    if (ctx.wantSample())
    {
        ctx.sample(text);
    }
}

void writeReadSequences(Ctx& ctx)
{
    static const std::vector<Op> ops = makeOps(true);
    std::vector<uint32_t> starts = {0, 1, 2, 3, 4, 5, 6, 7};
    sequences(ctx, ops, ctx.thorough() ? 3 : 2, starts);
}

void writeReadSequencesDeep(Ctx& ctx)
{
    static const std::vector<Op> ops = makeOps(false);
    sequences(ctx, ops, ctx.thorough() ? 5 : 4, {0, 5});
}

// reads of any widths, anywhere, from buffers of any bit size
void readWidths(Ctx& ctx)
{
    static const std::vector<uint32_t> widths = {1, 2, 7, 8, 9, 24, 31, 32, 33, 40, 57, 63, 64};
    static const std::vector<uint32_t> sizes = {64, 65, 71, 72, 96, 127, 128, 129, 200};
    static const std::vector<uint32_t> starts = {0, 1, 3, 7, 8, 9, 31, 32, 33, 60, 64};
    static const std::vector<uint8_t> data = [] {
        std::vector<uint8_t> bytes;
        uint32_t x = 0x9e3779b9U;
        for (int i = 0; i < 32; ++i)
        {
            x = x * 1664525U + 1013904223U;
            bytes.push_back(static_cast<uint8_t>(x >> 24U));
        }
        return bytes;
    }();
    const uint32_t size = ctx.pick(sizes);
    const uint32_t start = ctx.pick(starts);
    if (start > size)
    {
        ctx.skip();
    }
    // exactly as many bytes as needed, so that reading beyond is detected
    std::unique_ptr<uint8_t[]> bytes(new uint8_t[(size + 7) / 8]);
    std::copy(data.begin(), data.begin() + (size + 7) / 8, bytes.get());
    Bits model = Bits::fromBytes(bytes.get(), size);
    BitStreamReader reader(bytes.get(), size, BitsTag());
    reader.setBitPosition(start);
    model.pos = start;
    const uint32_t depth = ctx.thorough() ? 5 : 3;
    std::string text = str("size ", size, " start ", start);
    for (uint32_t i = 0; i < depth; ++i)
    {
        const uint32_t kinds = 3;
        const uint32_t choice = ctx.choose(static_cast<uint32_t>(widths.size()) * kinds);
        const uint8_t width = static_cast<uint8_t>(widths[choice / kinds]);
        const uint32_t kind = choice % kinds;
        if (kind == 2 && !(width == 8 || width == 1 || width == 33 || width == 64))
        {
            ctx.skip();
        }
        text += str(" ", kind == 0 ? "u" : kind == 1 ? "s" : "jump", int(width));
        ctx.note(text);
        if (kind == 2)
        {
            // move back to the start, or to a fixed position
            const uint32_t target = width == 8 ? 8 : width == 1 ? start : width == 33 ? 33 : size;
            reader.setBitPosition(target);
            model.pos = target;
            ctx.step();
            MC_REQUIRE(ctx, reader.getBitPosition() == target, "jump-position", text, ": ",
                    reader.getBitPosition());
            continue;
        }
        if (!model.canGet(width))
        {
            break;
        }
        ctx.step();
        if (kind == 0)
        {
            const uint64_t expected = model.get(width);
            const uint64_t value =
                    width <= 32 ? reader.readUnsignedBits32(width) : reader.readUnsignedBits64(width);
            MC_REQUIRE(ctx, value == expected, "read-unsigned", text, ": read ", value, " expected ", expected);
        }
        else
        {
            const int64_t expected = model.getSigned(width);
            const int64_t value = width <= 32 ? reader.readSignedBits32(width) : reader.readSignedBits64(width);
            MC_REQUIRE(ctx, value == expected, "read-signed", text, ": read ", value, " expected ", expected);
        }
        MC_REQUIRE(ctx, reader.getBitPosition() == model.pos, "read-position", text, ": position ",
                reader.getBitPosition(), " expected ", model.pos);
        ctx.state(Ctx::mix(Ctx::mix(size, model.pos), width));
    }
}

// every width, every start offset, neighbouring bits of both polarities, boundary values
void everyWidth(Ctx& ctx)
{
    const uint32_t width = 1 + ctx.choose(64);
    const uint32_t start = ctx.choose(72);
    const bool isSigned = ctx.flip();
    const uint8_t background = ctx.flip() ? 0xff : 0x00;
    const uint64_t mask = bm::maskOf(width);
    const std::vector<uint64_t> patterns = {0, mask, 1, uint64_t(1) << (width - 1), mask >> 1U,
            0xa5a5a5a5a5a5a5a5ULL & mask, 0x0123456789abcdefULL & mask, 0xfedcba9876543210ULL & mask};
    for (uint64_t pattern : patterns)
    {
        for (int use64 = (width > 32 ? 1 : 0); use64 < 2; ++use64)
        {
            ctx.note(str("width ", width, " start ", start, " signed ", isSigned, " pattern ", pattern, " use64 ",
                    use64));
            std::vector<uint8_t> buffer((start + width + 7) / 8 + 1, background);
            Bits model = Bits::fromBytes(buffer.data(), buffer.size() * 8);
            model.pos = start;
            model.put(pattern, width);
            BitStreamWriter writer(buffer.data(), buffer.size());
            writer.setBitPosition(start);
            const uint8_t n = static_cast<uint8_t>(width);
            Bits value;
            value.put(pattern, width);
            value.pos = 0;
            const int64_t signedValue = value.getSigned(width);
            if (isSigned)
            {
                use64 ? writer.writeSignedBits64(signedValue, n)
                      : writer.writeSignedBits32(static_cast<int32_t>(signedValue), n);
            }
            else
            {
                use64 ? writer.writeUnsignedBits64(pattern, n)
                      : writer.writeUnsignedBits32(static_cast<uint32_t>(pattern), n);
            }
            compareBuffer(ctx, buffer, model, buffer.size() * 8, "width");
            MC_REQUIRE(ctx, writer.getBitPosition() == start + width, "write-position",
                    writer.getBitPosition());
            BitStreamReader reader(buffer.data(), start + width, BitsTag());
            reader.setBitPosition(start);
            if (isSigned)
            {
                const int64_t read = use64 ? reader.readSignedBits64(n) : reader.readSignedBits32(n);
                MC_REQUIRE(ctx, read == signedValue, "read-value", "read ", read, " expected ", signedValue);
            }
            else
            {
                const uint64_t read = use64 ? reader.readUnsignedBits64(n) : reader.readUnsignedBits32(n);
                MC_REQUIRE(ctx, read == pattern, "read-value", "read ", read, " expected ", pattern);
            }
            MC_REQUIRE(ctx, reader.getBitPosition() == start + width, "read-position",
                    reader.getBitPosition());
            ctx.step(2);
            ctx.cases();
        }
    }
    ctx.state(Ctx::mix(Ctx::mix(width, start), isSigned * 2 + (background ? 1 : 0)));
}

// bulk data: every length against every start offset, with neighbours
void bulk(Ctx& ctx)
{
    const uint32_t kind = ctx.choose(3);
    const uint32_t start = ctx.choose(17);
    const uint32_t length = kind == 2 ? ctx.choose(131) : ctx.choose(21) * (ctx.flip() ? 13 : 1);
    const uint8_t background = ctx.flip() ? 0xff : 0x00;
    ctx.note(str("bulk kind ", kind, " start ", start, " length ", length));
    std::vector<uint8_t> data;
    for (uint32_t i = 0; i < (kind == 2 ? (length + 7) / 8 : length); ++i)
    {
        data.push_back(static_cast<uint8_t>(0xc1 + 37 * i));
    }
    std::vector<uint8_t> buffer(start / 8 + data.size() + 9, background);
    Bits model = Bits::fromBytes(buffer.data(), buffer.size() * 8);
    model.pos = start;
    BitStreamWriter writer(buffer.data(), buffer.size());
    writer.setBitPosition(start);
    if (kind == 0)
    {
        model.putString(std::string(data.begin(), data.end()));
        writer.writeString(std::string(data.begin(), data.end()));
    }
    else if (kind == 1)
    {
        model.putString(std::string(data.begin(), data.end()));
        writer.writeBytes(data);
    }
    else
    {
        model.putBitBuffer(data, length);
        writer.writeBitBuffer(BitBuffer(data, length));
    }
    ctx.step();
    MC_REQUIRE(ctx, writer.getBitPosition() == model.pos, "write-position", writer.getBitPosition(), " expected ",
            model.pos);
    compareBuffer(ctx, buffer, model, buffer.size() * 8, "bulk");
    BitStreamReader reader(buffer.data(), model.pos, BitsTag());
    reader.setBitPosition(start);
    if (kind == 0)
    {
        MC_REQUIRE(ctx, reader.readString() == std::string(data.begin(), data.end()), "read-value", "string");
    }
    else if (kind == 1)
    {
        MC_REQUIRE(ctx, reader.readBytes() == data, "read-value", "bytes");
    }
    else
    {
        MC_REQUIRE(ctx, reader.readBitBuffer() == BitBuffer(data, length), "read-value", "bit buffer");
    }
    MC_REQUIRE(ctx, reader.getBitPosition() == model.pos, "read-position", reader.getBitPosition());
    ctx.state(Ctx::mix(Ctx::mix(kind, start), length * 2 + (background ? 1 : 0)));
}

// alignment by any amount from any position
void alignments(Ctx& ctx)
{
    const uint32_t alignment = 1 + ctx.choose(ctx.thorough() ? 1100 : 600);
    const uint32_t offset = ctx.choose(3);
    const uint8_t background = ctx.flip() ? 0xff : 0x00;
    const uint32_t step = alignment < 40 ? 1 : (ctx.thorough() ? 3 : 13);
    for (uint32_t start = offset; start <= alignment + 2; start += step)
    {
        ctx.note(str("align to ", alignment, " from ", start, " background ", int(background)));
        std::vector<uint8_t> buffer(2 * alignment / 8 + 10, background);
        Bits model = Bits::fromBytes(buffer.data(), buffer.size() * 8);
        model.pos = start;
        model.alignTo(alignment);
        BitStreamWriter writer(buffer.data(), buffer.size());
        writer.setBitPosition(start);
        writer.alignTo(alignment);
        MC_REQUIRE(ctx, writer.getBitPosition() == model.pos, "align-write-position", writer.getBitPosition(),
                " expected ", model.pos);
        compareBuffer(ctx, buffer, model, buffer.size() * 8, "align");
        BitStreamReader reader(buffer.data(), model.pos, BitsTag());
        reader.setBitPosition(start);
        reader.alignTo(alignment);
        MC_REQUIRE(ctx, reader.getBitPosition() == model.pos, "align-read-position", reader.getBitPosition(),
                " expected ", model.pos);
        ctx.step(2);
        ctx.cases();
        ctx.state(Ctx::mix(alignment, start));
    }
}

// a buffer of more than 2^32 and 2^33 bits: operations around these positions
void farPositions(Ctx& ctx)
{
    static const std::vector<Op> ops = makeOps(true);
    const size_t region = (size_t(1) << 30) + 8192;
    static uint8_t* const memory = static_cast<uint8_t*>(
            mmap(nullptr, region, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    MC_REQUIRE(ctx, memory != MAP_FAILED, "mmap", "no address space");
    const size_t target = size_t(1) << ctx.pick(std::vector<uint32_t>{31, 32, 33});
    const size_t unit = 12480; // a common multiple of the alignments
    const size_t base = (target - 200) / unit * unit;
    static const std::vector<int> distances = {-129, -65, -64, -63, -33, -32, -31, -9, -8, -5, -1, 0, 1, 7, 64};
    const int distance = ctx.pick(distances);
    const size_t start = target + static_cast<size_t>(static_cast<int64_t>(distance));
    const Op& first = ctx.pick(ops);
    const Op& second = ctx.pick(ops);
    ctx.note(str("at bit ", start, ": ", first.name, " ", second.name));
    Bits model(start - base, 0);
    model.pos = start - base;
    BitStreamWriter writer(memory, region);
    writer.setBitPosition(start);
    for (const Op* op : {&first, &second})
    {
        op->write(writer);
        op->model(model);
        MC_REQUIRE(ctx, writer.getBitPosition() == base + model.pos, "write-position", op->name, ": position ",
                writer.getBitPosition(), " expected ", base + model.pos);
        ctx.step();
    }
    std::vector<uint8_t> expected = model.bytes();
    expected.resize(expected.size() + 64, 0);
    MC_REQUIRE(ctx, std::memcmp(memory + base / 8, expected.data(), expected.size()) == 0, "buffer-content",
            "far content differs");
    // the same offset taken modulo 2^32 bits must stay untouched
    for (size_t i = 0; i < 64; ++i)
    {
        MC_REQUIRE(ctx, memory[i] == 0, "buffer-content", "byte ", i, " is written");
    }
    const size_t end = base + model.pos;
    for (int way = 0; way < 2; ++way) // the end of the buffer is far away or just behind
    {
        BitStreamReader reader(memory, way == 0 ? region * 8 : end, BitsTag());
        reader.setBitPosition(start);
        for (const Op* op : {&first, &second})
        {
            MC_REQUIRE(ctx, op->readEq(reader), "read-value", op->name, " at ", start);
            ctx.step();
        }
        MC_REQUIRE(ctx, reader.getBitPosition() == end, "read-position", reader.getBitPosition(), " expected ", end);
        if (way == 1)
        {
            bool failed = false;
            try
            {
                (void)reader.readUnsignedBits32(1);
            }
            catch (const CppRuntimeException&)
            {
                failed = true;
            }
            MC_REQUIRE(ctx, failed, "read-past-end", "a bit behind ", end, " is read");
        }
    }
    std::memset(memory + base / 8, 0, expected.size());
    ctx.state(Ctx::mix(start, Ctx::mix(Ctx::hashOf(first.name), Ctx::hashOf(second.name))));
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {{"write-read-sequences", writeReadSequences}, {"write-read-sequences-deep", writeReadSequencesDeep, 3},
                    {"read-widths", readWidths, 3}, {"every-width", everyWidth}, {"bulk", bulk},
                    {"alignments", alignments}, {"far-positions", farPositions}});
}
