// C05: writers at every capacity, and writers without a buffer.
// mc: level=model_checking sources=std_test_object
#include <cmath>
#include <functional>
#include <memory>

#include "bitmodel.h"
#include "mc.h"
#include "objects.h"
#include "zserio/ArrayView.h"
#include "zserio/BitBuffer.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/SerializeUtil.h"

using namespace zserio;
using bm::Bits;
using mc::Ctx;
using mc::str;
namespace zd = zserio::detail;

namespace
{

struct Op
{
    std::string name;
    std::function<void(BitStreamWriter&)> write;
    std::function<void(Bits&)> model;
};

template <typename F, typename M>
void add(std::vector<Op>& ops, const std::string& name, F write, M model)
{
    ops.push_back({name, write, model});
}

std::string text(size_t n, uint8_t seed)
{
    std::string s;
    for (size_t i = 0; i < n; ++i)
    {
        s.push_back(static_cast<char>(static_cast<uint8_t>(seed + i * 37)));
    }
    return s;
}

std::vector<Op> makeOps(bool full)
{
    std::vector<Op> ops;
    auto u32 = [&](uint32_t v, uint8_t n) {
        add(ops, str("u32(", v, ",", int(n), ")"), [=](BitStreamWriter& w) { w.writeUnsignedBits32(v, n); },
                [=](Bits& b) { b.put(v, n); });
    };
    auto s32 = [&](int32_t v, uint8_t n) {
        add(ops, str("s32(", v, ",", int(n), ")"), [=](BitStreamWriter& w) { w.writeSignedBits32(v, n); },
                [=](Bits& b) { b.put(static_cast<uint64_t>(int64_t(v)), n); });
    };
    auto u64 = [&](uint64_t v, uint8_t n) {
        add(ops, str("u64(", v, ",", int(n), ")"), [=](BitStreamWriter& w) { w.writeUnsignedBits64(v, n); },
                [=](Bits& b) { b.put(v, n); });
    };
    auto s64 = [&](int64_t v, uint8_t n) {
        add(ops, str("s64(", v, ",", int(n), ")"), [=](BitStreamWriter& w) { w.writeSignedBits64(v, n); },
                [=](Bits& b) { b.put(static_cast<uint64_t>(v), n); });
    };
    auto align = [&](size_t a) {
        add(ops, str("align(", a, ")"), [=](BitStreamWriter& w) { w.alignTo(a); }, [=](Bits& b) { b.alignTo(a); });
    };
    auto bytes = [&](size_t n) {
        add(ops, str("bytes(", n, ")"),
                [=](BitStreamWriter& w) {
                    const std::string s = text(n, 0xab);
                    w.writeBytes(std::vector<uint8_t>(s.begin(), s.end()));
                },
                [=](Bits& b) { b.putString(text(n, 0xab)); });
    };
    auto string = [&](size_t n) {
        add(ops, str("string(", n, ")"), [=](BitStreamWriter& w) { w.writeString(text(n, 0xd7)); },
                [=](Bits& b) { b.putString(text(n, 0xd7)); });
    };
    auto bitBuffer = [&](size_t n) {
        std::vector<uint8_t> data;
        for (size_t i = 0; i < (n + 7) / 8; ++i)
        {
            data.push_back(static_cast<uint8_t>(0xb5 + i * 51));
        }
        add(ops, str("bitbuffer(", n, ")"), [=](BitStreamWriter& w) { w.writeBitBuffer(BitBuffer(data, n)); },
                [=](Bits& b) { b.putBitBuffer(data, n); });
    };
    add(ops, "bool", [](BitStreamWriter& w) { w.writeBool(true); }, [](Bits& b) { b.put(1, 1); });
    u32(0x5a, 7);
    u32(0x1ff, 9);
    u32(0xdeadbeefU, 32);
    s32(-3, 13);
    u64(0x1a5a5a5a5ULL, 33);
    s64(-2, 48);
    u64(0x8123456789abcdefULL, 64);
    add(ops, "varuint32", [](BitStreamWriter& w) { w.writeVarUInt32(VarUInt32(0x12345)); },
            [](Bits& b) { b.putVar(0x12345, false, false, 4); });
    add(ops, "varsize", [](BitStreamWriter& w) { w.writeVarSize(VarSize(0x7fffffffU)); },
            [](Bits& b) { b.putVarSize(0x7fffffffU); });
    bytes(3);
    string(2);
    bitBuffer(11);
    align(8);
    if (!full)
    {
        return ops;
    }
    for (uint8_t n = 1; n <= 32; ++n)
    {
        u32(n == 32 ? 0xffffffffU : (1U << n) - 1, n);
        s32(n == 32 ? INT32_MIN : -(1 << (n - 1)), n);
    }
    for (uint8_t n = 1; n <= 64; ++n)
    {
        u64(n == 64 ? ~0ULL : (1ULL << n) - 1, n);
        s64(n == 64 ? INT64_MIN : -(1LL << (n - 1)), n);
    }
    add(ops, "float16", [](BitStreamWriter& w) { w.writeFloat16(1.5F); }, [](Bits& b) { b.put(0x3e00, 16); });
    add(ops, "float32", [](BitStreamWriter& w) { w.writeFloat32(-1.25F); }, [](Bits& b) { b.putFloat32(-1.25F); });
    add(ops, "float64", [](BitStreamWriter& w) { w.writeFloat64(-1.1); }, [](Bits& b) { b.putFloat64(-1.1); });
    for (unsigned bits : {0U, 6U, 13U})
    {
        const int64_t v = int64_t((1ULL << bits) - (bits < 10 ? 0 : 1));
        add(ops, str("varint16 ", v), [=](BitStreamWriter& w) { w.writeVarInt16(VarInt16(int16_t(-v))); },
                [=](Bits& b) { b.putVar(static_cast<uint64_t>(v), true, true, 2); });
        add(ops, str("varuint16 ", v), [=](BitStreamWriter& w) { w.writeVarUInt16(VarUInt16(uint16_t(v))); },
                [=](Bits& b) { b.putVar(static_cast<uint64_t>(v), false, false, 2); });
    }
    for (unsigned bits : {0U, 6U, 13U, 20U, 27U})
    {
        const uint64_t v = 1ULL << bits;
        add(ops, str("varint32 ", v), [=](BitStreamWriter& w) { w.writeVarInt32(VarInt32(-int32_t(v))); },
                [=](Bits& b) { b.putVar(v, true, true, 4); });
        add(ops, str("varsize ", v), [=](BitStreamWriter& w) { w.writeVarSize(VarSize(uint32_t(v))); },
                [=](Bits& b) { b.putVarSize(v); });
    }
    for (unsigned bits : {0U, 6U, 13U, 20U, 27U, 34U, 41U, 48U, 55U})
    {
        const uint64_t v = 1ULL << bits;
        add(ops, str("varint64 ", v), [=](BitStreamWriter& w) { w.writeVarInt64(VarInt64(-int64_t(v))); },
                [=](Bits& b) { b.putVar(v, true, true, 8); });
        add(ops, str("varuint64 ", v), [=](BitStreamWriter& w) { w.writeVarUInt64(VarUInt64(v)); },
                [=](Bits& b) { b.putVar(v, false, false, 8); });
        add(ops, str("varint ", v), [=](BitStreamWriter& w) { w.writeVarInt(VarInt(-int64_t(v << 6))); },
                [=](Bits& b) { b.putVar(v << 6, true, true, 9); });
        add(ops, str("varuint ", v), [=](BitStreamWriter& w) { w.writeVarUInt(VarUInt(v << 7)); },
                [=](Bits& b) { b.putVar(v << 7, false, false, 9); });
    }
    add(ops, "varint min", [](BitStreamWriter& w) { w.writeVarInt(VarInt(INT64_MIN)); },
            [](Bits& b) { b.put(0x80, 8); });
    for (size_t n : {0, 1, 2, 5, 130})
    {
        bytes(n);
        string(n);
    }
    for (size_t n : {0, 1, 7, 8, 9, 16, 23, 64, 130})
    {
        bitBuffer(n);
    }
    for (size_t a : {1, 2, 3, 7, 16, 64, 65, 130, 200})
    {
        align(a);
    }
    return ops;
}

// an exactly allocated buffer with a capacity in bits
struct Target
{
    size_t capacity;
    std::unique_ptr<uint8_t[]> memory;
    size_t size;
    std::vector<uint8_t> before;

    Target(size_t capacity_, uint8_t background) :
            capacity(capacity_),
            memory(new uint8_t[(capacity_ + 7) / 8]),
            size((capacity_ + 7) / 8)
    {
        std::memset(memory.get(), background, size);
    }
    Bits content() const { return Bits::fromBytes(memory.get(), size * 8); }
};

// executes op on the writer and on the model; returns whether it fitted
bool apply(Ctx& ctx, const Op& op, BitStreamWriter& writer, Target& target, Bits& model, const std::string& where)
{
    const size_t start = model.pos;
    Bits probe;
    probe.bits.resize(start);
    probe.pos = start;
    op.model(probe);
    const bool fits = probe.pos <= target.capacity;
    bool written = false;
    try
    {
        op.write(writer);
        written = true;
    }
    catch (const BitStreamWriter::InsufficientCapacityException&)
    {}
    ctx.step();
    MC_REQUIRE(ctx, written == fits, fits ? "fitting-write-rejected" : "write-beyond-capacity", where);
    const Bits now = target.content();
    if (fits)
    {
        MC_REQUIRE(ctx, writer.getBitPosition() == probe.pos, "position", where, ": ", writer.getBitPosition(),
                " expected ", probe.pos);
        const size_t end = model.bits.size();
        op.model(model);
        model.bits.resize(end); // the model is as large as the memory
    }
    else
    {
        MC_REQUIRE(ctx, writer.getBitPosition() >= start && writer.getBitPosition() <= target.capacity,
                "position-after-rejection", where, ": ", writer.getBitPosition());
        // whatever was stored of the rejected value is within the capacity
        model.pos = writer.getBitPosition();
        std::copy(now.bits.begin() + static_cast<ptrdiff_t>(start),
                now.bits.begin() + static_cast<ptrdiff_t>(target.capacity),
                model.bits.begin() + static_cast<ptrdiff_t>(start));
    }
    MC_REQUIRE(ctx, now.bits == model.bits, "content", where, ": buffer is ",
            mc::hex(target.memory.get(), target.size), " expected ", mc::hex(model.bytes().data(), target.size));
    return fits;
}

// after whatever happened: single bits can be written until the capacity is reached and not further
void fill(Ctx& ctx, BitStreamWriter& writer, Target& target, Bits& model, const std::string& where)
{
    bool bit = false;
    while (model.pos < target.capacity)
    {
        bit = !bit;
        writer.writeBool(bit);
        model.putBit(bit);
        ctx.step();
    }
    bool rejected = false;
    try
    {
        writer.writeBool(true);
    }
    catch (const BitStreamWriter::InsufficientCapacityException&)
    {
        rejected = true;
    }
    MC_REQUIRE(ctx, rejected, "write-beyond-capacity", where, ": one bit more");
    MC_REQUIRE(ctx, target.content().bits == model.bits, "content", where, ": after filling up");
    MC_REQUIRE(ctx, writer.getBitPosition() == target.capacity, "position", where, ": after filling up");
}

// every operation from every start at every capacity around its end
void everyCapacity(Ctx& ctx)
{
    static const std::vector<Op> ops = makeOps(true);
    const Op& op = ops[ctx.choose(static_cast<uint32_t>(ops.size()))];
    const uint32_t start = ctx.choose(ctx.thorough() ? 33 : 17);
    Bits probe;
    probe.bits.resize(start);
    probe.pos = start;
    op.model(probe);
    for (size_t capacity = start; capacity <= probe.pos + 17; ++capacity)
    {
        for (uint8_t background : {0x00, 0xff})
        {
            const std::string where = str(op.name, " from bit ", start, " with capacity ", capacity, " on ",
                    int(background));
            ctx.note(where);
            Target target(capacity, background);
            if (target.size == 0)
            {
                continue; // a buffer of no bytes is the writer without a buffer
            }
            BitStreamWriter writer(target.memory.get(), capacity, BitsTag());
            MC_REQUIRE(ctx, writer.getBufferBitSize() == capacity && writer.hasWriteBuffer(), "writer", where);
            writer.setBitPosition(start);
            Bits model = target.content();
            model.pos = start;
            apply(ctx, op, writer, target, model, where);
            fill(ctx, writer, target, model, where);
            ctx.state(Ctx::mix(Ctx::mix(capacity * 2 + (background & 1), start), Ctx::hashOf(op.name)));
        }
    }
    // without a buffer
    BitStreamWriter counter(nullptr, 0);
    counter.setBitPosition(start);
    op.write(counter);
    MC_REQUIRE(ctx, counter.getBitPosition() == probe.pos, "count-position", op.name, " from ", start, ": ",
            counter.getBitPosition(), " expected ", probe.pos);
    MC_REQUIRE(ctx, !counter.hasWriteBuffer() && counter.getWriteBuffer() == nullptr, "writer", op.name);
    ctx.cases(probe.pos + 18 - start);
}

// sequences of operations on a buffer that is full at some point, with repositioning
void sequences(Ctx& ctx)
{
    static const std::vector<Op> ops = makeOps(false);
    const size_t capacity = ctx.pick(ctx.thorough()
                    ? std::vector<size_t>{1, 5, 8, 12, 16, 17, 20, 24, 31, 32, 33, 40, 44, 48, 63, 64, 65, 72, 80, 90}
                    : std::vector<size_t>{5, 8, 12, 17, 24, 33, 40, 44, 64, 75});
    const uint8_t background = ctx.flip() ? 0xff : 0x00;
    Target target(capacity, background);
    BitStreamWriter writer(target.memory.get(), capacity, BitsTag());
    BitStreamWriter counter(nullptr, 0);
    Bits model = target.content();
    std::string where = str("capacity ", capacity, " on ", int(background), ":");
    const uint32_t depth = ctx.thorough() ? 5 : 4;
    for (uint32_t i = 0; i < depth; ++i)
    {
        const uint32_t n = static_cast<uint32_t>(ops.size());
        const uint32_t choice = ctx.choose(n + 3);
        if (choice >= n)
        {
            const size_t position = choice == n ? capacity : choice == n + 1 ? capacity + 1 : capacity / 2;
            where += str(" position(", position, ")");
            ctx.note(where);
            bool rejected = false;
            try
            {
                writer.setBitPosition(position);
            }
            catch (const BitStreamWriter::InsufficientCapacityException&)
            {
                rejected = true;
            }
            MC_REQUIRE(ctx, rejected == (position > capacity), "set-position", where);
            if (!rejected)
            {
                model.pos = position;
                counter.setBitPosition(position);
            }
            MC_REQUIRE(ctx, writer.getBitPosition() == model.pos, "position", where);
            ctx.step();
            continue;
        }
        where += " " + ops[choice].name;
        ctx.note(where);
        if (apply(ctx, ops[choice], writer, target, model, where))
        {
            ops[choice].write(counter);
            MC_REQUIRE(ctx, counter.getBitPosition() == writer.getBitPosition(), "count-position", where, ": ",
                    counter.getBitPosition(), " expected ", writer.getBitPosition());
        }
        else
        {
            where += "!";
            counter.setBitPosition(writer.getBitPosition());
        }
        ctx.state(Ctx::mix(Ctx::mix(capacity * 2 + (background & 1), model.pos), Ctx::hashOf(ops[choice].name)));
    }
    fill(ctx, writer, target, model, where);
    if (ctx.wantSample())
    {
        ctx.sample(where);
    }
}

// a counting writer far behind anything that can be allocated
void farCounting(Ctx& ctx)
{
    static const std::vector<Op> ops = makeOps(true);
    const Op& op = ops[ctx.choose(static_cast<uint32_t>(ops.size()))];
    // a position with the same remainder for every alignment used by the operations
    const uint64_t base = ctx.pick(std::vector<uint64_t>{uint64_t(7 * 3 * 65 * 200 * 64) * 1000000,
            uint64_t(7 * 3 * 65 * 200 * 64) * 100000000ULL});
    for (uint32_t start = 0; start < 70; ++start)
    {
        Bits probe;
        probe.bits.resize(start);
        probe.pos = start;
        op.model(probe);
        BitStreamWriter counter(nullptr, 0);
        counter.setBitPosition(base + start);
        op.write(counter);
        MC_REQUIRE(ctx, counter.getBitPosition() == base + probe.pos, "count-position", op.name, " from ",
                base + start, ": ", counter.getBitPosition(), " expected ", base + probe.pos);
        ctx.step();
        ctx.state(Ctx::mix(base + start, Ctx::hashOf(op.name)));
    }
    ctx.cases(70);
}

template <typename WRITE>
void structured(Ctx& ctx, const char* name, const WRITE& write)
{
    BitStreamWriter counter(nullptr, 0);
    write(counter);
    const size_t size = counter.getBitPosition();
    std::unique_ptr<uint8_t[]> reference(new uint8_t[size / 8 + 1]());
    BitStreamWriter full(reference.get(), size, BitsTag());
    write(full);
    MC_REQUIRE(ctx, full.getBitPosition() == size, "count-position", name, ": counted ", size, " written ",
            full.getBitPosition());
    const Bits expected = Bits::fromBytes(reference.get(), size);
    for (size_t capacity = 1; capacity <= size + 1; ++capacity)
    {
        const std::string where = str(name, " of ", size, " bits with capacity ", capacity);
        ctx.note(where);
        Target target(capacity, 0xff);
        BitStreamWriter writer(target.memory.get(), capacity, BitsTag());
        bool written = false;
        try
        {
            write(writer);
            written = true;
        }
        catch (const BitStreamWriter::InsufficientCapacityException&)
        {}
        ctx.step();
        MC_REQUIRE(ctx, written == (capacity >= size),
                written ? "write-beyond-capacity" : "fitting-write-rejected", where);
        MC_REQUIRE(ctx, writer.getBitPosition() <= capacity, "position-after-rejection", where, ": ",
                writer.getBitPosition());
        const Bits now = target.content();
        for (size_t i = 0; i < now.bits.size(); ++i)
        {
            const bool inside = i < (written ? size : writer.getBitPosition());
            const bool maybe = !inside && i < (written ? size : capacity);
            MC_REQUIRE(ctx, maybe || now.bits[i] == (inside ? expected.bits[i] : 1), "content", where, ": bit ", i);
        }
        ctx.state(Ctx::mix(Ctx::mix(size, capacity), Ctx::hashOf(name)));
    }
    ctx.cases(size + 1);
}

template <typename T, typename... ARGS>
void object(Ctx& ctx, const T& data, ARGS... args)
{
    const View<T> view(data, args...);
    (void)zd::initializeOffsets(view, 0);
    structured(ctx, "object", [&](BitStreamWriter& writer) { zd::write(writer, view); });
}

template <typename T>
void arrays(Ctx& ctx, const Vector<T>& values)
{
    using Traits = ArrayTraits<T>;
    const ArrayView<const T, Traits> view(values);
    const uint32_t kind = ctx.choose(8);
    structured(ctx, "array", [&](BitStreamWriter& writer) {
        using zd::ArrayType;
        switch (kind)
        {
        case 0:
            return zd::write<ArrayType::NORMAL>(writer, view);
        case 1:
            return zd::write<ArrayType::AUTO>(writer, view);
        case 2:
            return zd::write<ArrayType::ALIGNED>(writer, view);
        case 3:
            return zd::write<ArrayType::ALIGNED_AUTO>(writer, view);
        case 4:
            return zd::writePacked<ArrayType::NORMAL>(writer, view);
        case 5:
            return zd::writePacked<ArrayType::AUTO>(writer, view);
        case 6:
            return zd::writePacked<ArrayType::ALIGNED>(writer, view);
        default:
            return zd::writePacked<ArrayType::ALIGNED_AUTO>(writer, view);
        }
    });
}

void compounds(Ctx& ctx)
{
    namespace to = test_object::std_allocator;
    switch (ctx.choose(7))
    {
    case 0:
    {
        const auto data = obj::std_allocator::creatorNested(ctx.choose(obj::std_allocator::creatorNestedVariants));
        return object(ctx, data, UInt32(10));
    }
    case 1:
    {
        const auto data = obj::std_allocator::walkerObject(ctx, ctx.thorough() ? 2 : 0);
        return object(ctx, data);
    }
    case 2:
    {
        const auto data = obj::std_allocator::reflectableObject(ctx, 0);
        return object(ctx, data);
    }
    case 3:
    {
        const auto data = obj::std_allocator::walkerUnion(ctx.choose(6));
        return object(ctx, data);
    }
    case 4:
        return arrays<VarInt>(ctx, {1, -700, 1000000, INT64_MIN, INT64_MAX});
    case 5:
        return arrays<Int33>(ctx, {1, 3, 5, 1LL << 31, -1});
    default:
        return arrays<UInt7>(ctx, {1, 2, 3, 4, 127, 0});
    }
}

// the ways to make a writer
void construction(Ctx& ctx)
{
    const size_t bytes = ctx.choose(5);
    const std::vector<size_t> sizes = {0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, size_t(1) << 40, SIZE_MAX - 8,
            SIZE_MAX - 7, SIZE_MAX - 6, SIZE_MAX};
    const size_t bits = ctx.pick(sizes);
    const uint32_t kind = ctx.choose(5);
    const std::string where = str("kind ", kind, " of ", bits, " bits in ", bytes, " bytes");
    ctx.note(where);
    std::unique_ptr<uint8_t[]> memory(new uint8_t[bytes]());
    auto check = [&](BitStreamWriter& writer, size_t capacity, const uint8_t* data) {
        MC_REQUIRE(ctx, writer.getBufferBitSize() == capacity, "buffer-bit-size", where, ": ", writer.getBufferBitSize());
        MC_REQUIRE(ctx, writer.getWriteBuffer() == data && writer.getBuffer().data() == data, "buffer", where);
        MC_REQUIRE(ctx, writer.hasWriteBuffer() == (data != nullptr), "buffer", where);
        MC_REQUIRE(ctx, writer.getBitPosition() == 0, "position", where);
        if (data == nullptr)
        {
            return;
        }
        MC_REQUIRE(ctx, writer.getBuffer().size() == bytes, "buffer-size", where, ": ", writer.getBuffer().size());
        for (size_t i = 0; i < capacity; ++i)
        {
            writer.writeBool(true);
        }
        bool rejected = false;
        try
        {
            writer.writeBool(true);
        }
        catch (const BitStreamWriter::InsufficientCapacityException&)
        {
            rejected = true;
        }
        MC_REQUIRE(ctx, rejected, "write-beyond-capacity", where);
        for (size_t i = 0; i < bytes * 8; ++i)
        {
            MC_REQUIRE(ctx, ((data[i / 8] >> (7 - i % 8)) & 1) == (i < capacity), "content", where, ": bit ", i);
        }
    };
    if (kind == 0)
    {
        if (bits != 0)
        {
            ctx.skip();
        }
        BitStreamWriter writer(memory.get(), bytes);
        check(writer, bytes * 8, memory.get());
    }
    else if (kind == 1)
    {
        if ((bits + 7) / 8 != bytes || bits > 64)
        {
            ctx.skip();
        }
        BitStreamWriter writer(memory.get(), bits, BitsTag());
        check(writer, bits, memory.get());
    }
    else if (kind == 2)
    {
        if (bits != 0)
        {
            ctx.skip();
        }
        BitStreamWriter writer(Span<uint8_t>(memory.get(), bytes));
        check(writer, bytes * 8, memory.get());
    }
    else if (kind == 3)
    {
        bool rejected = false;
        try
        {
            BitStreamWriter writer(Span<uint8_t>(memory.get(), bytes), bits);
            MC_REQUIRE(ctx, bits <= bytes * 8, "capacity-beyond-buffer", where, ": accepted");
            check(writer, bits, memory.get());
        }
        catch (const BitStreamWriter::InsufficientCapacityException&)
        {
            ctx.fail("fitting-write-rejected", where);
        }
        catch (const CppRuntimeException&)
        {
            rejected = true;
        }
        MC_REQUIRE(ctx, rejected == (bits > bytes * 8), "capacity-check", where);
    }
    else
    {
        if ((bits + 7) / 8 != bytes || bits > 64)
        {
            ctx.skip();
        }
        BitBuffer buffer(bits);
        BitStreamWriter writer(buffer);
        check(writer, bits, buffer.getData().data());
    }
    ctx.step();
    ctx.state(Ctx::mix(bits, bytes * 8 + kind));
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {{"every capacity", everyCapacity, 2}, {"sequences", sequences, 4}, {"far counting", farCounting, 2},
                    {"compounds", compounds, 4}, {"construction", construction}});
}
