// C07: unpacked arrays in every layout against the reference encoding.
// mc: level=model_checking sources=std_test_object:Creator groups=arrays:KIT_PACKED=0
#include "arrays.h"
#include "bitmodel.h"

#include "zserio/ArrayLengthException.h"
#include "zserio/ArrayView.h"
#include "zserio/Types.h"
#include "zserio/Vector.h"

using namespace kit;
using bm::Bits;
using zserio::detail::ArrayType;

namespace
{

// every array of up to the depth's length over the alphabet of its element kind
void shortArrays(Ctx& ctx)
{
    const uint32_t kindIndex = ctx.choose(static_cast<uint32_t>(kinds().size()));
    const int layout = static_cast<int>(ctx.choose(5));
    const uint32_t start = ctx.choose(9);
    const AnyKind& kind = *kinds()[kindIndex];
    const uint32_t length = ctx.choose(ctx.thorough() ? 5 : 4);
    std::vector<uint32_t> indexes;
    uint64_t hash = Ctx::mix(kindIndex * 16 + static_cast<uint32_t>(layout), start * 8 + length);
    std::string text;
    for (uint32_t i = 0; i < length; ++i)
    {
        indexes.push_back(ctx.choose(kind.alphabet()));
        hash = Ctx::mix(hash, indexes.back());
        text += (i ? "," : "") + std::to_string(indexes.back());
    }
    ctx.note(str(kind.name(), " ", layoutName(layout), " at bit ", start, " elements [", text, "]"));
    if (!kind.run(ctx, layout, indexes, start))
    {
        ctx.skip();
    }
    ctx.state(hash);
    if (ctx.wantSample())
    {
        ctx.sample(str(kind.name(), " ", layoutName(layout), " at bit ", start, " alphabet indexes [", text, "]"));
    }
}

// lengths around the borders of the length prefix and of the preallocation limit
void longArrays(Ctx& ctx)
{
    const uint32_t kindIndex = ctx.choose(static_cast<uint32_t>(kinds().size()));
    const int layout = static_cast<int>(ctx.choose(5));
    const uint32_t length = ctx.pick(std::vector<uint32_t>{7, 8, 9, 126, 127, 128, 129, 300, 16383, 16384});
    const uint32_t start = ctx.pick(std::vector<uint32_t>{0, 3});
    const size_t prealloc = ctx.pick(std::vector<size_t>{0, 1, 100, 4096});
    if (length > 1000 && (start != 0 || prealloc == 100 || (prealloc == 1 && !ctx.thorough())))
    {
        ctx.skip();
    }
    const AnyKind& kind = *kinds()[kindIndex];
    std::vector<uint32_t> indexes;
    for (uint32_t i = 0; i < length; ++i)
    {
        indexes.push_back((i * 7 + i / 3) % kind.alphabet());
    }
    ctx.note(str(kind.name(), " ", layoutName(layout), " at bit ", start, " length ", length, " preallocation ",
            prealloc));
    if (!kind.run(ctx, layout, indexes, start, prealloc))
    {
        ctx.skip();
    }
    ctx.state(Ctx::mix(Ctx::mix(kindIndex * 16 + static_cast<uint32_t>(layout), start * 65536 + length), prealloc));
}

// validation of the length against the schema and of every element
void validation(Ctx& ctx)
{
    namespace zd = zserio::detail;
    using zserio::UInt5;
    const uint32_t length = ctx.choose(5);
    const uint32_t schema = ctx.choose(5);
    const uint32_t layout = ctx.choose(5);
    const uint32_t bad = ctx.choose(length + 1); // index of an out of range element, or none
    zserio::Vector<UInt5> data(length, UInt5(31));
    if (bad < length)
    {
        data[bad] = UInt5(static_cast<uint8_t>(32));
    }
    const zserio::ArrayView<const UInt5> view(data);
    const bool fixedLength = layout < 2;
    const bool expectLength = fixedLength && length != schema;
    const bool expectRange = bad < length;
    ctx.note(str("length ", length, " schema ", schema, " layout ", layout, " bad ", bad));
    std::string result = "ok";
    try
    {
        switch (layout)
        {
        case 0:
            zd::validate<ArrayType::NORMAL>(view, "field", schema);
            break;
        case 1:
            zd::validate<ArrayType::ALIGNED>(view, "field", schema);
            break;
        case 2:
            zd::validate<ArrayType::AUTO>(view, "field", schema);
            break;
        case 3:
            zd::validate<ArrayType::ALIGNED_AUTO>(view, "field", schema);
            break;
        default:
            zd::validate<ArrayType::IMPLICIT>(view, "field", schema);
            break;
        }
    }
    catch (const zserio::ArrayLengthException&)
    {
        result = "length";
    }
    catch (const zserio::OutOfRangeException&)
    {
        result = "range";
    }
    const std::string expected = expectLength ? "length" : expectRange ? "range" : "ok";
    MC_REQUIRE(ctx, result == expected, "validate", "validation says ", result, " expected ", expected);
    ctx.step();
    ctx.state(str(length, schema, layout, bad));
}

// elements of an implicit array fill the rest of the buffer; a rest shorter than one element is left alone
template <typename T>
void implicitOf(Ctx& ctx, unsigned bits)
{
    namespace zd = zserio::detail;
    const uint32_t start = ctx.choose(17);
    const uint32_t total = ctx.choose(80);
    if (start > total)
    {
        ctx.skip();
    }
    std::vector<uint8_t> buffer(10, 0x5a);
    zserio::BitStreamReader reader(buffer.data(), total, zserio::BitsTag());
    reader.setBitPosition(start);
    zserio::Vector<T> out;
    ctx.note(str("element bits ", bits, " from ", start, " to ", total));
    zd::read<ArrayType::IMPLICIT>(reader, out);
    const size_t expected = (total - start) / bits;
    MC_REQUIRE(ctx, out.size() == expected, "implicit-length", out.size(), " expected ", expected);
    MC_REQUIRE(ctx, reader.getBitPosition() == start + expected * bits, "implicit-position",
            reader.getBitPosition());
    Bits model = Bits::fromBytes(buffer.data(), total);
    model.pos = start;
    for (size_t i = 0; i < expected; ++i)
    {
        MC_REQUIRE(ctx, static_cast<uint64_t>(out[i]) == model.get(bits), "implicit-element", i);
    }
    ctx.step();
    ctx.state(Ctx::mix(bits, start * 100 + total));
}

void implicitArrays(Ctx& ctx)
{
    switch (ctx.choose(4))
    {
    case 0:
        return implicitOf<zserio::UInt1>(ctx, 1);
    case 1:
        return implicitOf<zserio::UInt5>(ctx, 5);
    case 2:
        return implicitOf<zserio::UInt8>(ctx, 8);
    default:
        return implicitOf<zserio::UInt33>(ctx, 33);
    }
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {{"short arrays", shortArrays, 3}, {"long arrays", longArrays, 3}, {"validation", validation},
                    {"implicit arrays", implicitArrays}});
}
