// Array element kinds with reference encodings, and one check that runs an array through size, offsets, write and
// read in a layout, packed or not, and compares everything with the reference encoding.
#ifndef VERIF_ARRAYKIT_H
#define VERIF_ARRAYKIT_H

#include "arrays.h"
#include "bitmodel.h"

#include "test_object/std_allocator/CreatorBitmask.h"
#include "test_object/std_allocator/CreatorEnum.h"
#include "test_object/std_allocator/CreatorUnsignedEnum.h"

#include "zserio/ArrayView.h"
#include "zserio/BitBuffer.h"
#include "zserio/Bytes.h"
#include "zserio/Optional.h"
#include "zserio/String.h"
#include "zserio/Types.h"
#include "zserio/Vector.h"

#include <cmath>
#include <cstring>
#include <map>
#include <memory>

namespace kit
{
template <typename T>
struct is_float : std::false_type
{};
template <typename V, zserio::detail::FloatType F>
struct is_float<zserio::detail::FloatWrapper<V, F>> : std::true_type
{};
} // namespace kit

namespace kit
{

// structure with two packable fields
struct Inner
{
    zserio::UInt16 a;
    zserio::Int32 b;
    bool operator==(const Inner& o) const { return a == o.a && b == o.b; }
};

// structure with packable, unpackable, optional and nested fields
struct Outer
{
    zserio::VarUInt id;
    zserio::String name;
    zserio::Optional<zserio::Int8> opt;
    Inner inner;
    zserio::Float32 ratio;
    bool operator==(const Outer& o) const
    {
        return id == o.id && name == o.name && opt == o.opt && inner == o.inner && ratio == o.ratio;
    }
};

// structure with an offset, an aligned field and a packed nested field behind it
struct Offs
{
    mutable zserio::UInt32 offset;
    zserio::UInt3 lead;
    zserio::VarInt32 value; // at the offset, byte aligned
    bool operator==(const Offs& o) const { return offset == o.offset && lead == o.lead && value == o.value; }
};

// structure without packable fields
struct Plain
{
    zserio::String text;
    zserio::Float16 number;
    bool operator==(const Plain& o) const { return text == o.text && number == o.number; }
};

struct DynOwner
{
    uint8_t numBits = 11;
};

} // namespace kit

namespace zserio
{

template <>
class View<kit::Inner>
{
public:
    explicit View(const kit::Inner& data) : m_data(&data) {}
    UInt16 a() const { return m_data->a; }
    Int32 b() const { return m_data->b; }
    bool operator==(const View& o) const { return *m_data == *o.m_data; }

private:
    const kit::Inner* m_data;
};

template <>
class View<kit::Outer>
{
public:
    explicit View(const kit::Outer& data) : m_data(&data) {}
    VarUInt id() const { return m_data->id; }
    std::string_view name() const { return m_data->name; }
    const Optional<Int8>& opt() const { return m_data->opt; }
    View<kit::Inner> inner() const { return View<kit::Inner>(m_data->inner); }
    Float32 ratio() const { return m_data->ratio; }
    bool operator==(const View& o) const { return *m_data == *o.m_data; }

private:
    const kit::Outer* m_data;
};

template <>
class View<kit::Offs>
{
public:
    explicit View(const kit::Offs& data) : m_data(&data) {}
    UInt32& offset() const { return m_data->offset; }
    UInt3 lead() const { return m_data->lead; }
    VarInt32 value() const { return m_data->value; }
    bool operator==(const View& o) const { return *m_data == *o.m_data; }

private:
    const kit::Offs* m_data;
};

template <>
class View<kit::Plain>
{
public:
    explicit View(const kit::Plain& data) : m_data(&data) {}
    std::string_view text() const { return m_data->text; }
    Float16 number() const { return m_data->number; }
    bool operator==(const View& o) const { return *m_data == *o.m_data; }

private:
    const kit::Plain* m_data;
};

namespace detail
{

template <>
struct ObjectTraits<kit::Inner>
{
    struct PackingContext
    {
        DeltaContext a;
        DeltaContext b;
    };
    static void validate(const View<kit::Inner>& view, std::string_view)
    {
        detail::validate(view.a(), "a");
        detail::validate(view.b(), "b");
    }
    static BitSize bitSizeOf(const View<kit::Inner>& view, BitSize bitPosition)
    {
        BitSize end = bitPosition;
        end += detail::bitSizeOf(view.a(), end);
        end += detail::bitSizeOf(view.b(), end);
        return end - bitPosition;
    }
    static void write(BitStreamWriter& writer, const View<kit::Inner>& view)
    {
        detail::write(writer, view.a());
        detail::write(writer, view.b());
    }
    static View<kit::Inner> read(BitStreamReader& reader, kit::Inner& data)
    {
        detail::read(reader, data.a);
        detail::read(reader, data.b);
        return View<kit::Inner>(data);
    }
    static void initContext(PackingContext& c, const View<kit::Inner>& view)
    {
        detail::initContext(c.a, view.a());
        detail::initContext(c.b, view.b());
    }
    static BitSize bitSizeOf(PackingContext& c, const View<kit::Inner>& view, BitSize bitPosition)
    {
        BitSize end = bitPosition;
        end += detail::bitSizeOf(c.a, view.a(), end);
        end += detail::bitSizeOf(c.b, view.b(), end);
        return end - bitPosition;
    }
    static void write(PackingContext& c, BitStreamWriter& writer, const View<kit::Inner>& view)
    {
        detail::write(c.a, writer, view.a());
        detail::write(c.b, writer, view.b());
    }
    static void read(PackingContext& c, BitStreamReader& reader, kit::Inner& data)
    {
        detail::read(c.a, reader, data.a);
        detail::read(c.b, reader, data.b);
    }
};

template <>
struct ObjectTraits<kit::Outer>
{
    struct PackingContext
    {
        DeltaContext id;
        DeltaContext opt;
        ObjectTraits<kit::Inner>::PackingContext inner;
    };
    static void validate(const View<kit::Outer>&, std::string_view) {}
    static BitSize bitSizeOf(const View<kit::Outer>& view, BitSize bitPosition)
    {
        BitSize end = bitPosition;
        end += detail::bitSizeOf(view.id(), end);
        end += detail::bitSizeOf(view.name(), end);
        end += 1;
        if (view.opt().has_value())
        {
            end += detail::bitSizeOf(*view.opt(), end);
        }
        end += detail::bitSizeOf(view.inner(), end);
        end += detail::bitSizeOf(view.ratio(), end);
        return end - bitPosition;
    }
    static void write(BitStreamWriter& writer, const View<kit::Outer>& view)
    {
        detail::write(writer, view.id());
        detail::write(writer, view.name());
        writer.writeBool(view.opt().has_value());
        if (view.opt().has_value())
        {
            detail::write(writer, *view.opt());
        }
        detail::write(writer, view.inner());
        detail::write(writer, view.ratio());
    }
    static View<kit::Outer> read(BitStreamReader& reader, kit::Outer& data)
    {
        detail::read(reader, data.id);
        detail::read(reader, data.name);
        if (reader.readBool())
        {
            data.opt.emplace();
            detail::read(reader, *data.opt);
        }
        (void)detail::read(reader, data.inner);
        detail::read(reader, data.ratio);
        return View<kit::Outer>(data);
    }
    static void initContext(PackingContext& c, const View<kit::Outer>& view)
    {
        detail::initContext(c.id, view.id());
        if (view.opt().has_value())
        {
            detail::initContext(c.opt, *view.opt());
        }
        detail::initContext(c.inner, view.inner());
    }
    static BitSize bitSizeOf(PackingContext& c, const View<kit::Outer>& view, BitSize bitPosition)
    {
        BitSize end = bitPosition;
        end += detail::bitSizeOf(c.id, view.id(), end);
        end += detail::bitSizeOf(view.name(), end);
        end += 1;
        if (view.opt().has_value())
        {
            end += detail::bitSizeOf(c.opt, *view.opt(), end);
        }
        end += detail::bitSizeOf(c.inner, view.inner(), end);
        end += detail::bitSizeOf(view.ratio(), end);
        return end - bitPosition;
    }
    static void write(PackingContext& c, BitStreamWriter& writer, const View<kit::Outer>& view)
    {
        detail::write(c.id, writer, view.id());
        detail::write(writer, view.name());
        writer.writeBool(view.opt().has_value());
        if (view.opt().has_value())
        {
            detail::write(c.opt, writer, *view.opt());
        }
        detail::write(c.inner, writer, view.inner());
        detail::write(writer, view.ratio());
    }
    static void read(PackingContext& c, BitStreamReader& reader, kit::Outer& data)
    {
        detail::read(c.id, reader, data.id);
        detail::read(reader, data.name);
        if (reader.readBool())
        {
            data.opt.emplace();
            detail::read(c.opt, reader, *data.opt);
        }
        detail::read(c.inner, reader, data.inner);
        detail::read(reader, data.ratio);
    }
};

template <>
struct ObjectTraits<kit::Offs>
{
    struct PackingContext
    {
        DeltaContext lead;
        DeltaContext value;
    };
    static void validate(const View<kit::Offs>&, std::string_view) {}
    static BitSize bitSizeOf(const View<kit::Offs>& view, BitSize bitPosition)
    {
        BitSize end = bitPosition;
        end += detail::bitSizeOf(view.offset(), end);
        end += detail::bitSizeOf(view.lead(), end);
        end = alignTo(8, end);
        end += detail::bitSizeOf(view.value(), end);
        return end - bitPosition;
    }
    static BitSize initializeOffsets(const View<kit::Offs>& view, BitSize bitPosition)
    {
        BitSize end = bitPosition;
        end += detail::bitSizeOf(view.offset(), end);
        end += detail::bitSizeOf(view.lead(), end);
        end = alignTo(8, end);
        view.offset() = static_cast<uint32_t>(end / 8);
        end += detail::bitSizeOf(view.value(), end);
        return end - bitPosition;
    }
    static void write(BitStreamWriter& writer, const View<kit::Offs>& view)
    {
        detail::write(writer, view.offset());
        detail::write(writer, view.lead());
        writer.alignTo(8);
        detail::write(writer, view.value());
    }
    static View<kit::Offs> read(BitStreamReader& reader, kit::Offs& data)
    {
        detail::read(reader, data.offset);
        detail::read(reader, data.lead);
        reader.alignTo(8);
        detail::read(reader, data.value);
        return View<kit::Offs>(data);
    }
    static void initContext(PackingContext& c, const View<kit::Offs>& view)
    {
        detail::initContext(c.lead, view.lead());
        detail::initContext(c.value, view.value());
    }
    static BitSize bitSizeOf(PackingContext& c, const View<kit::Offs>& view, BitSize bitPosition)
    {
        BitSize end = bitPosition;
        end += detail::bitSizeOf(view.offset(), end);
        end += detail::bitSizeOf(c.lead, view.lead(), end);
        end = alignTo(8, end);
        end += detail::bitSizeOf(c.value, view.value(), end);
        return end - bitPosition;
    }
    static BitSize initializeOffsets(PackingContext& c, const View<kit::Offs>& view, BitSize bitPosition)
    {
        BitSize end = bitPosition;
        end += detail::bitSizeOf(view.offset(), end);
        end += detail::bitSizeOf(c.lead, view.lead(), end);
        end = alignTo(8, end);
        view.offset() = static_cast<uint32_t>(end / 8);
        end += detail::bitSizeOf(c.value, view.value(), end);
        return end - bitPosition;
    }
    static void write(PackingContext& c, BitStreamWriter& writer, const View<kit::Offs>& view)
    {
        detail::write(writer, view.offset());
        detail::write(c.lead, writer, view.lead());
        writer.alignTo(8);
        detail::write(c.value, writer, view.value());
    }
    static void read(PackingContext& c, BitStreamReader& reader, kit::Offs& data)
    {
        detail::read(reader, data.offset);
        detail::read(c.lead, reader, data.lead);
        reader.alignTo(8);
        detail::read(c.value, reader, data.value);
    }
};

template <>
struct ObjectTraits<kit::Plain>
{
    static void validate(const View<kit::Plain>&, std::string_view) {}
    static BitSize bitSizeOf(const View<kit::Plain>& view, BitSize bitPosition)
    {
        BitSize end = bitPosition;
        end += detail::bitSizeOf(view.text(), end);
        end += detail::bitSizeOf(view.number(), end);
        return end - bitPosition;
    }
    static void write(BitStreamWriter& writer, const View<kit::Plain>& view)
    {
        detail::write(writer, view.text());
        detail::write(writer, view.number());
    }
    static View<kit::Plain> read(BitStreamReader& reader, kit::Plain& data)
    {
        detail::read(reader, data.text);
        detail::read(reader, data.number);
        return View<kit::Plain>(data);
    }
};

} // namespace detail
} // namespace zserio

namespace kit
{

using bm::Bits;
using mc::Ctx;
using mc::str;
using zserio::detail::ArrayType;

template <typename T>
struct DynTraits
{
    using OwnerType = DynOwner;
    static zserio::View<T> at(const DynOwner& owner, const T& element, size_t)
    {
        return zserio::View<T>(element, owner.numBits);
    }
    static void read(zserio::BitStreamReader& reader, const DynOwner& owner, T& element, size_t)
    {
        zserio::detail::read(reader, element, owner.numBits);
    }
    static void read(zserio::detail::DeltaContext& context, zserio::BitStreamReader& reader, const DynOwner& owner,
            T& element, size_t)
    {
        zserio::detail::read(context, reader, element, owner.numBits);
    }
};

// one part of an element: a packable field (ctx >= 0) or anything else (ctx < 0)
struct Item
{
    int ctx;
    __int128 value;
    std::function<void(Bits&)> put;
};

template <typename T, typename TRAITS_ = zserio::ArrayTraits<T>>
struct Kind
{
    using Type = T;
    using Traits = TRAITS_;
    const char* name;
    std::vector<T> values;
    std::function<std::vector<Item>(const T&, size_t pos)> items;
    bool fixedSize = false; // usable in implicit arrays
};

template <typename T>
struct is_dyn : std::false_type
{};
template <typename V>
struct is_dyn<zserio::detail::DynIntWrapper<V>> : std::true_type
{};

struct RefContext
{
    uint64_t count = 0;
    uint64_t unpackedBits = 0;
    uint64_t firstBits = 0;
    unsigned maxBits = 0;
    __int128 prev = 0;
    bool tooWide = false;
    bool started = false;
    bool packed = false;
};

inline unsigned bitLength(unsigned __int128 v)
{
    unsigned n = 0;
    while (v != 0)
    {
        ++n;
        v >>= 1;
    }
    return n;
}

// reference encoding; offsets receives the byte position of every element of an aligned layout
template <typename KIND>
void encode(const KIND& kind, ArrayType layout, bool packed, std::vector<typename KIND::Type>& data, Bits& out,
        std::vector<uint64_t>& offsets)
{
    const bool aligned = layout == ArrayType::ALIGNED || layout == ArrayType::ALIGNED_AUTO;
    if (layout == ArrayType::AUTO || layout == ArrayType::ALIGNED_AUTO)
    {
        out.putVarSize(data.size());
    }
    std::map<int, RefContext> contexts;
    if (packed)
    {
        for (const auto& element : data)
        {
            for (const Item& item : kind.items(element, 0))
            {
                if (item.ctx < 0)
                {
                    continue;
                }
                Bits tmp;
                item.put(tmp);
                RefContext& c = contexts[item.ctx];
                c.unpackedBits += tmp.pos;
                if (c.count++ == 0)
                {
                    c.firstBits = tmp.pos;
                }
                else
                {
                    const __int128 delta = item.value - c.prev;
                    const unsigned bits = bitLength(static_cast<unsigned __int128>(delta < 0 ? -delta : delta));
                    if (bits > c.maxBits)
                    {
                        c.maxBits = bits;
                    }
                }
                c.prev = item.value;
            }
        }
        for (auto& entry : contexts)
        {
            RefContext& c = entry.second;
            const uint64_t deltaBits = c.maxBits ? c.maxBits + 1 : 0;
            c.packed = c.count > 1 && c.maxBits <= 62 &&
                    7 + c.firstBits + (c.count - 1) * deltaBits < 1 + c.unpackedBits;
        }
    }
    for (auto& element : data)
    {
        if (aligned)
        {
            out.alignTo(8);
            offsets.push_back(out.pos / 8);
        }
        for (const Item& item : kind.items(element, out.pos))
        {
            if (!packed || item.ctx < 0)
            {
                item.put(out);
                continue;
            }
            RefContext& c = contexts[item.ctx];
            if (!c.started)
            {
                c.started = true;
                out.put(c.packed ? 1 : 0, 1);
                if (c.packed)
                {
                    out.put(c.maxBits, 6);
                }
                item.put(out);
            }
            else if (!c.packed)
            {
                item.put(out);
            }
            else if (c.maxBits > 0)
            {
                out.put(static_cast<uint64_t>(item.value - c.prev), c.maxBits + 1);
            }
            c.prev = item.value;
        }
    }
}

struct Recorder
{
    std::vector<uint64_t>* offsets;
    std::vector<size_t>* indexes;
    void setOffset(size_t index, zserio::BitSize byteOffset) const
    {
        indexes->push_back(index);
        offsets->push_back(byteOffset);
    }
};

template <typename KIND, typename SPAN>
auto makeArray(const SPAN& span)
{
    using T = typename KIND::Type;
    if constexpr (is_dyn<T>::value)
    {
        return zserio::ArrayView<const T, typename KIND::Traits>(span, DynOwner());
    }
    else
    {
        return zserio::ArrayView<const T, typename KIND::Traits>(span);
    }
}

template <ArrayType LAYOUT, bool PACKED, typename KIND>
void checkArray(Ctx& ctx, const KIND& kind, const std::vector<typename KIND::Type>& values, size_t start,
        size_t maxPrealloc = 0)
{
    using T = typename KIND::Type;
    namespace zd = zserio::detail;
    const bool aligned = LAYOUT == ArrayType::ALIGNED || LAYOUT == ArrayType::ALIGNED_AUTO;
    zserio::Vector<T> data(values.begin(), values.end());
    const auto array = makeArray<KIND>(zserio::Span<const T>(data.data(), data.size()));

    // sizes and offsets in advance; offset fields inside the elements are initialised by this
    std::vector<uint64_t> setOffsets;
    std::vector<size_t> setIndexes;
    Recorder recorder{&setOffsets, &setIndexes};
    zserio::BitSize offsetSize = 0;
    zserio::BitSize size = 0;
    if constexpr (PACKED)
    {
        offsetSize = zd::initializeOffsetsPacked<LAYOUT>(array, static_cast<zserio::BitSize>(start), recorder);
        size = zd::bitSizeOfPacked<LAYOUT>(array, static_cast<zserio::BitSize>(start));
    }
    else
    {
        offsetSize = zd::initializeOffsets<LAYOUT>(array, static_cast<zserio::BitSize>(start), recorder);
        size = zd::bitSizeOf<LAYOUT>(array, static_cast<zserio::BitSize>(start));
    }

    Bits model;
    for (size_t i = 0; i < start; ++i)
    {
        model.putBit(true);
    }
    std::vector<uint64_t> offsets;
    std::vector<T> reference(data.begin(), data.end());
    encode(kind, LAYOUT, PACKED, reference, model, offsets);
    const size_t end = model.pos;

    MC_REQUIRE(ctx, size == end - start, "bit-size", "bit size ", size, " expected ", end - start);
    MC_REQUIRE(ctx, offsetSize == size, "offset-bit-size", "offset initialisation ", offsetSize, " bit size ", size);
    if (aligned)
    {
        MC_REQUIRE(ctx, setOffsets == offsets, "offsets", "offsets ", setOffsets.size(), " first ",
                setOffsets.empty() ? 0 : setOffsets.back(), " expected ", offsets.empty() ? 0 : offsets.back());
        for (size_t i = 0; i < setIndexes.size(); ++i)
        {
            MC_REQUIRE(ctx, setIndexes[i] == i, "offset-index", setIndexes[i]);
        }
    }

    // writing with a buffer and counting only
    std::vector<uint8_t> buffer((end + 7) / 8 + 2, 0xff);
    for (size_t i = 0; i < start; ++i)
    {
        buffer[i / 8] |= static_cast<uint8_t>(0x80U >> (i % 8));
    }
    std::fill(buffer.begin() + static_cast<ptrdiff_t>(start / 8), buffer.end(), 0);
    if (start % 8 != 0)
    {
        buffer[start / 8] = static_cast<uint8_t>(0xff00U >> (start % 8));
    }
    zserio::BitStreamWriter writer(buffer.data(), end, zserio::BitsTag());
    writer.setBitPosition(start);
    zserio::BitStreamWriter counter(nullptr, 0);
    counter.setBitPosition(start);
    if constexpr (PACKED)
    {
        zd::writePacked<LAYOUT>(writer, array);
        zd::writePacked<LAYOUT>(counter, array);
    }
    else
    {
        zd::write<LAYOUT>(writer, array);
        zd::write<LAYOUT>(counter, array);
    }
    MC_REQUIRE(ctx, writer.getBitPosition() == end, "written-size", "written to ", writer.getBitPosition(),
            " expected ", end);
    MC_REQUIRE(ctx, counter.getBitPosition() == end, "counted-size", "counted to ", counter.getBitPosition(),
            " expected ", end);
    Bits all = model;
    all.bits.resize(buffer.size() * 8, 0);
    MC_REQUIRE(ctx, all.bytes() == buffer, "encoded-bits", "bits ", mc::hex(buffer.data(), buffer.size()),
            " expected ", mc::hex(all.bytes().data(), buffer.size()));

    // reading back
    zserio::BitStreamReader reader(buffer.data(), end, zserio::BitsTag(),
            maxPrealloc != 0 ? zserio::ArrayPreallocation(maxPrealloc) : zserio::ArrayPreallocation());
    reader.setBitPosition(start);
    zserio::Vector<T> result;
    result.resize(2); // earlier contents must be replaced
    const size_t length = (LAYOUT == ArrayType::NORMAL || LAYOUT == ArrayType::ALIGNED) ? values.size() : 0;
    zd::array_owner_type_t<typename KIND::Traits> owner;
    if constexpr (PACKED)
    {
        zd::readPackedWithTraits<LAYOUT, typename KIND::Traits>(reader, result, owner, length);
    }
    else
    {
        zd::readWithTraits<LAYOUT, typename KIND::Traits>(reader, result, owner, length);
    }
    MC_REQUIRE(ctx, result.size() == data.size(), "read-length", "read ", result.size(), " elements of ",
            data.size());
    for (size_t i = 0; i < data.size(); ++i)
    {
        MC_REQUIRE(ctx, result[i] == data[i], "read-element", "element ", i, " of ", data.size(), " differs");
    }
    MC_REQUIRE(ctx, reader.getBitPosition() == end, "read-position", reader.getBitPosition(), " expected ", end);
    ctx.step(5);
}

// layouts of a kind: 0..3 normal, auto, aligned, aligned auto; 4 implicit, only for fixed size elements unpacked
template <bool PACKED, typename KIND>
bool checkLayout(Ctx& ctx, const KIND& kind, int layout, const std::vector<typename KIND::Type>& values, size_t start,
        size_t maxPrealloc)
{
    using T = typename KIND::Type;
    if constexpr (!PACKED || !is_float<T>::value)
    {
        switch (layout)
        {
        case 0:
            checkArray<ArrayType::NORMAL, PACKED>(ctx, kind, values, start, maxPrealloc);
            return true;
        case 1:
            checkArray<ArrayType::AUTO, PACKED>(ctx, kind, values, start, maxPrealloc);
            return true;
        case 2:
            checkArray<ArrayType::ALIGNED, PACKED>(ctx, kind, values, start, maxPrealloc);
            return true;
        case 3:
            checkArray<ArrayType::ALIGNED_AUTO, PACKED>(ctx, kind, values, start, maxPrealloc);
            return true;
        }
    }
    if constexpr (!PACKED &&
            std::is_base_of_v<zserio::detail::NumericArrayTraits<T>, typename KIND::Traits>)
    {
        if (layout == 4 && kind.fixedSize)
        {
            checkArray<ArrayType::IMPLICIT, PACKED>(ctx, kind, values, start, maxPrealloc);
            return true;
        }
    }
    return false;
}

// ---- kinds -------------------------------------------------------------------------------------------------

template <typename T>
Kind<T> intKind(const char* name, std::vector<typename T::ValueType> raw, unsigned bits)
{
    Kind<T> kind;
    kind.name = name;
    for (auto v : raw)
    {
        kind.values.push_back(T(v));
    }
    kind.items = [bits](const T& v, size_t) {
        const auto raw = static_cast<typename T::ValueType>(v);
        return std::vector<Item>{
                {0, static_cast<__int128>(raw), [raw, bits](Bits& b) { b.put(static_cast<uint64_t>(raw), bits); }}};
    };
    kind.fixedSize = true;
    return kind;
}

template <typename T>
Kind<T> varKind(const char* name, std::vector<typename T::ValueType> raw, unsigned maxBytes)
{
    Kind<T> kind;
    kind.name = name;
    for (auto v : raw)
    {
        kind.values.push_back(T(v));
    }
    kind.items = [maxBytes](const T& v, size_t) {
        const auto raw = static_cast<typename T::ValueType>(v);
        return std::vector<Item>{{0, static_cast<__int128>(raw), [raw, maxBytes](Bits& b) {
                                      if constexpr (std::is_signed_v<typename T::ValueType>)
                                      {
                                          b.putSignedVar(raw, maxBytes);
                                      }
                                      else
                                      {
                                          b.putVar(raw, false, false, maxBytes);
                                      }
                                  }}};
    };
    return kind;
}

template <typename T>
Kind<T, DynTraits<T>> dynKind(const char* name, std::vector<typename T::ValueType> raw)
{
    Kind<T, DynTraits<T>> kind;
    kind.name = name;
    for (auto v : raw)
    {
        kind.values.push_back(T(v));
    }
    kind.items = [](const T& v, size_t) {
        const auto raw = static_cast<typename T::ValueType>(v);
        const unsigned bits = DynOwner().numBits;
        return std::vector<Item>{
                {0, static_cast<__int128>(raw), [raw, bits](Bits& b) { b.put(static_cast<uint64_t>(raw), bits); }}};
    };
    return kind;
}

template <typename T>
Kind<T> rawKind(const char* name, std::vector<T> values, std::function<void(Bits&, const T&)> put)
{
    Kind<T> kind;
    kind.name = name;
    kind.values = std::move(values);
    kind.items = [put](const T& v, size_t) {
        const T* p = &v;
        return std::vector<Item>{{-1, 0, [put, p](Bits& b) { put(b, *p); }}};
    };
    return kind;
}

inline uint16_t halfBits(float value)
{
    // only values exactly representable as normal halves, and zero
    if (value == 0)
    {
        return std::signbit(value) ? 0x8000 : 0;
    }
    uint32_t raw;
    std::memcpy(&raw, &value, 4);
    return static_cast<uint16_t>(((raw >> 16) & 0x8000) | ((((raw >> 23) & 0xff) - 127 + 15) << 10) |
            ((raw >> 13) & 0x3ff));
}

inline std::vector<Item> innerItems(const Inner& v, int base)
{
    const uint64_t a = v.a;
    const int64_t b = v.b;
    return {{base, static_cast<__int128>(a), [a](Bits& o) { o.put(a, 16); }},
            {base + 1, static_cast<__int128>(b), [b](Bits& o) { o.put(static_cast<uint64_t>(b), 32); }}};
}

inline Kind<Inner> innerKind()
{
    Kind<Inner> kind;
    kind.name = "Inner";
    kind.values = {{1, -1}, {1, 100}, {0xffff, INT32_MIN}, {0, INT32_MAX}, {2, -1}};
    kind.items = [](const Inner& v, size_t) { return innerItems(v, 0); };
    return kind;
}

inline Kind<Outer> outerKind()
{
    Kind<Outer> kind;
    kind.name = "Outer";
    kind.values.push_back(Outer{1, "", std::nullopt, {5, 5}, 1.0f});
    kind.values.push_back(Outer{2, "a", zserio::Int8(-128), {6, 5}, -2.0f});
    kind.values.push_back(Outer{UINT64_MAX, "bc", zserio::Int8(127), {0, INT32_MIN}, 0.5f});
    kind.values.push_back(Outer{0, "", zserio::Int8(1), {65535, INT32_MAX}, 0.0f});
    kind.items = [](const Outer& v, size_t) {
        std::vector<Item> items;
        const uint64_t id = v.id;
        const Outer* p = &v;
        items.push_back({0, static_cast<__int128>(id), [id](Bits& o) { o.putVarUInt(id); }});
        items.push_back({-1, 0, [p](Bits& o) {
                             o.putString(std::string(p->name.data(), p->name.size()));
                             o.put(p->opt.has_value() ? 1 : 0, 1);
                         }});
        if (v.opt.has_value())
        {
            const int64_t raw = *v.opt;
            items.push_back({1, raw, [raw](Bits& o) { o.put(static_cast<uint64_t>(raw), 8); }});
        }
        for (Item& item : innerItems(v.inner, 2))
        {
            items.push_back(item);
        }
        const float ratio = v.ratio;
        items.push_back({-1, 0, [ratio](Bits& o) { o.putFloat32(ratio); }});
        return items;
    };
    return kind;
}

inline Kind<Offs> offsKind()
{
    Kind<Offs> kind;
    kind.name = "Offs";
    kind.values = {{0, 1, 1}, {77, 7, -64}, {0, 0, (1 << 28) - 1}, {0, 2, 1}};
    kind.items = [](const Offs& v, size_t) {
        std::vector<Item> items;
        const uint64_t lead = v.lead;
        const int64_t value = v.value;
        auto at = std::make_shared<size_t>(0);
        items.push_back({-1, 0, [at](Bits& o) {
                             *at = o.pos;
                             o.put(0, 32);
                         }});
        items.push_back({0, static_cast<__int128>(lead), [lead](Bits& o) { o.put(lead, 3); }});
        items.push_back({-1, 0, [at](Bits& o) {
                             o.alignTo(8);
                             const size_t pos = o.pos;
                             o.pos = *at;
                             o.put(pos / 8, 32); // the offset is the byte position of the value
                             o.pos = pos;
                         }});
        items.push_back({1, static_cast<__int128>(value), [value](Bits& o) { o.putVarInt32(value); }});
        return items;
    };
    return kind;
}

inline Kind<Plain> plainKind()
{
    return rawKind<Plain>("Plain", {{"", 1.0f}, {"xyz", -2.0f}, {"q", 0.0f}}, [](Bits& b, const Plain& v) {
        b.putString(std::string(v.text.data(), v.text.size()));
        b.put(halfBits(v.number), 16);
    });
}

inline Kind<zserio::BitBuffer> bitBufferKind()
{
    std::vector<zserio::BitBuffer> values;
    values.emplace_back();
    values.emplace_back(std::vector<uint8_t>{0xe0}, 3);
    values.emplace_back(std::vector<uint8_t>{0x12, 0x34}, 16);
    return rawKind<zserio::BitBuffer>("BitBuffer", values, [](Bits& b, const zserio::BitBuffer& v) {
        b.putBitBuffer(std::vector<uint8_t>(v.getBuffer(), v.getBuffer() + v.getByteSize()), v.getBitSize());
    });
}

template <typename KIND>
struct Erased : AnyKind
{
    explicit Erased(KIND k) : kind(std::move(k)) {}
    const char* name() const override { return kind.name; }
    uint32_t alphabet() const override { return static_cast<uint32_t>(kind.values.size()); }
    bool run(Ctx& ctx, int layout, const std::vector<uint32_t>& indexes, size_t start, size_t prealloc) const override
    {
        std::vector<typename KIND::Type> values;
        values.reserve(indexes.size());
        for (uint32_t i : indexes)
        {
            values.push_back(kind.values[i]);
        }
        return checkLayout<KIT_PACKED != 0>(ctx, kind, layout, values, start, prealloc);
    }
    bool runRaw(Ctx& ctx, int layout, const std::vector<__int128>& raw, size_t start) const override
    {
        if constexpr (zserio::is_numeric_wrapper_v<typename KIND::Type> && !is_float<typename KIND::Type>::value)
        {
            std::vector<typename KIND::Type> values;
            for (__int128 v : raw)
            {
                values.push_back(
                        typename KIND::Type(static_cast<typename KIND::Type::ValueType>(v)));
            }
            return checkLayout<KIT_PACKED != 0>(ctx, kind, layout, values, start, 0);
        }
        else
        {
            return false;
        }
    }
    KIND kind;
};

template <typename KIND>
AnyKind* erase(KIND kind)
{
    return new Erased<KIND>(std::move(kind));
}

inline Kind<zserio::Bool> boolKind()
{
    using zserio::Bool;
    Kind<Bool> kind;
    kind.name = "Bool";
    kind.values = {Bool(false), Bool(true)};
    kind.items = [](const Bool& v, size_t) {
        const bool raw = v;
        return std::vector<Item>{{0, raw ? 1 : 0, [raw](Bits& b) { b.put(raw ? 1 : 0, 1); }}};
    };
    kind.fixedSize = true;
    return kind;
}

namespace to = test_object::std_allocator;

inline Kind<to::CreatorEnum> enumKind()
{
    Kind<to::CreatorEnum> kind;
    kind.name = "Enum";
    kind.values = {to::CreatorEnum::ONE, to::CreatorEnum::TWO, to::CreatorEnum::MinusOne};
    kind.items = [](const to::CreatorEnum& v, size_t) {
        const int64_t raw = static_cast<int64_t>(v);
        return std::vector<Item>{{0, raw, [raw](Bits& b) { b.put(static_cast<uint64_t>(raw), 8); }}};
    };
    return kind;
}

inline Kind<to::CreatorBitmask> bitmaskKind()
{
    Kind<to::CreatorBitmask> kind;
    kind.name = "Bitmask";
    kind.values = {to::CreatorBitmask(), to::CreatorBitmask::Values::READ,
            to::CreatorBitmask::Values::READ | to::CreatorBitmask::Values::WRITE};
    kind.items = [](const to::CreatorBitmask& v, size_t) {
        const uint64_t raw = v.getValue();
        return std::vector<Item>{{0, static_cast<__int128>(raw), [raw](Bits& b) { b.put(raw, 8); }}};
    };
    return kind;
}

template <typename T>
Kind<T> floatKind(const char* name, std::vector<T> values, std::function<void(Bits&, const T&)> put)
{
    Kind<T> kind = rawKind<T>(name, values, put);
    kind.fixedSize = true;
    return kind;
}

inline Kind<zserio::Bytes> bytesKind()
{
    using zserio::Bytes;
    return rawKind<Bytes>("Bytes", {Bytes{}, Bytes{1}, Bytes{0xff, 0, 0x80}}, [](Bits& b, const Bytes& v) {
        b.putVarSize(v.size());
        for (auto byte : v)
        {
            b.put(static_cast<uint8_t>(byte), 8);
        }
    });
}

} // namespace kit

#endif
