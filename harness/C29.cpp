// C29: extended fields are compatible in both directions.
// mc: level=model_checking opt=1 variants=default,arch32
#include <array>
#include <optional>
#include <type_traits>

#include "access.h"
#include "bitmodel.h"
#include "mc.h"
#include "tracked.h"
#include "zserio/ArrayView.h"
#include "zserio/BitPositionUtil.h"
#include "zserio/DataView.h"
#include "zserio/Extended.h"
#include "zserio/ExtendedFieldException.h"
#include "zserio/GenericAccessor.h"
#include "zserio/Optional.h"
#include "zserio/SerializeUtil.h"
#include "zserio/String.h"
#include "zserio/Types.h"
#include "zserio/Vector.h"
#include "zserio/View.h"
#include "zserio/ppmr/String.h"

using mc::Ctx;
using mc::str;
using namespace zserio;

// ---------------------------------------------------------------- a schema that grew

// struct Grown { uint8 tail-less head:4; extended string text; extended optional uint16 number; extended uint8 list[];
// extended Inner inner; extended bit:3 flags; }, of which the schema version LEVEL knows the first LEVEL extended
// fields. Written as the generator's templates write it.
namespace grown
{

struct Inner
{
    using allocator_type = std::allocator<uint8_t>;
    Inner() = default;
    explicit Inner(const allocator_type&) {}
    Inner(const Inner&) = default;
    Inner(Inner&&) = default;
    Inner& operator=(const Inner&) = default;
    Inner& operator=(Inner&&) = default;
    Inner(const Inner& other, const allocator_type&) : a(other.a), b(other.b) {}
    Inner(Inner&& other, const allocator_type&) : a(other.a), b(other.b) {}
    UInt5 a;
    UInt16 b;
};
inline bool operator==(const Inner& l, const Inner& r)
{
    return l.a == r.a && l.b == r.b;
}
inline bool operator!=(const Inner& l, const Inner& r)
{
    return !(l == r);
}
inline bool operator<(const Inner& l, const Inner& r)
{
    return l.a != r.a ? l.a < r.a : l.b < r.b;
}
inline bool operator>(const Inner& l, const Inner& r)
{
    return r < l;
}

template <int LEVEL>
struct Grown
{
    using allocator_type = std::allocator<uint8_t>;
    Grown() : Grown(allocator_type{}) {}
    explicit Grown(const allocator_type& allocator) : head(), text(allocator), number(allocator), list(allocator), inner(allocator), flags() {}
    Grown(const Grown&) = default;
    Grown(Grown&&) = default;
    Grown& operator=(const Grown&) = default;
    Grown& operator=(Grown&&) = default;
    Grown(Grown&& o, const allocator_type& allocator) :
            head(o.head), text(std::move(o.text), allocator), number(std::move(o.number), allocator), list(std::move(o.list), allocator), inner(std::move(o.inner), allocator), flags(o.flags)
    {}
    Grown(const Grown& o, const allocator_type& allocator) :
            head(o.head), text(o.text, allocator), number(o.number, allocator), list(o.list, allocator), inner(o.inner, allocator), flags(o.flags)
    {}

    UInt4 head;
    Extended<String> text;
    Extended<Optional<UInt16>> number;
    Extended<Vector<UInt8>> list;
    Extended<Inner> inner;
    Extended<UInt3> flags;
};

} // namespace grown

namespace zserio
{

template <>
class View<grown::Inner>
{
public:
    explicit View(const grown::Inner& data) noexcept : m_data(&data) {}
    UInt5 a() const { return m_data->a; }
    UInt16 b() const { return m_data->b; }
    const grown::Inner& zserioData() const { return *m_data; }
    View(const grown::Inner& data, const View&) noexcept : m_data(&data) {}

private:
    const grown::Inner* m_data;
};
inline bool operator==(const View<grown::Inner>& l, const View<grown::Inner>& r)
{
    return l.a() == r.a() && l.b() == r.b();
}

template <int LEVEL>
class View<grown::Grown<LEVEL>>
{
public:
    explicit View(const grown::Grown<LEVEL>& data) noexcept : m_data(&data) {}
    View(const grown::Grown<LEVEL>& data, const View&) noexcept : m_data(&data) {}

    UInt4 head() const { return m_data->head; }
    Extended<std::string_view> text() const
    {
        if (m_data->text.isPresent())
        {
            return Extended<std::string_view>(*m_data->text);
        }
        auto text_ = Extended<std::string_view>(*m_data->text);
        text_.setPresent(false);
        return text_;
    }
    Extended<Optional<UInt16>> number() const
    {
        if (m_data->number.isPresent())
        {
            if (m_data->number->has_value())
            {
                return Extended<Optional<UInt16>>(std::in_place, m_data->number->get_allocator(), **m_data->number);
            }
            return Extended<Optional<UInt16>>(std::nullopt, m_data->number->get_allocator());
        }
        auto number_ = Extended<Optional<UInt16>>(std::nullopt, m_data->number->get_allocator());
        number_.setPresent(false);
        return number_;
    }
    Extended<ArrayView<const UInt8>> list() const
    {
        auto list_ = Extended<ArrayView<const UInt8>>(*m_data->list);
        list_.setPresent(m_data->list.isPresent());
        return list_;
    }
    Extended<View<grown::Inner>> inner() const
    {
        auto inner_ = Extended<View<grown::Inner>>(*m_data->inner);
        inner_.setPresent(m_data->inner.isPresent());
        return inner_;
    }
    Extended<UInt3> flags() const
    {
        auto flags_ = Extended<UInt3>(*m_data->flags);
        flags_.setPresent(m_data->flags.isPresent());
        return flags_;
    }
    const grown::Grown<LEVEL>& zserioData() const { return *m_data; }

private:
    const grown::Grown<LEVEL>* m_data;
};

namespace detail
{

template <>
struct ObjectTraits<grown::Inner>
{
    using Parameters = std::tuple<>;
    static void validate(const View<grown::Inner>& view, std::string_view)
    {
        detail::validate(view.a(), "'Inner.a'");
        detail::validate(view.b(), "'Inner.b'");
    }
    static BitSize bitSizeOf(const View<grown::Inner>& view, BitSize bitPosition)
    {
        BitSize end = bitPosition;
        end += detail::bitSizeOf(view.a(), end);
        end += detail::bitSizeOf(view.b(), end);
        return end - bitPosition;
    }
    static BitSize initializeOffsets(const View<grown::Inner>& view, BitSize bitPosition) { return bitSizeOf(view, bitPosition); }
    static void write(BitStreamWriter& writer, const View<grown::Inner>& view)
    {
        detail::write(writer, view.a());
        detail::write(writer, view.b());
    }
    static View<grown::Inner> read(BitStreamReader& reader, grown::Inner& data)
    {
        View<grown::Inner> view(data);
        detail::read(reader, data.a);
        detail::read(reader, data.b);
        return view;
    }
};

template <int LEVEL>
struct ObjectTraits<grown::Grown<LEVEL>>
{
    using Data = grown::Grown<LEVEL>;
    using Parameters = std::tuple<>;

    static void validate(const View<Data>& view, std::string_view)
    {
        detail::validate(view.head(), "'Grown.head'");
        uint32_t numExtendedFields = 0;
        const auto present = [&](uint32_t number, const char* name) {
            if (++numExtendedFields != number)
            {
                throw ExtendedFieldException("Some of preceding extended fields is not present before '") << name << "'!";
            }
        };
        if (LEVEL >= 1 && view.text().isPresent())
        {
            present(1, "Grown.text");
            detail::validate(*view.text(), "'Grown.text'");
        }
        if (LEVEL >= 2 && view.number().isPresent())
        {
            present(2, "Grown.number");
            if (view.number()->has_value())
            {
                detail::validate(**view.number(), "'Grown.number'");
            }
        }
        if (LEVEL >= 3 && view.list().isPresent())
        {
            present(3, "Grown.list");
            detail::validate<ArrayType::AUTO>(*view.list(), "'Grown.list'");
        }
        if (LEVEL >= 4 && view.inner().isPresent())
        {
            present(4, "Grown.inner");
            detail::validate(*view.inner(), "'Grown.inner'");
        }
        if (LEVEL >= 5 && view.flags().isPresent())
        {
            present(5, "Grown.flags");
            detail::validate(*view.flags(), "'Grown.flags'");
        }
    }
    static BitSize bitSizeOf(const View<Data>& view, BitSize bitPosition)
    {
        BitSize end = bitPosition;
        end += detail::bitSizeOf(view.head(), end);
        if (auto text_ = view.text(); LEVEL >= 1 && text_.isPresent())
        {
            end = alignTo(8, end);
            end += detail::bitSizeOf(*text_, end);
        }
        if (auto number_ = view.number(); LEVEL >= 2 && number_.isPresent())
        {
            end = alignTo(8, end);
            end += detail::bitSizeOf(Bool());
            if (number_->has_value())
            {
                end += detail::bitSizeOf(**number_, end);
            }
        }
        if (auto list_ = view.list(); LEVEL >= 3 && list_.isPresent())
        {
            end = alignTo(8, end);
            end += detail::bitSizeOf<ArrayType::AUTO>(*list_, end);
        }
        if (auto inner_ = view.inner(); LEVEL >= 4 && inner_.isPresent())
        {
            end = alignTo(8, end);
            end += detail::bitSizeOf(*inner_, end);
        }
        if (auto flags_ = view.flags(); LEVEL >= 5 && flags_.isPresent())
        {
            end = alignTo(8, end);
            end += detail::bitSizeOf(*flags_, end);
        }
        return end - bitPosition;
    }
    static BitSize initializeOffsets(const View<Data>& view, BitSize bitPosition) { return bitSizeOf(view, bitPosition); }
    static void write(BitStreamWriter& writer, const View<Data>& view)
    {
        detail::write(writer, view.head());
        if (auto text_ = view.text(); LEVEL >= 1 && text_.isPresent())
        {
            writer.alignTo(8);
            detail::write(writer, *text_);
        }
        if (auto number_ = view.number(); LEVEL >= 2 && number_.isPresent())
        {
            writer.alignTo(8);
            if (number_->has_value())
            {
                writer.writeBool(true);
                detail::write(writer, **number_);
            }
            else
            {
                writer.writeBool(false);
            }
        }
        if (auto list_ = view.list(); LEVEL >= 3 && list_.isPresent())
        {
            writer.alignTo(8);
            detail::write<ArrayType::AUTO>(writer, *list_);
        }
        if (auto inner_ = view.inner(); LEVEL >= 4 && inner_.isPresent())
        {
            writer.alignTo(8);
            detail::write(writer, *inner_);
        }
        if (auto flags_ = view.flags(); LEVEL >= 5 && flags_.isPresent())
        {
            writer.alignTo(8);
            detail::write(writer, *flags_);
        }
    }
    template <typename FIELD, typename READ>
    static void readField(BitStreamReader& reader, FIELD& field, const READ& readValue)
    {
        if (alignTo(8U, static_cast<BitSize>(reader.getBitPosition())) < reader.getBufferBitSize())
        {
            reader.alignTo(8);
            readValue();
        }
        else
        {
            field.setPresent(false);
        }
    }
    static View<Data> read(BitStreamReader& reader, Data& data)
    {
        View<Data> view(data);
        detail::read(reader, data.head);
        if (LEVEL >= 1)
        {
            readField(reader, data.text, [&] { detail::read(reader, *data.text); });
        }
        if (LEVEL >= 2)
        {
            readField(reader, data.number, [&] {
                if (reader.readBool())
                {
                    data.number->emplace();
                    detail::read(reader, **data.number);
                }
                else
                {
                    data.number->reset();
                }
            });
        }
        if (LEVEL >= 3)
        {
            readField(reader, data.list, [&] { detail::read<ArrayType::AUTO>(reader, *data.list); });
        }
        if (LEVEL >= 4)
        {
            readField(reader, data.inner, [&] { (void)detail::read(reader, *data.inner); });
        }
        if (LEVEL >= 5)
        {
            readField(reader, data.flags, [&] { detail::read(reader, *data.flags); });
        }
        return view;
    }
};

} // namespace detail
} // namespace zserio

namespace
{

// the value the model keeps: which extended fields are present and what they hold
struct Values
{
    uint32_t head = 0;
    std::string text;
    std::optional<uint32_t> number;
    std::vector<uint8_t> list;
    uint32_t a = 0;
    uint32_t b = 0;
    uint32_t flags = 0;
    std::array<bool, 5> present = {true, true, true, true, true};
};

Values chooseValues(Ctx& ctx, bool prefixOnly)
{
    Values v;
    v.head = ctx.choose(2) == 0 ? 0 : 15;
    static const std::vector<std::string> texts = {"", "x", std::string("\0y", 2), std::string(127, 'l'), std::string(128, 'L')};
    v.text = texts[ctx.choose(ctx.thorough() ? 5 : 4)];
    static const std::vector<int> numbers = {-1, 0, 0xffff, 0x1234};
    const int n = numbers[ctx.choose(ctx.thorough() ? 4 : 3)];
    v.number = n < 0 ? std::nullopt : std::optional<uint32_t>(static_cast<uint32_t>(n));
    static const std::vector<std::vector<uint8_t>> lists = {{}, {0}, {255, 0, 7}};
    v.list = lists[ctx.choose(3)];
    const uint32_t in = ctx.choose(2);
    v.a = in == 0 ? 0 : 31;
    v.b = in == 0 ? 0 : 0xa55a;
    v.flags = ctx.choose(2) == 0 ? 0 : 7;
    if (prefixOnly)
    {
        const uint32_t count = ctx.choose(6);
        for (uint32_t i = 0; i < 5; ++i)
        {
            v.present[i] = i < count;
        }
    }
    else
    {
        const uint32_t mask = ctx.choose(32);
        for (uint32_t i = 0; i < 5; ++i)
        {
            v.present[i] = (mask >> i & 1) != 0;
        }
    }
    return v;
}

template <int LEVEL>
grown::Grown<LEVEL> build(const Values& v)
{
    grown::Grown<LEVEL> g;
    g.head = UInt4(static_cast<uint8_t>(v.head));
    *g.text = String(v.text.data(), v.text.size());
    if (v.number)
    {
        *g.number = UInt16(static_cast<uint16_t>(*v.number));
    }
    g.list->assign(v.list.begin(), v.list.end());
    g.inner->a = UInt5(static_cast<uint8_t>(v.a));
    g.inner->b = UInt16(static_cast<uint16_t>(v.b));
    *g.flags = UInt3(static_cast<uint8_t>(v.flags));
    g.text.setPresent(v.present[0]);
    g.number.setPresent(v.present[1]);
    g.list.setPresent(v.present[2]);
    g.inner.setPresent(v.present[3]);
    g.flags.setPresent(v.present[4]);
    return g;
}

bm::Bits wire(const Values& v, int level)
{
    bm::Bits bits;
    bits.put(v.head, 4);
    for (int i = 0; i < level && v.present[static_cast<size_t>(i)]; ++i)
    {
        bits.alignTo(8);
        switch (i)
        {
        case 0:
            bits.putVar(v.text.size(), false, false, 5);
            bits.putBytes(v.text.data(), v.text.size());
            break;
        case 1:
            bits.putBit(v.number.has_value());
            if (v.number)
            {
                bits.put(*v.number, 16);
            }
            break;
        case 2:
            bits.putVar(v.list.size(), false, false, 5);
            bits.putBytes(v.list.data(), v.list.size());
            break;
        case 3:
            bits.put(v.a, 5);
            bits.put(v.b, 16);
            break;
        default:
            bits.put(v.flags, 3);
        }
    }
    return bits;
}

bool sameBytes(const bm::Bits& bits, const BitBuffer& buffer)
{
    const std::vector<uint8_t> bytes = bits.bytes();
    return buffer.getByteSize() == bytes.size() && std::equal(bytes.begin(), bytes.end(), buffer.getBuffer());
}

template <int LEVEL>
void expectFields(Ctx& ctx, const grown::Grown<LEVEL>& g, const Values& v, int known, const std::string& what)
{
    const std::array<bool, 5> present = {g.text.isPresent(), g.number.isPresent(), g.list.isPresent(), g.inner.isPresent(), g.flags.isPresent()};
    for (int i = 0; i < LEVEL; ++i)
    {
        const bool expected = i < known && v.present[static_cast<size_t>(i)];
        MC_REQUIRE(ctx, present[static_cast<size_t>(i)] == expected, "presence", what, ": extended field ", i, " is ", present[static_cast<size_t>(i)] ? "present" : "absent", " where it must not be");
    }
    MC_REQUIRE(ctx, g.head == v.head, "head", what, ": the field before the extended ones differs");
    if (LEVEL >= 1 && present[0])
    {
        MC_REQUIRE(ctx, g.text.value() == String(v.text.data(), v.text.size()), "text", what, ": text differs");
    }
    if (LEVEL >= 2 && present[1])
    {
        MC_REQUIRE(ctx, g.number->has_value() == v.number.has_value() && (!v.number || **g.number == *v.number), "number", what, ": number differs");
    }
    if (LEVEL >= 3 && present[2])
    {
        MC_REQUIRE(ctx, std::equal(g.list->begin(), g.list->end(), v.list.begin(), v.list.end()), "list", what, ": list differs");
    }
    if (LEVEL >= 4 && present[3])
    {
        MC_REQUIRE(ctx, g.inner->a == v.a && (*g.inner).b == v.b, "inner", what, ": compound differs");
    }
    if (LEVEL >= 5 && present[4])
    {
        MC_REQUIRE(ctx, *g.flags == v.flags, "flags", what, ": flags differ");
    }
}

template <int LEVEL>
void readAs(Ctx& ctx, const BitBuffer& buffer, const Values& v, int known)
{
    const std::string what = str("written with ", known, " extended fields, read with ", LEVEL);
    // into a fresh object, into one whose fields are present and into one whose fields are absent
    for (int fresh = 0; fresh < 2; ++fresh)
    {
        grown::Grown<LEVEL> g;
        if (fresh == 1)
        {
            Values other;
            other.text = "old";
            other.number = 77;
            other.list = {1, 2};
            g = build<LEVEL>(other);
        }
        const View<grown::Grown<LEVEL>> view = deserialize(buffer, g);
        ctx.step();
        expectFields(ctx, g, v, known, what);
        MC_REQUIRE(ctx, view.text().isPresent() == g.text.isPresent() && view.number().isPresent() == g.number.isPresent() && view.list().isPresent() == g.list.isPresent(), "view", what,
                ": the view and the data disagree");
        // what was read is written again as this version writes it
        const BitBuffer again = serialize(view);
        Values cut = v;
        for (int i = known; i < 5; ++i)
        {
            cut.present[static_cast<size_t>(i)] = false;
        }
        const bm::Bits bits = wire(cut, LEVEL);
        MC_REQUIRE(ctx, again.getBitSize() == bits.bits.size() && sameBytes(bits, again), "written-again", what,
                ": written again as ", mc::hex(again.getBuffer(), again.getByteSize()), " instead of ", mc::hex(bits.bytes().data(), bits.bytes().size()));
        // copies carry presence and value
        const grown::Grown<LEVEL> copy(g, std::allocator<uint8_t>());
        expectFields(ctx, copy, v, known, what + ", copied with allocator");
        grown::Grown<LEVEL> moved(std::move(g), std::allocator<uint8_t>());
        expectFields(ctx, moved, v, known, what + ", moved with allocator");
        grown::Grown<LEVEL> assigned;
        assigned = copy;
        expectFields(ctx, assigned, v, known, what + ", assigned");
        assigned = std::move(moved);
        expectFields(ctx, assigned, v, known, what + ", move-assigned");
    }
    // reading into a data view
    const DataView<grown::Grown<LEVEL>> dataView = deserialize<grown::Grown<LEVEL>>(buffer);
    expectFields(ctx, dataView.zserioData(), v, known, what + ", as data view");
    ctx.cases(2);
}

template <int LEVEL>
void writeAs(Ctx& ctx, const Values& v)
{
    const grown::Grown<LEVEL> g = build<LEVEL>(v);
    const BitBuffer buffer = serialize(g);
    ctx.step();
    const bm::Bits bits = wire(v, LEVEL);
    MC_REQUIRE(ctx, buffer.getBitSize() == bits.bits.size() && sameBytes(bits, buffer), "written", "written with ", LEVEL,
            " extended fields as ", buffer.getBitSize(), " bits ", mc::hex(buffer.getBuffer(), buffer.getByteSize()), " instead of ", bits.bits.size(), " bits ",
            mc::hex(bits.bytes().data(), bits.bytes().size()));
    readAs<0>(ctx, buffer, v, LEVEL);
    readAs<1>(ctx, buffer, v, LEVEL);
    readAs<2>(ctx, buffer, v, LEVEL);
    readAs<3>(ctx, buffer, v, LEVEL);
    readAs<4>(ctx, buffer, v, LEVEL);
    readAs<5>(ctx, buffer, v, LEVEL);
    // the last fields end the bytes: a whole number of bytes makes at most padding, no field
    const Vector<uint8_t> bytes = serializeToBytes(g);
    grown::Grown<5> read;
    const View<grown::Grown<5>> view = deserializeFromBytes(bytes, read);
    (void)view;
    expectFields(ctx, read, v, LEVEL, str("written with ", LEVEL, " extended fields to bytes, read with 5"));
}

void versions(Ctx& ctx)
{
    const Values v = chooseValues(ctx, true);
    ctx.note(str("text of ", v.text.size(), " bytes, ", v.list.size(), " elements, presence ", v.present[0], v.present[1], v.present[2], v.present[3], v.present[4]));
    writeAs<0>(ctx, v);
    writeAs<1>(ctx, v);
    writeAs<2>(ctx, v);
    writeAs<3>(ctx, v);
    writeAs<4>(ctx, v);
    writeAs<5>(ctx, v);
    ctx.state(str(v.present[0], v.present[1], v.present[2], v.present[3], v.present[4], v.text.size(), v.list.size(), v.number.has_value()));
    if (ctx.wantSample())
    {
        ctx.sample(str("text of ", v.text.size(), " bytes, list of ", v.list.size(), ", written and read by all 36 pairs of schema versions"));
    }
}

// objects whose present fields do not form a beginning are refused before anything is written
void gaps(Ctx& ctx)
{
    const Values v = chooseValues(ctx, false);
    const grown::Grown<5> g = build<5>(v);
    bool prefix = true;
    bool ended = false;
    for (const bool present : v.present)
    {
        prefix = prefix && !(present && ended);
        ended = ended || !present;
    }
    std::string result = "written";
    try
    {
        (void)serialize(g);
    }
    catch (const ExtendedFieldException& e)
    {
        result = "refused";
        MC_REQUIRE(ctx, std::string(e.what()).find("Some of preceding extended fields is not present before 'Grown.") == 0, "message", "message is '", e.what(), "'");
        // it is caught as what it is
        const ExtendedFieldException copy(e);
        MC_REQUIRE(ctx, std::string(copy.what()) == e.what(), "message-copy", "a copy of the exception says '", copy.what(), "'");
        const ValidationException& base = e;
        MC_REQUIRE(ctx, dynamic_cast<const CppRuntimeException*>(&base) != nullptr && dynamic_cast<const std::exception*>(&base) != nullptr, "hierarchy", "not a runtime exception");
    }
    ctx.step();
    MC_REQUIRE(ctx, (result == "written") == prefix, "gap", "presence ", v.present[0], v.present[1], v.present[2], v.present[3], v.present[4], " is ", result);
}

// data cut anywhere: what is whole is read, or the library's exception
void cut(Ctx& ctx)
{
    const Values v = chooseValues(ctx, true);
    const bm::Bits bits = wire(v, 5);
    const std::vector<uint8_t> bytes = bits.bytes();
    // ends of the fields, in bits
    std::vector<size_t> ends;
    for (int i = 0; i <= 5; ++i)
    {
        ends.push_back(wire(v, i).bits.size());
    }
    size_t cutAt = 0;
    const std::vector<size_t> candidates = [&] {
        std::vector<size_t> out;
        for (const size_t end : ends)
        {
            for (int d = -9; d <= 9; ++d)
            {
                const int64_t at = static_cast<int64_t>(end) + d;
                if (at >= 0 && at <= static_cast<int64_t>(bits.bits.size()))
                {
                    out.push_back(static_cast<size_t>(at));
                }
            }
        }
        return out;
    }();
    for (const size_t at : candidates)
    {
        cutAt = at;
        ctx.cases();
        grown::Grown<5> g;
        const BitBuffer buffer(Span<const uint8_t>(bytes.data(), (at + 7) / 8), at);
        bool threw = false;
        try
        {
            (void)deserialize(buffer, g);
        }
        catch (const CppRuntimeException&)
        {
            threw = true;
        }
        // the number of fields that are whole; a started one makes an exception unless only padding remains
        size_t whole = 0;
        bool broken = at < 4;
        for (size_t i = 1; i <= 5 && !broken && whole == i - 1; ++i)
        {
            const size_t begin = (ends[i - 1] + 7) / 8 * 8;
            if (at <= begin || !v.present[i - 1])
            {
                break;
            }
            broken = at < ends[i];
            whole = i;
        }
        MC_REQUIRE(ctx, threw == broken, "cut", "cut to ", cutAt, " of ", bits.bits.size(), " bits: ", threw ? "refused" : "read");
        if (!threw)
        {
            Values expected = v;
            for (size_t i = whole; i < 5; ++i)
            {
                expected.present[i] = false;
            }
            expectFields(ctx, g, expected, 5, str("cut to ", cutAt, " bits"));
        }
    }
    ctx.step();
}

// ---------------------------------------------------------------- the wrapper itself

// values in an arena: which one tells whether the allocator reached the value
template <typename T>
struct Kit;

using PmrString = ppmr::String;

template <>
struct Kit<PmrString>
{
    static PmrString make(int v, int arena)
    {
        return PmrString(v == 0 ? size_t(0) : static_cast<size_t>(20 + v), static_cast<char>('a' + v),
                ppmr::PropagatingPolymorphicAllocator<char>(&tr::arena(arena)));
    }
    static int arenaOf(const PmrString& s) { return static_cast<tr::Arena*>(s.get_allocator().resource())->id(); }
    static constexpr bool known(const std::string&) { return true; }
};

using Tracked = tr::Value<1, 12, true>;

struct Model
{
    bool alive = false;
    bool present = true;
    int value = 0;
    bool unspecified = false; // moved from
    int arena = 0;
};

// every sequence of operations on three extended values
void history(Ctx& ctx)
{
    using E = Extended<PmrString>;
    using K = Kit<PmrString>;
    using A = ppmr::PropagatingPolymorphicAllocator<char>;
    tr::st() = tr::State();
    std::pmr::set_default_resource(&tr::arena(0));
    const uint32_t depth = ctx.thorough() ? 5 : 4;
    {
        std::optional<E> slots[2];
        Model models[2];
        const auto make = [&](size_t i, int value, int arena) {
            slots[i].emplace(K::make(value, arena));
            models[i] = {true, true, value, false, arena};
        };
        make(0, 1, 1);
        make(1, 2, 2);
        slots[1]->setPresent(ctx.flip());
        models[1].present = slots[1]->isPresent();
        std::string trace;
        for (uint32_t i = 0; i < depth; ++i)
        {
            const uint32_t op = ctx.choose(14);
            const size_t to = ctx.choose(2);
            const size_t from = 1 - to;
            E& x = *slots[to];
            E& y = *slots[from];
            Model& mx = models[to];
            Model& my = models[from];
            trace += str(" ", op, to == 0 ? "a" : "b");
            ctx.note("operations" + trace);
            ctx.step();
            const A second(&tr::arena(2));
            switch (op)
            {
            case 0:
                x.setPresent(true);
                mx.present = true;
                break;
            case 1:
                x.setPresent(false);
                mx.present = false;
                break;
            case 2:
                *x = K::make(3, 1);
                mx.value = 3;
                mx.unspecified = false;
                mx.arena = 1;
                break;
            case 3:
                x->assign(30, 'e');
                mx.value = 10 + 0;
                mx.unspecified = false;
                // 30 = 20 + 10; the model's own value
                break;
            case 4:
                x = y;
                mx = my;
                break;
            case 5:
                x = std::move(y);
                mx = my;
                my.unspecified = true;
                break;
            case 6: {
                E copy(y);
                slots[to].emplace(std::move(copy));
                mx = my;
                break;
            }
            case 7: {
                E copy(y, second);
                MC_REQUIRE(ctx, K::arenaOf(*copy) == 2, "copy-allocator", "a copy with an allocator does not use it");
                slots[to].emplace(std::move(copy));
                mx = my;
                mx.arena = 2;
                break;
            }
            case 8: {
                E moved(std::move(y), second);
                MC_REQUIRE(ctx, K::arenaOf(*moved) == 2, "move-allocator", "a move with an allocator does not use it");
                slots[to].emplace(std::move(moved));
                mx = my;
                mx.arena = 2;
                my.unspecified = true;
                break;
            }
            case 9:
                slots[to].emplace(size_t(25), 'f', second);
                mx = {true, true, 5, false, 2};
                break;
            case 10:
                slots[to].emplace();
                mx = {true, true, 0, false, 0};
                mx.arena = K::arenaOf(**slots[to]);
                break;
            case 11:
                slots[to].emplace(second);
                mx = {true, true, 0, false, 2};
                break;
            case 12:
                std::swap(x, y);
                std::swap(mx, my);
                break;
            default:
                x = static_cast<const E&>(x); // with itself
                break;
            }
            for (size_t s = 0; s < 2; ++s)
            {
                const E& e = *slots[s];
                const Model& m = models[s];
                MC_REQUIRE(ctx, e.isPresent() == m.present && static_cast<bool>(e) == m.present, "present", "after", trace, ": value ", s, " is ", e.isPresent() ? "present" : "absent");
                if (!m.unspecified)
                {
                    const std::string expected = m.value == 0 ? "" : m.value == 10 ? std::string(30, 'e') : std::string(static_cast<size_t>(20 + m.value), static_cast<char>('a' + m.value));
                    MC_REQUIRE(ctx, std::string(e.value()) == expected && std::string(*e) == expected && e->size() == expected.size(), "value", "after", trace, ": value ", s, " is '", *e,
                            "' instead of '", expected, "'");
                    MC_REQUIRE(ctx, K::arenaOf(*e) == m.arena, "arena", "after", trace, ": value ", s, " is in arena ", K::arenaOf(*e), " instead of ", m.arena);
                }
                MC_REQUIRE(ctx, &e.value() == &*e && &e.value() == e.operator->() && &slots[s]->value() == &**slots[s] && slots[s]->operator->() == &e.value(), "accessors",
                        "the accessors give different objects");
                MC_REQUIRE(ctx, &genericAccessor(e) == &e.value() && &genericAccessor(*slots[s]) == &e.value(), "generic-accessor", "the generic accessor gives a different object");
            }
            // comparison and hash see presence and, when present, the value
            const E& a = *slots[0];
            const E& b = *slots[1];
            if (!models[0].unspecified && !models[1].unspecified)
            {
                const int order = !a.isPresent() || !b.isPresent() ? int(a.isPresent()) - int(b.isPresent()) : a->compare(*b) < 0 ? -1 : a->compare(*b) > 0;
                MC_REQUIRE(ctx, (a == b) == (order == 0) && (a != b) == (order != 0) && (a < b) == (order < 0) && (a > b) == (order > 0) && (a <= b) == (order <= 0) && (a >= b) == (order >= 0),
                        "compare", "after", trace, ": comparison differs from presence first, then value");
                MC_REQUIRE(ctx, order != 0 || (calcHashCode(HASH_SEED, a) == calcHashCode(HASH_SEED, b) && std::hash<E>()(a) == std::hash<E>()(b)), "hash", "after", trace,
                        ": equal values have different hash codes");
                MC_REQUIRE(ctx, a.isPresent() ? calcHashCode(7, a) == calcHashCode(7, *a) : calcHashCode(7, a) == 7, "hash-value", "after", trace, ": the hash code is not that of the present value");
            }
            ctx.state(str(models[0].present, models[0].value, models[0].unspecified, models[0].arena, "/", models[1].present, models[1].value, models[1].unspecified, models[1].arena));
        }
        if (ctx.wantSample())
        {
            ctx.sample("operations" + trace);
        }
    }
    MC_REQUIRE(ctx, tr::st().error.empty(), "accounting", tr::st().error);
    for (int i = 0; i < 3; ++i)
    {
        MC_REQUIRE(ctx, tr::arena(i).liveBlocks() == 0, "leak", "arena ", i, " has ", tr::arena(i).liveBlocks(), " blocks left");
        tr::arena(i).clear();
    }
}

// every sequence of operations with the value's own operations failing at every point
void faults(Ctx& ctx)
{
    using E = Extended<Tracked>;
    tr::st() = tr::State();
    const uint32_t depth = ctx.thorough() ? 4 : 3;
    {
        E a(1);
        E b(2);
        int va = 1;
        int vb = 2;
        b.setPresent(ctx.flip());
        a.setPresent(ctx.flip());
        std::string trace;
        for (uint32_t i = 0; i < depth; ++i)
        {
            const uint32_t op = ctx.choose(6);
            const uint32_t at = ctx.choose(4);
            trace += str(" ", op, "/", at);
            ctx.note("operations" + trace);
            const bool pa = a.isPresent();
            const bool pb = b.isPresent();
            tr::st().fired = false;
            tr::st().countdown = at;
            bool threw = false;
            try
            {
                switch (op)
                {
                case 0:
                    a = b;
                    break;
                case 1:
                    a = std::move(b);
                    break;
                case 2: {
                    E c(b);
                    MC_REQUIRE(ctx, c.isPresent() == b.isPresent() && c.value().get() == b.value().get(), "copy", "after", trace, ": a copy differs");
                    break;
                }
                case 3: {
                    E c(std::move(b));
                    MC_REQUIRE(ctx, c.isPresent() == pb && c.value().get() == vb && b.isPresent() == pb, "move", "after", trace, ": a moved value differs");
                    tr::st().countdown = 0;
                    b = std::move(c);
                    break;
                }
                case 4: {
                    E c(9);
                    MC_REQUIRE(ctx, c.isPresent() && c.value().get() == 9, "in-place", "after", trace, ": an in-place value differs");
                    break;
                }
                default: {
                    const Tracked value(4);
                    E c(value);
                    MC_REQUIRE(ctx, c.isPresent() && c->get() == 4, "from-value", "after", trace, ": a value differs");
                    break;
                }
                }
            }
            catch (const tr::Fault&)
            {
                threw = true;
            }
            tr::st().countdown = 0;
            ctx.step();
            MC_REQUIRE(ctx, threw == tr::st().fired, "swallowed", "after", trace, ": the failure of the value's operation was lost");
            if (!threw && op == 0)
            {
                va = vb;
                MC_REQUIRE(ctx, a.isPresent() == pb && a->get() == vb && b.isPresent() == pb && b->get() == vb, "assign", "after", trace, ": assigned value differs");
            }
            else if (!threw && op == 1)
            {
                va = vb;
                vb = tr::MOVED;
                MC_REQUIRE(ctx, a.isPresent() == pb && a->get() == va, "move-assign", "after", trace, ": move-assigned value differs");
            }
            else if (threw)
            {
                // the values themselves are untouched by a failing operation
                MC_REQUIRE(ctx, a->get() == va && (b->get() == vb) && b.isPresent() == pb, "after-failure", "after", trace, ": values changed although the operation failed");
            }
            else
            {
                MC_REQUIRE(ctx, a.isPresent() == pa && b.isPresent() == pb, "untouched", "after", trace, ": presence changed");
            }
            MC_REQUIRE(ctx, tr::st().live.size() == 2, "live", "after", trace, ": ", tr::st().live.size(), " values alive instead of 2");
            vb = b->get();
            va = a->get();
            ctx.state(str(a.isPresent(), va, b.isPresent(), vb, threw));
        }
    }
    MC_REQUIRE(ctx, tr::st().error.empty(), "accounting", tr::st().error);
    MC_REQUIRE(ctx, tr::st().live.empty(), "leak", tr::st().live.size(), " values were never destroyed");
}

// ---------------------------------------------------------------- what it can be made from

static_assert(!std::is_convertible_v<Extended<UInt8>, bool>, "presence is no implicit truth value");
static_assert(std::is_nothrow_move_constructible_v<Extended<UInt8>>, "moves");
static_assert(!std::is_constructible_v<Extended<UInt8>, String>, "no value from an unrelated one");

void access(Ctx& ctx)
{
    const uint32_t kind = ctx.choose(6);
    const bool present = ctx.flip();
    ctx.step();
    switch (kind)
    {
    case 0: { // optional inside, with and without a value
        for (int v = -1; v < 2; ++v)
        {
            Extended<Optional<UInt8>> e = v < 0 ? Extended<Optional<UInt8>>(std::nullopt) : Extended<Optional<UInt8>>(UInt8(static_cast<uint8_t>(v)));
            MC_REQUIRE(ctx, e.isPresent(), "default-present", "a new extended value is absent");
            e.setPresent(present);
            bool threw = false;
            int got = -1;
            try
            {
                got = genericAccessor(e);
                const Extended<Optional<UInt8>>& constant = e;
                MC_REQUIRE(ctx, genericAccessor(constant) == got, "accessor", "the constant accessor gives another value");
            }
            catch (const CppRuntimeException&)
            {
                threw = true;
            }
            MC_REQUIRE(ctx, threw == (v < 0) && got == v, "optional-accessor", "access to an extended optional gives ", got, threw ? ", an exception" : "", " instead of ", v);
        }
        break;
    }
    case 1: { // writing through the accessor
        Extended<Optional<UInt8>> e(UInt8(3));
        e.setPresent(present);
        genericAccessor(e) = UInt8(4);
        MC_REQUIRE(ctx, **e == 4 && e.isPresent() == present, "accessor-write", "a write through the accessor is lost");
        Extended<UInt16> s(UInt16(3));
        s.setPresent(present);
        genericAccessor(s) = UInt16(9);
        detail::setGenericOffset(genericAccessor(s), size_t(513));
        MC_REQUIRE(ctx, *s == 513 && s.isPresent() == present, "offset-write", "an offset written through the accessor is ", *s);
        break;
    }
    case 2: { // constructed with an allocator as the generated templates do
        const std::allocator<uint8_t> allocator;
        const auto s = constructWithAllocator<Extended<String>>(allocator);
        const auto n = constructWithAllocator<Extended<UInt8>>(allocator);
        const auto o = constructWithAllocator<Extended<Optional<String>>>(allocator);
        const auto v = constructWithAllocator<Extended<Vector<UInt8>>>(allocator);
        MC_REQUIRE(ctx, s.isPresent() && s->empty() && n.isPresent() && *n == 0 && o.isPresent() && !o->has_value() && v.isPresent() && v->empty(), "construct", "constructed values differ");
        break;
    }
    case 3: { // offsets referenced through extended fields
        MC_REQUIRE(ctx, detail::needs_offset_reference_v<Extended<UInt32>> && detail::needs_offset_reference_v<Extended<Optional<UInt32>>> && !detail::needs_offset_reference_v<Extended<View<grown::Inner>>>,
                "offset-reference", "wrong kind of offset reference");
        break;
    }
    case 4: { // hash in a chain: absent ones leave the seed alone
        Extended<UInt32> e(UInt32(0));
        e.setPresent(present);
        const Extended<UInt32> other(UInt32(1));
        const uint32_t chained = calcHashCode(calcHashCode(HASH_SEED, e), other);
        const uint32_t expected = calcHashCode(present ? calcHashCode(HASH_SEED, UInt32(0)) : HASH_SEED, UInt32(1));
        MC_REQUIRE(ctx, chained == expected, "hash-chain", "chained hash code differs");
        break;
    }
    default: { // copies of every presence through temporaries and containers
        std::vector<Extended<String>> values;
        for (int i = 0; i < 9; ++i)
        {
            values.emplace_back(String(static_cast<size_t>(i * 5), 'q'));
            values.back().setPresent(i % 2 == (present ? 0 : 1));
        }
        for (int i = 0; i < 9; ++i)
        {
            MC_REQUIRE(ctx, values[static_cast<size_t>(i)].isPresent() == (i % 2 == (present ? 0 : 1)) && values[static_cast<size_t>(i)]->size() == static_cast<size_t>(i * 5), "container",
                    "element ", i, " of a grown container differs");
        }
        break;
    }
    }
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {
                    {"versions", versions, 3},
                    {"gaps", gaps, 3},
                    {"cut", cut, 3},
                    {"history", history, 3},
                    {"faults", faults, 2},
                    {"access", access, 1},
            });
}
