// included once per allocator flavour with OBJ_NS defined; see objects.h
#ifndef OBJ_HEADERS
#define OBJ_STR2(x) #x
#define OBJ_STR(x) OBJ_STR2(x)
#define OBJ_HEADER(file) OBJ_STR(test_object/OBJ_NS/file)
#define OBJ_HEADERS
#endif
#include OBJ_HEADER(CreatorObject.h)
#include OBJ_HEADER(CreatorUnsignedEnum.h)
#include OBJ_HEADER(ReflectableObject.h)
#include OBJ_HEADER(ReflectableBitmask.h)
#include OBJ_HEADER(ReflectableUtilUnion.h)
#include OBJ_HEADER(WalkerObject.h)
#include OBJ_HEADER(WalkerBitmask.h)
#include OBJ_HEADER(DebugStringParamObject.h)
#include OBJ_HEADER(DebugStringObject.h)

namespace obj
{
namespace OBJ_NS
{

namespace to = ::test_object::OBJ_NS;
using Alloc = to::CreatorObject::allocator_type;

using StringT = decltype(to::CreatorNested::text);
using BytesT = decltype(to::CreatorNested::bytesData);
using BitBufferT = decltype(to::CreatorNested::externData);

inline StringT text(const std::string& s, const Alloc& a)
{
    return StringT(s.data(), s.size(), a);
}
inline BytesT bytes(const std::string& s, const Alloc& a)
{
    return BytesT(s.begin(), s.end(), a);
}
inline BitBufferT bitBuffer(const std::string& s, size_t bits, const Alloc& a)
{
    return BitBufferT(zserio::Span<const uint8_t>(reinterpret_cast<const uint8_t*>(s.data()), (bits + 7) / 8), bits, a);
}

// ---------------------------------------------------------------- encodings

inline void encode(Bits& b, const to::CreatorNested& o)
{
    b.put(o.value, 32);
    b.putString(std::string(o.text.data(), o.text.size()));
    const auto data = o.externData.getData();
    b.putBitBuffer(std::vector<uint8_t>(data.begin(), data.end()), o.externData.getBitSize());
    b.putVarSize(o.bytesData.size());
    b.putBytes(o.bytesData.data(), o.bytesData.size());
    b.put(static_cast<uint64_t>(static_cast<int64_t>(o.creatorEnum)), 8);
    b.put(o.creatorBitmask.getValue(), 8);
}
inline void encode(Bits& b, const to::CreatorObject& o)
{
    b.put(o.value, 32);
    encode(b, o.nested);
    b.putString(std::string(o.text.data(), o.text.size()));
    b.putVarSize(o.nestedArray.size());
    for (const auto& e : o.nestedArray)
    {
        encode(b, e);
    }
    b.putVarSize(o.textArray.size());
    for (const auto& e : o.textArray)
    {
        b.putString(std::string(e.data(), e.size()));
    }
    b.putBit(o.externArray.has_value());
    if (o.externArray.has_value())
    {
        b.putVarSize(o.externArray->size());
        for (const auto& e : *o.externArray)
        {
            const auto data = e.getData();
            b.putBitBuffer(std::vector<uint8_t>(data.begin(), data.end()), e.getBitSize());
        }
    }
    b.putBit(o.bytesArray.has_value());
    if (o.bytesArray.has_value())
    {
        b.putVarSize(o.bytesArray->size());
        for (const auto& e : *o.bytesArray)
        {
            b.putVarSize(e.size());
            b.putBytes(e.data(), e.size());
        }
    }
    b.putBit(o.optionalBool.has_value());
    if (o.optionalBool.has_value())
    {
        b.putBit(*o.optionalBool);
    }
    b.putBit(o.optionalNested.has_value());
    if (o.optionalNested.has_value())
    {
        encode(b, *o.optionalNested);
    }
}
inline void encode(Bits& b, const to::WalkerUnion& o)
{
    b.putVarSize(o.index() - 1);
    switch (o.index())
    {
    case to::WalkerUnion::Tag::value:
        b.put(o.get<to::WalkerUnion::Tag::value>(), 32);
        break;
    case to::WalkerUnion::Tag::text:
        b.putString(std::string(std::string_view(o.get<to::WalkerUnion::Tag::text>())));
        break;
    default:
        b.putVarSize(o.get<to::WalkerUnion::Tag::nestedArray>().size());
        for (const auto& e : o.get<to::WalkerUnion::Tag::nestedArray>())
        {
            b.putString(std::string(std::string_view(e.text)));
        }
        break;
    }
}
inline void encode(Bits& b, const to::WalkerObject& o)
{
    b.put(o.identifier, 32);
    if (o.nested.has_value())
    {
        b.putString(std::string(std::string_view(o.nested->text)));
    }
    b.putString(std::string(std::string_view(o.text)));
    b.putVarSize(o.unionArray.size());
    for (const auto& e : o.unionArray)
    {
        encode(b, e);
    }
    b.putBit(o.optionalUnionArray.has_value());
    if (o.optionalUnionArray.has_value())
    {
        b.putVarSize(o.optionalUnionArray->size());
        for (const auto& e : *o.optionalUnionArray)
        {
            encode(b, e);
        }
    }
    b.put(o.choiceSelector, 8);
    using Tag = to::WalkerChoice::Tag;
    switch (o.choiceField.index())
    {
    case Tag::value8:
        b.put(o.choiceField.get<Tag::value8>(), 8);
        break;
    case Tag::value16:
        b.put(o.choiceField.get<Tag::value16>(), 16);
        break;
    case Tag::value32:
        b.put(o.choiceField.get<Tag::value32>(), 32);
        break;
    case Tag::value64:
        b.put(o.choiceField.get<Tag::value64>(), 64);
        break;
    default:
        break;
    }
}
inline void encode(Bits& b, const to::ReflectableObject& o)
{
    b.putString(std::string(std::string_view(o.stringField)));
    b.put(o.reflectableNested.value, 31);
    b.put(static_cast<uint64_t>(static_cast<int64_t>(o.reflectableEnum)), 8);
    if (o.reflectableChoice.index() == to::ReflectableChoice::Tag::valueStr)
    {
        b.putString(std::string(std::string_view(o.reflectableChoice.get<to::ReflectableChoice::Tag::valueStr>())));
    }
    else if (o.reflectableChoice.index() == to::ReflectableChoice::Tag::value32)
    {
        b.put(o.reflectableChoice.get<to::ReflectableChoice::Tag::value32>(), 32);
    }
    b.putVarSize(o.reflectableUnion.index() - 1);
    if (o.reflectableUnion.index() == to::ReflectableUnion::Tag::value32)
    {
        b.put(o.reflectableUnion.get<to::ReflectableUnion::Tag::value32>(), 32);
    }
    else
    {
        b.putString(std::string(std::string_view(o.reflectableUnion.get<to::ReflectableUnion::Tag::valueStr>())));
    }
}
inline void encode(Bits& b, const to::ReflectableUtilUnion& o)
{
    using Tag = to::ReflectableUtilUnion::Tag;
    b.putVarSize(o.index() - 1);
    if (o.index() == Tag::reflectableUtilEnum)
    {
        b.put(static_cast<uint64_t>(static_cast<int64_t>(o.get<Tag::reflectableUtilEnum>())), 8);
    }
    else if (o.index() == Tag::reflectableUtilBitmask)
    {
        b.put(o.get<Tag::reflectableUtilBitmask>().getValue(), 8);
    }
    else
    {
        const auto& u = o.get<Tag::reflectableUtilObject>();
        b.put(u.choiceParam, 8);
        if (u.reflectableUtilChoice.index() == to::ReflectableUtilChoice::Tag::array)
        {
            const auto& array = u.reflectableUtilChoice.get<to::ReflectableUtilChoice::Tag::array>();
            b.putVarSize(array.size());
            for (const auto& e : array)
            {
                b.put(e, 32);
            }
        }
    }
}

// ---------------------------------------------------------------- reference trees

template <typename V>
Node compound(const char* type, V&& children)
{
    Node n;
    n.kind = Node::COMPOUND;
    n.type = type;
    n.children = std::forward<V>(children);
    return n;
}
inline Node nodeBytes(const BytesT& value)
{
    Node n;
    n.kind = Node::BYTES;
    n.type = "bytes";
    n.text = std::string(value.begin(), value.end());
    return n;
}
inline Node nodeBits(const BitBufferT& value)
{
    Node n;
    n.kind = Node::BITS;
    n.type = "extern";
    const auto data = value.getData();
    n.text = std::string(data.begin(), data.end());
    n.bits = value.getBitSize();
    return n;
}
inline Node treeOf(const to::CreatorNested& o)
{
    const char* item = o.creatorEnum == to::CreatorEnum::ONE
            ? "ONE"
            : o.creatorEnum == to::CreatorEnum::TWO ? "TWO" : "MinusOne";
    return compound("CreatorNested",
            std::vector<Node>{nodeUInt(o.value, "bit:32").named("value"),
                    nodeString(std::string(std::string_view(o.text))).named("text"),
                    nodeBits(o.externData).named("externData"), nodeBytes(o.bytesData).named("bytesData"),
                    nodeEnum(static_cast<int64_t>(o.creatorEnum), "CreatorEnum", item).named("creatorEnum"),
                    nodeMask(o.creatorBitmask.getValue(), "CreatorBitmask", {{1, "READ"}, {2, "WRITE"}})
                            .named("creatorBitmask")});
}
template <typename A, typename F>
Node arrayOf(const A& array, const char* type, F&& element)
{
    Node n;
    n.kind = Node::ARRAY;
    n.type = type;
    for (const auto& e : array)
    {
        n.children.push_back(element(e));
    }
    return n;
}
inline Node treeOf(const to::CreatorObject& o)
{
    std::vector<Node> c;
    c.push_back(nodeUInt(o.value, "bit:32").named("value"));
    c.push_back(treeOf(o.nested).named("nested"));
    c.push_back(nodeString(std::string(std::string_view(o.text))).named("text"));
    c.push_back(arrayOf(o.nestedArray, "CreatorNested", [](const auto& e) {
        return treeOf(e).named("nestedArray");
    }).named("nestedArray"));
    c.push_back(arrayOf(o.textArray, "string", [](const auto& e) {
        return nodeString(std::string(std::string_view(e))).named("textArray");
    }).named("textArray"));
    c.push_back(!o.externArray.has_value() ? nodeNull().named("externArray")
                                           : arrayOf(*o.externArray, "extern", [](const auto& e) {
                                                 return nodeBits(e).named("externArray");
                                             }).named("externArray"));
    c.push_back(!o.bytesArray.has_value() ? nodeNull().named("bytesArray")
                                          : arrayOf(*o.bytesArray, "bytes", [](const auto& e) {
                                                return nodeBytes(e).named("bytesArray");
                                            }).named("bytesArray"));
    c.push_back((o.optionalBool.has_value() ? nodeBool(*o.optionalBool) : nodeNull()).named("optionalBool"));
    c.push_back((o.optionalNested.has_value() ? treeOf(*o.optionalNested) : nodeNull()).named("optionalNested"));
    return compound("CreatorObject", std::move(c));
}
inline Node treeOf(const to::WalkerNested& o)
{
    return compound("WalkerNested",
            std::vector<Node>{nodeString(std::string(std::string_view(o.text))).named("text")});
}
inline Node treeOf(const to::WalkerUnion& o)
{
    Node n = compound("WalkerUnion", std::vector<Node>{});
    n.isChoice = true;
    using Tag = to::WalkerUnion::Tag;
    n.children = {nodeNull().named("value"), nodeNull().named("text"), nodeNull().named("nestedArray")};
    switch (o.index())
    {
    case Tag::value:
        n.children[0] = nodeUInt(o.get<Tag::value>(), "bit:32").named("value");
        n.chosen = "value";
        break;
    case Tag::text:
        n.children[1] = nodeString(std::string(std::string_view(o.get<Tag::text>()))).named("text");
        n.chosen = "text";
        break;
    case Tag::nestedArray:
        n.children[2] = arrayOf(o.get<Tag::nestedArray>(), "WalkerNested", [](const auto& e) {
            return treeOf(e).named("nestedArray");
        }).named("nestedArray");
        n.chosen = "nestedArray";
        break;
    default:
        break;
    }
    return n;
}
inline Node treeOf(const to::WalkerChoice& o)
{
    Node n = compound("WalkerChoice", std::vector<Node>{});
    n.isChoice = true;
    using Tag = to::WalkerChoice::Tag;
    n.children = {nodeNull().named("value8"), nodeNull().named("value16"), nodeNull().named("value32"),
            nodeNull().named("value64")};
    switch (o.index())
    {
    case Tag::value8:
        n.children[0] = nodeUInt(o.get<Tag::value8>(), "bit:8").named("value8");
        n.chosen = "value8";
        break;
    case Tag::value16:
        n.children[1] = nodeUInt(o.get<Tag::value16>(), "bit:16").named("value16");
        n.chosen = "value16";
        break;
    case Tag::value32:
        n.children[2] = nodeUInt(o.get<Tag::value32>(), "bit:32").named("value32");
        n.chosen = "value32";
        break;
    case Tag::value64:
        n.children[3] = nodeUInt(o.get<Tag::value64>(), "bit:64").named("value64");
        n.chosen = "value64";
        break;
    default:
        break;
    }
    return n;
}
inline Node treeOf(const to::WalkerObject& o)
{
    std::vector<Node> c;
    c.push_back(nodeUInt(o.identifier, "bit:32").named("identifier"));
    c.push_back((o.nested.has_value() ? treeOf(*o.nested) : nodeNull()).named("nested"));
    c.push_back(nodeString(std::string(std::string_view(o.text))).named("text"));
    c.push_back(arrayOf(o.unionArray, "WalkerUnion", [](const auto& e) {
        return treeOf(e).named("unionArray");
    }).named("unionArray"));
    c.push_back(!o.optionalUnionArray.has_value()
                    ? nodeNull().named("optionalUnionArray")
                    : arrayOf(*o.optionalUnionArray, "WalkerUnion", [](const auto& e) {
                          return treeOf(e).named("optionalUnionArray");
                      }).named("optionalUnionArray"));
    c.push_back(nodeUInt(o.choiceSelector, "bit:8").named("choiceSelector"));
    c.push_back(treeOf(o.choiceField).named("choiceField"));
    return compound("WalkerObject", std::move(c));
}
inline Node treeOf(const to::ReflectableObject& o)
{
    std::vector<Node> c;
    c.push_back(nodeString(std::string(std::string_view(o.stringField))).named("stringField"));
    c.push_back(compound("ReflectableNested",
            std::vector<Node>{nodeUInt(o.reflectableNested.value, "bit:31").named("value")})
                        .named("reflectableNested"));
    const int item = static_cast<int>(o.reflectableEnum);
    c.push_back(nodeEnum(item, "ReflectableEnum", item == -1 ? "VALUE1" : item == 0 ? "VALUE2" : "VALUE3")
                        .named("reflectableEnum"));
    Node choice = compound("ReflectableChoice", std::vector<Node>{});
    choice.isChoice = true;
    choice.children = {nodeNull().named("valueStr"), nodeNull().named("value32")};
    if (o.reflectableChoice.index() == to::ReflectableChoice::Tag::valueStr)
    {
        choice.chosen = "valueStr";
        choice.children[0] = nodeString(std::string(std::string_view(
                                                o.reflectableChoice.get<to::ReflectableChoice::Tag::valueStr>())))
                                     .named("valueStr");
    }
    else if (o.reflectableChoice.index() == to::ReflectableChoice::Tag::value32)
    {
        choice.chosen = "value32";
        choice.children[1] =
                nodeUInt(o.reflectableChoice.get<to::ReflectableChoice::Tag::value32>(), "bit:32").named("value32");
    }
    c.push_back(choice.named("reflectableChoice"));
    Node u = compound("ReflectableUnion", std::vector<Node>{});
    u.isChoice = true;
    u.children = {nodeNull().named("value32"), nodeNull().named("valueStr")};
    if (o.reflectableUnion.index() == to::ReflectableUnion::Tag::value32)
    {
        u.chosen = "value32";
        u.children[0] =
                nodeUInt(o.reflectableUnion.get<to::ReflectableUnion::Tag::value32>(), "bit:32").named("value32");
    }
    else if (o.reflectableUnion.index() == to::ReflectableUnion::Tag::valueStr)
    {
        u.chosen = "valueStr";
        u.children[1] = nodeString(std::string(std::string_view(
                                           o.reflectableUnion.get<to::ReflectableUnion::Tag::valueStr>())))
                                .named("valueStr");
    }
    c.push_back(u.named("reflectableUnion"));
    return compound("ReflectableObject", std::move(c));
}

inline Node treeOf(const to::ReflectableUtilUnion& o)
{
    using Tag = to::ReflectableUtilUnion::Tag;
    Node n = compound("ReflectableUtilUnion", std::vector<Node>{});
    n.isChoice = true;
    n.children = {nodeNull().named("reflectableUtilEnum"), nodeNull().named("reflectableUtilBitmask"),
            nodeNull().named("reflectableUtilObject")};
    switch (o.index())
    {
    case Tag::reflectableUtilEnum: {
        const auto value = o.get<Tag::reflectableUtilEnum>();
        n.children[0] = nodeEnum(static_cast<int64_t>(value), "ReflectableUtilEnum",
                value == to::ReflectableUtilEnum::ONE ? "ONE" : "TWO").named("reflectableUtilEnum");
        n.chosen = "reflectableUtilEnum";
        break;
    }
    case Tag::reflectableUtilBitmask:
        n.children[1] = nodeMask(o.get<Tag::reflectableUtilBitmask>().getValue(), "ReflectableUtilBitmask",
                {{1, "READ"}, {2, "WRITE"}}).named("reflectableUtilBitmask");
        n.chosen = "reflectableUtilBitmask";
        break;
    case Tag::reflectableUtilObject: {
        const auto& u = o.get<Tag::reflectableUtilObject>();
        Node choice = compound("ReflectableUtilChoice", std::vector<Node>{nodeNull().named("array")});
        choice.isChoice = true;
        if (u.reflectableUtilChoice.index() == to::ReflectableUtilChoice::Tag::array)
        {
            choice.children[0] = arrayOf(u.reflectableUtilChoice.get<to::ReflectableUtilChoice::Tag::array>(), "bit:32",
                    [](const auto& e) { return nodeUInt(e, "bit:32").named("array"); }).named("array");
            choice.chosen = "array";
        }
        n.children[2] = compound("ReflectableUtilObject",
                std::vector<Node>{nodeUInt(u.choiceParam, "bit:8").named("choiceParam"),
                        choice.named("reflectableUtilChoice")}).named("reflectableUtilObject");
        n.chosen = "reflectableUtilObject";
        break;
    }
    default:
        break;
    }
    return n;
}

// ---------------------------------------------------------------- enumerated objects

// variant 0 is the plainest
inline to::CreatorNested creatorNested(uint32_t variant, const Alloc& a = {})
{
    switch (variant)
    {
    case 0:
        return to::CreatorNested(0, text("", a), BitBufferT(a), BytesT(a), to::CreatorEnum::ONE, to::CreatorBitmask(),
                a);
    case 1:
        return to::CreatorNested(0xffffffff, text(longText(), a), bitBuffer("\xab\x07", 11, a),
                bytes(std::string("\0\xff", 2), a), to::CreatorEnum::MinusOne, to::CreatorBitmask::Values::READ, a);
    case 2:
        return to::CreatorNested(13, text(std::string("n\"\n\0\xc3\xa9", 6), a), bitBuffer("\x80", 1, a),
                bytes("x", a), to::CreatorEnum::TWO, to::CreatorBitmask(zserio::UInt8(3)), a);
    case 3:
        return to::CreatorNested(1, text("t", a), bitBuffer("\x12\x34\x56\x78\x9a\xbc\xde\xf0", 64, a),
                bytes(std::string(130, 'b'), a), to::CreatorEnum::TWO, to::CreatorBitmask(zserio::UInt8(255)), a);
    default:
        return to::CreatorNested(1, text("t", a), bitBuffer("\x12\x30", 12, a), bytes("", a), to::CreatorEnum::ONE,
                to::CreatorBitmask(zserio::UInt8(4)), a);
    }
}
static constexpr uint32_t creatorNestedVariants = 5;

// every combination of the fields' alphabets; size 0: small, 1: full
inline to::CreatorObject creatorObject(Ctx& ctx, uint32_t size, const Alloc& a = {})
{
    to::CreatorObject o(a);
    const uint32_t nestedArray = ctx.choose(size == 0 ? 3 : 4);
    const uint32_t textArray = ctx.choose(3);
    const uint32_t externArray = ctx.choose(size == 0 ? 3 : 4);
    const uint32_t bytesArray = ctx.choose(size == 0 ? 3 : 4);
    const uint32_t optionalBool = ctx.choose(size == 0 ? 2 : 3);
    const uint32_t optionalNested = ctx.choose(size == 0 ? 2 : 3);
    o.value = ctx.choose(2) ? 0xffffffffU : 0U;
    o.text = text(ctx.choose(2) ? longText() : "", a);
    o.nested = creatorNested(size == 0 ? ctx.choose(2) : ctx.choose(creatorNestedVariants), a);
    for (uint32_t i = 0; i < nestedArray; ++i)
    {
        o.nestedArray.push_back(creatorNested((i + nestedArray) % creatorNestedVariants, a));
    }
    for (uint32_t i = 0; i < textArray; ++i)
    {
        o.textArray.push_back(text(i == 0 ? "" : longText(), a));
    }
    if (externArray > 0)
    {
        o.externArray.emplace();
        for (uint32_t i = 1; i < externArray; ++i)
        {
            o.externArray->push_back(i == 1 ? bitBuffer("\xff\xfe", 15, a) : BitBufferT(a));
        }
    }
    if (bytesArray > 0)
    {
        o.bytesArray.emplace();
        for (uint32_t i = 1; i < bytesArray; ++i)
        {
            o.bytesArray->push_back(i == 1 ? bytes(std::string("\xfe\0", 2), a) : bytes("", a));
        }
    }
    if (optionalBool > 0)
    {
        o.optionalBool.emplace(optionalBool == 2);
    }
    if (optionalNested > 0)
    {
        o.optionalNested.emplace(creatorNested(optionalNested + 1, a));
    }
    return o;
}

inline to::WalkerUnion walkerUnion(uint32_t variant, const Alloc& a = {})
{
    using Tag = to::WalkerUnion::Tag;
    switch (variant)
    {
    case 0:
        return to::WalkerUnion(zserio::in_place_index<Tag::value>, a, zserio::UInt32(7));
    case 1:
        return to::WalkerUnion(zserio::in_place_index<Tag::text>, a, text("", a));
    case 2:
        return to::WalkerUnion(zserio::in_place_index<Tag::text>, a, text(longText(), a));
    default: {
        using Array = std::decay_t<decltype(std::declval<to::WalkerUnion>().template get<Tag::nestedArray>())>;
        Array array(a);
        for (uint32_t i = 3; i < variant; ++i)
        {
            array.push_back(to::WalkerNested(text(i == 3 ? "n1" : longText(), a), a));
        }
        return to::WalkerUnion(zserio::in_place_index<Tag::nestedArray>, a, std::move(array));
    }
    }
}
static constexpr uint32_t walkerUnionVariants = 6;

inline to::WalkerObject walkerObject(Ctx& ctx, uint32_t size, const Alloc& a = {})
{
    to::WalkerObject o(a);
    const uint32_t nested = ctx.choose(size == 0 ? 2 : 3);
    const uint32_t unions = ctx.choose(size == 0 ? 2 : 3);
    for (uint32_t i = 0; i < unions; ++i)
    {
        o.unionArray.push_back(walkerUnion(ctx.choose(walkerUnionVariants), a));
    }
    const uint32_t optionalUnions = ctx.choose(size == 0 ? 2 : 4); // size 2: many arrays, few of the optional one
    if (optionalUnions > 0)
    {
        o.optionalUnionArray.emplace();
        for (uint32_t i = 1; i < optionalUnions; ++i)
        {
            o.optionalUnionArray->push_back(walkerUnion(size != 1 ? 3 + i : ctx.choose(walkerUnionVariants), a));
        }
    }
    using Tag = to::WalkerChoice::Tag;
    switch (ctx.choose(size == 0 ? 3 : 5))
    {
    case 0:
        o.choiceSelector = 0;
        break;
    case 1:
        o.choiceSelector = 8;
        o.choiceField.template emplace<Tag::value8>(zserio::UInt8(255));
        break;
    case 2:
        o.choiceSelector = 64;
        o.choiceField.template emplace<Tag::value64>(zserio::UInt64(UINT64_C(0xfedcba9876543210)));
        break;
    case 3:
        o.choiceSelector = 16;
        o.choiceField.template emplace<Tag::value16>(zserio::UInt16(static_cast<uint16_t>(256)));
        break;
    default:
        o.choiceSelector = 32;
        o.choiceField.template emplace<Tag::value32>(zserio::UInt32(70000U));
        break;
    }
    o.text = text(ctx.choose(2) ? longText() : "t", a);
    if (nested > 0)
    {
        o.identifier = 13;
        o.nested.emplace(to::WalkerNested(text(nested == 1 ? "" : longText(), a), a));
    }
    return o;
}

inline to::ReflectableObject reflectableObject(Ctx& ctx, uint32_t size, const Alloc& a = {})
{
    to::ReflectableObject o(a);
    o.stringField = text(ctx.choose(2) ? longText() : "", a);
    o.reflectableNested.value = ctx.choose(2) ? zserio::UInt31(0x7fffffffU) : zserio::UInt31(0U);
    switch (ctx.choose(3))
    {
    case 0:
        o.reflectableEnum = to::ReflectableEnum::VALUE1;
        o.reflectableChoice.template emplace<to::ReflectableChoice::Tag::valueStr>(
                text(ctx.choose(2) ? longText() : "", a));
        break;
    case 1:
        o.reflectableEnum = to::ReflectableEnum::VALUE2;
        o.reflectableChoice.template emplace<to::ReflectableChoice::Tag::value32>(
                zserio::UInt32(ctx.choose(2) ? 0xffffffffU : 0U));
        break;
    default:
        o.reflectableEnum = to::ReflectableEnum::VALUE3;
        break;
    }
    if (ctx.choose(2) == 0)
    {
        o.reflectableUnion.template emplace<to::ReflectableUnion::Tag::value32>(
                zserio::UInt32(ctx.choose(2) ? 0xffffffffU : 0U));
    }
    else
    {
        o.reflectableUnion.template emplace<to::ReflectableUnion::Tag::valueStr>(
                text(ctx.choose(2) ? longText() : "", a));
    }
    (void)size;
    return o;
}

inline to::ReflectableUtilUnion reflectableUtilUnion(Ctx& ctx, uint32_t size, const Alloc& a = {})
{
    using Tag = to::ReflectableUtilUnion::Tag;
    switch (ctx.choose(3))
    {
    case 0:
        return to::ReflectableUtilUnion(zserio::in_place_index<Tag::reflectableUtilEnum>, a,
                ctx.choose(2) ? to::ReflectableUtilEnum::TWO : to::ReflectableUtilEnum::ONE);
    case 1:
        return to::ReflectableUtilUnion(zserio::in_place_index<Tag::reflectableUtilBitmask>, a,
                to::ReflectableUtilBitmask(zserio::UInt8(ctx.pick(std::vector<uint8_t>{0, 1, 3, 4, 255}))));
    default: {
        to::ReflectableUtilObject u(a);
        u.choiceParam = static_cast<uint8_t>(ctx.choose(4));
        if (u.choiceParam == 1 || u.choiceParam == 2)
        {
            using Array = std::decay_t<
                    decltype(std::declval<to::ReflectableUtilChoice>().template get<to::ReflectableUtilChoice::Tag::array>())>;
            Array array(a);
            const uint32_t length = ctx.choose(size == 0 ? 3 : 5);
            for (uint32_t i = 0; i < length; ++i)
            {
                array.push_back(zserio::UInt32(i == 0 ? 0xffffffffU : i));
            }
            u.reflectableUtilChoice.template emplace<to::ReflectableUtilChoice::Tag::array>(std::move(array));
        }
        return to::ReflectableUtilUnion(zserio::in_place_index<Tag::reflectableUtilObject>, a, std::move(u));
    }
    }
}

// ---------------------------------------------------------------- large objects

// how many elements, characters, bytes or bits: around the powers of two where a narrow counter would wrap
inline const std::vector<uint32_t>& largeSizes(bool deeper)
{
    static const std::vector<uint32_t> few = {15, 16, 17, 31, 33, 63, 65, 99, 101, 127, 128, 129, 255, 256, 257, 1025};
    static const std::vector<uint32_t> many = [] {
        std::vector<uint32_t> v = few;
        v.insert(v.end(), {511, 513, 4095, 4097, 16383, 16384, 16385});
        return v;
    }();
    return deeper ? many : few;
}
inline std::string largeText(size_t n)
{
    std::string s;
    for (size_t i = 0; i < n; ++i)
    {
        s.push_back(static_cast<char>(' ' + (i * 7 + i / 89) % 90));
    }
    return s;
}
inline std::string largeBytes(size_t n)
{
    std::string s;
    for (size_t i = 0; i < n; ++i)
    {
        s.push_back(static_cast<char>((i * 37 + i / 251 * 11 + 5) & 0xffU));
    }
    return s;
}
inline std::string threeBytes(size_t i)
{
    return {static_cast<char>((i >> 8U) & 0xffU), static_cast<char>(i & 0xffU), static_cast<char>(0xa5)};
}

// n distinct elements in one place
static constexpr uint32_t largeCreatorPlaces = 7;
inline const char* largeCreatorName(uint32_t place)
{
    static const char* const names[] = {"nestedArray", "textArray", "externArray", "bytesArray", "text",
            "nested.bytesData", "nested.externData"};
    return names[place];
}
inline to::CreatorObject largeCreator(uint32_t place, uint32_t n, const Alloc& a = {})
{
    to::CreatorObject o(a);
    o.nested = creatorNested(0, a);
    switch (place)
    {
    case 0:
        for (uint32_t i = 0; i < n; ++i)
        {
            o.nestedArray.push_back(creatorNested(i % creatorNestedVariants, a));
            o.nestedArray.back().value = i;
        }
        break;
    case 1:
        for (uint32_t i = 0; i < n; ++i)
        {
            o.textArray.push_back(text(std::to_string(i), a));
        }
        break;
    case 2:
        o.externArray.emplace();
        for (uint32_t i = 0; i < n; ++i)
        {
            o.externArray->push_back(bitBuffer(threeBytes(i), 24, a));
        }
        break;
    case 3:
        o.bytesArray.emplace();
        for (uint32_t i = 0; i < n; ++i)
        {
            o.bytesArray->push_back(bytes(threeBytes(i), a));
        }
        break;
    case 4:
        o.text = text(largeText(n), a);
        break;
    case 5:
        o.nested.bytesData = bytes(largeBytes(n), a);
        break;
    default: {
        const uint32_t bits = n * 8 - n % 8;
        std::string data = largeBytes(n);
        data.back() = static_cast<char>(data.back() & static_cast<char>(0xffU << (n % 8)));
        o.nested.externData = bitBuffer(data, bits, a);
        break;
    }
    }
    return o;
}
static constexpr uint32_t largeWalkerPlaces = 3;
inline const char* largeWalkerName(uint32_t place)
{
    static const char* const names[] = {"unionArray", "optionalUnionArray", "unionArray[0].nestedArray"};
    return names[place];
}
inline to::WalkerUnion numberedUnion(uint32_t i, uint32_t elements, const Alloc& a)
{
    using Tag = to::WalkerUnion::Tag;
    switch (i % 3)
    {
    case 0:
        return to::WalkerUnion(zserio::in_place_index<Tag::value>, a, zserio::UInt32(i));
    case 1:
        return to::WalkerUnion(zserio::in_place_index<Tag::text>, a, text(std::to_string(i), a));
    default: {
        using Array = std::decay_t<decltype(std::declval<to::WalkerUnion>().template get<Tag::nestedArray>())>;
        Array array(a);
        for (uint32_t k = 0; k < elements; ++k)
        {
            array.push_back(to::WalkerNested(text(std::to_string(i + k), a), a));
        }
        return to::WalkerUnion(zserio::in_place_index<Tag::nestedArray>, a, std::move(array));
    }
    }
}
inline to::WalkerObject largeWalker(uint32_t place, uint32_t n, const Alloc& a = {})
{
    to::WalkerObject o(a);
    o.identifier = 13;
    o.nested.emplace(to::WalkerNested(text("n", a), a));
    o.choiceSelector = 8;
    o.choiceField.template emplace<to::WalkerChoice::Tag::value8>(zserio::UInt8(255));
    if (place == 1)
    {
        o.optionalUnionArray.emplace();
    }
    for (uint32_t i = 0; i < (place == 2 ? 1 : n); ++i)
    {
        auto& array = place == 1 ? *o.optionalUnionArray : o.unionArray;
        array.push_back(place == 2 ? numberedUnion(2, n, a) : numberedUnion(i, 1, a));
    }
    return o;
}

} // namespace OBJ_NS
} // namespace obj
