// C19: introspection of a view shows what the view holds.
// mc: level=model_checking opt=0 sources=std_test_object
#include <algorithm>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>

#include "access.h"
#include "mc.h"
#include "objects.h"
#include "treecmp.h"
#include "zserio/ArrayView.h"
#include "zserio/BitBuffer.h"
#include "zserio/IntrospectableView.h"
#include "zserio/TypeInfo.h"

using mc::Ctx;
using mc::str;
using namespace zserio;
using obj::Node;
namespace to = ::test_object::std_allocator;
namespace ob = ::obj::std_allocator;

namespace
{

using Ptr = IIntrospectableViewConstPtr;

std::string attempt(const std::function<void()>& operation)
{
    return acc::outcome([&] {
        operation();
        return std::string("done");
    });
}

void checkTable(Ctx& ctx, const Ptr& data, const acc::Table& table, const std::string& what)
{
    const std::string difference = acc::difference(acc::read(data), table);
    MC_REQUIRE(ctx, difference.empty(), "getter", what, ": ", difference);
    ctx.cases(acc::CELLS);
}

using Operation = std::pair<const char*, std::function<void(const Ptr&)>>;
void refused(Ctx& ctx, const Ptr& data, const std::vector<Operation>& operations, const std::string& what)
{
    for (const auto& operation : operations)
    {
        const std::string result = attempt([&] { operation.second(data); });
        MC_REQUIRE(ctx, result == "refused", "not-refused", operation.first, " on ", what, ": ", result);
        ctx.cases();
    }
}
const std::vector<Operation>& ofCompounds()
{
    static const std::vector<Operation> out = {{"getField", [](const Ptr& d) { d->getField("value"); }},
            {"getField ''", [](const Ptr& d) { d->getField(""); }}, {"getParameter", [](const Ptr& d) { d->getParameter("param"); }},
            {"callFunction", [](const Ptr& d) { d->callFunction("getValue"); }}, {"serialize", [](const Ptr& d) { d->serialize(); }},
            {"serialize with allocator", [](const Ptr& d) { d->serialize(std::allocator<uint8_t>()); }}};
    return out;
}
const std::vector<Operation>& ofChoices()
{
    static const std::vector<Operation> out = {{"getChoice", [](const Ptr& d) { d->getChoice(); }}};
    return out;
}
const std::vector<Operation>& ofArrays()
{
    static const std::vector<Operation> out = {{"size", [](const Ptr& d) { d->size(); }}, {"at", [](const Ptr& d) { d->at(0); }},
            {"index", [](const Ptr& d) { (*d)[static_cast<size_t>(0)]; }}, {"at max", [](const Ptr& d) { d->at(SIZE_MAX); }}};
    return out;
}
void finds(Ctx& ctx, const Ptr& data, const std::vector<std::string>& paths, const std::string& what)
{
    for (const std::string& path : paths)
    {
        const std::string result = attempt([&] {
            if (data->find(path) != nullptr || (*data)[std::string_view(path)] != nullptr)
            {
                throw std::runtime_error("found");
            }
        });
        MC_REQUIRE(ctx, result == "done", "found", "find '", path, "' in ", what, ": ", result);
        ctx.cases();
    }
}
void checkPlain(Ctx& ctx, const Ptr& data, const std::string& what)
{
    refused(ctx, data, ofCompounds(), what);
    refused(ctx, data, ofChoices(), what);
    refused(ctx, data, ofArrays(), what);
    finds(ctx, data, {"", ".", "value", "value.value", "a.", ".a", "0"}, what);
    MC_REQUIRE(ctx, !data->isArray(), "array", what, " is an array");
}
template <typename HELD, typename EQUAL>
void checkAny(Ctx& ctx, const Ptr& data, EQUAL&& equal, const std::string& what)
{
    const std::string result = attempt([&] {
        if (!equal(data->getAnyValue().template get<HELD>()) ||
                !equal(data->getAnyValue(std::allocator<uint8_t>()).template get<HELD>()))
        {
            throw std::runtime_error("differs");
        }
    });
    MC_REQUIRE(ctx, result == "done", "any-value", "the any value of ", what, ": ", result);
}

// ---------------------------------------------------------------- scalars

template <typename V>
std::vector<V> valuesIn(V low, V high)
{
    if constexpr (std::is_same_v<V, bool>)
    {
        return {false, true};
    }
    else if constexpr (std::is_floating_point_v<V>)
    {
        using L = std::numeric_limits<V>;
        return {V(0), -V(0), V(1), V(-1.5), L::max(), L::lowest(), L::min(), L::denorm_min(), L::infinity(),
                -L::infinity(), L::quiet_NaN(), V(0.1)};
    }
    else
    {
        return {low, high, static_cast<V>(low + (low != high ? 1 : 0)), V(0), static_cast<V>(high / 2),
                static_cast<V>(high - (high != 0 ? 1 : 0))};
    }
}
template <typename V>
acc::Table tableOf(V value)
{
    if constexpr (std::is_floating_point_v<V>)
    {
        return acc::expectReal(value);
    }
    else
    {
        return acc::expectIntegral(value);
    }
}
template <typename V>
bool sameValue(V a, V b)
{
    return a == b || (a != a && b != b);
}

template <typename T>
void scalar(Ctx& ctx)
{
    using V = typename T::ValueType;
    std::vector<V> values;
    if constexpr (std::is_floating_point_v<V>)
    {
        values = valuesIn<V>(0, 0);
    }
    else
    {
        values = valuesIn<V>(static_cast<V>(NumericLimits<T>::min()), static_cast<V>(NumericLimits<T>::max()));
    }
    const V value = values[ctx.choose(static_cast<uint32_t>(values.size()))];
    const Ptr data = introspectable(T(value));
    ctx.step();
    const std::string what = str(typeInfo<T>().getSchemaName(), " ", +value);
    checkTable(ctx, data, tableOf(value), what);
    MC_REQUIRE(ctx, &data->getTypeInfo() == &typeInfo<T>(), "type-info", "type information of ", what);
    checkAny<T>(ctx, data, [&](T shown) { return sameValue<V>(shown, value); }, what);
    checkPlain(ctx, data, what);
}
template <typename T>
void dynamic(Ctx& ctx)
{
    using V = typename T::ValueType;
    const uint8_t bits = static_cast<uint8_t>(1 + ctx.choose(sizeof(V) * 8));
    const auto values = valuesIn<V>(static_cast<V>(NumericLimits<T>::min(bits)), static_cast<V>(NumericLimits<T>::max(bits)));
    const V value = values[ctx.choose(static_cast<uint32_t>(values.size()))];
    const Ptr data = introspectable(View<T>(T(value), bits));
    ctx.step();
    const std::string what = str(typeInfo<T>().getSchemaName(), " of ", static_cast<int>(bits), " bits ", +value);
    checkTable(ctx, data, tableOf(value), what);
    MC_REQUIRE(ctx, &data->getTypeInfo() == &typeInfo<T>(), "type-info", "type information of ", what);
    checkAny<View<T>>(ctx, data, [&](View<T> shown) {
        return static_cast<V>(shown.value()) == value && shown.numBits() == bits;
    }, what);
    checkPlain(ctx, data, what);
}
using ScalarBody = void (*)(Ctx&);
template <size_t... I>
std::vector<ScalarBody> fixedBodies(std::index_sequence<I...>)
{
    return {scalar<detail::FixedIntWrapper<static_cast<BitSize>(I + 1), true>>...,
            scalar<detail::FixedIntWrapper<static_cast<BitSize>(I + 1), false>>...};
}
void fixedIntegers(Ctx& ctx)
{
    static const auto bodies = fixedBodies(std::make_index_sequence<64>());
    bodies[ctx.choose(static_cast<uint32_t>(bodies.size()))](ctx);
}
void otherScalars(Ctx& ctx)
{
    static const std::vector<ScalarBody> bodies = {scalar<Bool>, dynamic<DynInt8>, dynamic<DynInt16>, dynamic<DynInt32>,
            dynamic<DynInt64>, dynamic<DynUInt8>, dynamic<DynUInt16>, dynamic<DynUInt32>, dynamic<DynUInt64>,
            scalar<VarInt16>, scalar<VarInt32>, scalar<VarInt64>, scalar<VarInt>, scalar<VarUInt16>,
            scalar<VarUInt32>, scalar<VarUInt64>, scalar<VarUInt>, scalar<VarSize>, scalar<Float16>, scalar<Float32>,
            scalar<Float64>};
    bodies[ctx.choose(static_cast<uint32_t>(bodies.size()))](ctx);
}

void items(Ctx& ctx)
{
    acc::Table table;
    Ptr data;
    switch (ctx.choose(4))
    {
    case 0: {
        const int value = static_cast<int>(ctx.choose(3)) - 1;
        const auto item = static_cast<to::CreatorEnum>(value);
        data = introspectable(item);
        table = acc::expectItem(static_cast<int8_t>(value), value == 0 ? "ONE" : value == 1 ? "TWO" : "MinusOne");
        checkAny<to::CreatorEnum>(ctx, data, [&](to::CreatorEnum v) { return v == item; }, "enum");
        break;
    }
    case 1: {
        const uint32_t value = ctx.choose(2);
        const auto item = static_cast<to::CreatorUnsignedEnum>(value);
        data = introspectable(item);
        table = acc::expectItem(static_cast<uint8_t>(value), value == 0 ? "ONE" : "TWO");
        checkAny<to::CreatorUnsignedEnum>(ctx, data, [&](to::CreatorUnsignedEnum v) { return v == item; }, "enum");
        break;
    }
    case 2: {
        const uint32_t value = ctx.choose(256);
        const to::CreatorBitmask mask{UInt8(static_cast<uint8_t>(value))};
        data = introspectable(mask);
        table = acc::expectItem(static_cast<uint8_t>(value),
                obj::nodeMask(value, "CreatorBitmask", {{1, "READ"}, {2, "WRITE"}}).text);
        checkAny<to::CreatorBitmask>(ctx, data, [&](to::CreatorBitmask v) { return v == mask; }, "bitmask");
        break;
    }
    default: {
        static const std::vector<uint32_t> values = {0, 1, 2, 3, 0x7fffffff, 0x80000000, 0xffffffff};
        const uint32_t value = values[ctx.choose(static_cast<uint32_t>(values.size()))];
        const to::WalkerBitmask mask{UInt32(value)};
        data = introspectable(mask);
        table = acc::expectItem(value, obj::nodeMask(value, "WalkerBitmask", {{1, "ZERO"}}).text);
        checkAny<to::WalkerBitmask>(ctx, data, [&](to::WalkerBitmask v) { return v == mask; }, "bitmask");
        break;
    }
    }
    ctx.step();
    checkTable(ctx, data, table, std::string(data->getTypeInfo().getSchemaName()));
    checkPlain(ctx, data, std::string(data->getTypeInfo().getSchemaName()));
}

void sequences(Ctx& ctx)
{
    static const std::vector<std::string> texts = {"", "t", std::string("a\0b", 3), obj::longText(),
            std::string("\xff\x00\x80", 3)};
    const std::string text = texts[ctx.choose(static_cast<uint32_t>(texts.size()))];
    const Bytes bytes(text.begin(), text.end());
    Ptr data;
    acc::Table table;
    BitBuffer buffer;
    ctx.step();
    switch (ctx.choose(3))
    {
    case 0:
        data = introspectable(std::string_view(text));
        table = acc::expectString(text);
        checkAny<std::string_view>(ctx, data, [&](std::string_view v) { return v == text && v.data() == text.data(); }, "string");
        MC_REQUIRE(ctx, data->getStringView().data() == text.data(), "copied", "the string is not the view's");
        break;
    case 1:
        data = introspectable(BytesView(bytes.data(), bytes.size()));
        table = acc::expectBytes(text);
        checkAny<BytesView>(ctx, data, [&](BytesView v) { return v.data() == bytes.data() && v.size() == bytes.size(); }, "bytes");
        MC_REQUIRE(ctx, data->getBytes().data() == bytes.data(), "copied", "the bytes are not the view's");
        break;
    default: {
        const size_t unused = text.empty() ? 0 : ctx.choose(8);
        std::string raw = text;
        if (unused > 0)
        {
            raw.back() = static_cast<char>(static_cast<uint8_t>(raw.back()) & (0xff << unused));
        }
        buffer = BitBuffer(std::vector<uint8_t>(raw.begin(), raw.end()), text.size() * 8 - unused);
        table = acc::expectBits(raw, text.size() * 8 - unused);
        data = introspectable(BitBufferView(buffer));
        MC_REQUIRE(ctx, &data->getBitBuffer() == &buffer, "copied", "the bits are not the view's");
        checkAny<BitBufferView>(ctx, data, [&](const BitBufferView& v) { return &v.get() == &buffer; }, "bits");
        break;
    }
    }
    checkTable(ctx, data, table, std::string(data->getTypeInfo().getSchemaName()));
    checkPlain(ctx, data, std::string(data->getTypeInfo().getSchemaName()));
}

// ---------------------------------------------------------------- arrays

template <typename T, typename CHECK>
void array(Ctx& ctx, const Vector<T>& elements, CHECK&& check)
{
    const ArrayView<const T> view(elements);
    const Ptr data = introspectableArray(view);
    const std::string what = str("array of ", typeInfo<T>().getSchemaName(), " with ", elements.size(), " elements");
    ctx.step();
    MC_REQUIRE(ctx, data->isArray(), "array", what, " is no array");
    MC_REQUIRE(ctx, &data->getTypeInfo() == &typeInfo<T>(), "type-info", "type information of ", what);
    MC_REQUIRE(ctx, data->size() == elements.size(), "size", what, " has size ", data->size());
    checkTable(ctx, data, acc::refused(), what);
    refused(ctx, data, ofCompounds(), what);
    refused(ctx, data, ofChoices(), what);
    finds(ctx, data, {"", "0", "[0]", "value", "."}, what);
    for (size_t i = 0; i < elements.size(); ++i)
    {
        check(data->at(i), i);
        check((*data)[i], i);
    }
    for (size_t i : {elements.size(), elements.size() + 1, SIZE_MAX, SIZE_MAX / 2 + 1})
    {
        refused(ctx, data, {{"at behind the end", [i](const Ptr& d) { d->at(i); }}, {"index behind the end", [i](const Ptr& d) { (*d)[i]; }}}, what);
    }
    using Held = ArrayView<const T>;
    checkAny<Held>(ctx, data, [&](const Held& held) { return held.size() == elements.size(); }, what);
}
template <typename T>
void scalarArray(Ctx& ctx, const std::vector<typename T::ValueType>& values)
{
    const size_t size = ctx.choose(4);
    Vector<T> elements;
    for (size_t i = 0; i < size; ++i)
    {
        elements.push_back(T(values[i]));
    }
    array(ctx, elements, [&](const Ptr& element, size_t i) {
        checkTable(ctx, element, tableOf(values[i]), "element");
        checkPlain(ctx, element, "element");
    });
}
void arrays(Ctx& ctx)
{
    switch (ctx.choose(9))
    {
    case 0:
        scalarArray<Bool>(ctx, {true, false, true});
        break;
    case 1:
        scalarArray<Int8>(ctx, {-128, 127, 0});
        break;
    case 2:
        scalarArray<UInt33>(ctx, {0, 1, UINT64_C(0x1ffffffff)});
        break;
    case 3:
        scalarArray<VarInt>(ctx, {INT64_MIN, -1, INT64_MAX});
        break;
    case 4:
        scalarArray<Float64>(ctx, {0.5, -0.0, 1e300});
        break;
    case 5: {
        static const std::vector<std::string> values = {"", "a", obj::longText()};
        const size_t size = ctx.choose(4);
        Vector<String> elements;
        for (size_t i = 0; i < size; ++i)
        {
            elements.push_back(values[i]);
        }
        array(ctx, elements, [&](const Ptr& element, size_t i) {
            checkTable(ctx, element, acc::expectString(values[i]), "element");
        });
        break;
    }
    case 6: {
        static const std::vector<std::string> values = {"", "a", std::string("\0\xff", 2)};
        const size_t size = ctx.choose(4);
        Vector<Bytes> elements;
        for (size_t i = 0; i < size; ++i)
        {
            elements.push_back(Bytes(values[i].begin(), values[i].end()));
        }
        array(ctx, elements, [&](const Ptr& element, size_t i) {
            checkTable(ctx, element, acc::expectBytes(values[i]), "element");
        });
        break;
    }
    case 7: {
        const size_t size = ctx.choose(4);
        Vector<BitBuffer> elements;
        for (size_t i = 0; i < size; ++i)
        {
            elements.push_back(BitBuffer(std::vector<uint8_t>(i, 0x80), i * 8 - (i ? 7 : 0)));
        }
        array(ctx, elements, [&](const Ptr& element, size_t i) {
            checkTable(ctx, element, acc::expectBits(std::string(i, '\x80'), i * 8 - (i ? 7 : 0)), "element");
        });
        break;
    }
    default: {
        const size_t size = ctx.choose(4);
        Vector<to::CreatorEnum> elements;
        for (size_t i = 0; i < size; ++i)
        {
            elements.push_back(static_cast<to::CreatorEnum>(static_cast<int>(i) - 1));
        }
        static const char* const names[] = {"MinusOne", "ONE", "TWO"};
        array(ctx, elements, [&](const Ptr& element, size_t i) {
            checkTable(ctx, element, acc::expectItem(static_cast<int8_t>(static_cast<int>(i) - 1), names[i]), "element");
        });
        break;
    }
    }
}

// ---------------------------------------------------------------- objects

// every node below a node, through getField, find from here and element access
void checkNode(Ctx& ctx, const Ptr& data, const Node& node)
{
    const std::string difference = treecmp::shallow(data, node);
    MC_REQUIRE(ctx, difference.empty(), "node", difference);
    if (!data)
    {
        return;
    }
    ctx.cases();
    if (node.kind == Node::ARRAY)
    {
        refused(ctx, data, ofCompounds(), node.name);
        refused(ctx, data, ofChoices(), node.name);
        const size_t size = node.children.size();
        refused(ctx, data, {{"at behind the end", [size](const Ptr& d) { d->at(size); }}}, node.name);
        for (size_t i = 0; i < size; ++i)
        {
            checkNode(ctx, data->at(i), node.children[i]);
            checkNode(ctx, (*data)[i], node.children[i]);
        }
        return;
    }
    if (node.kind != Node::COMPOUND)
    {
        checkPlain(ctx, data, node.name);
        return;
    }
    refused(ctx, data, ofArrays(), node.name);
    if (!node.isChoice)
    {
        refused(ctx, data, ofChoices(), node.name);
    }
    static const std::vector<Operation> wrong = {{"getField ''", [](const Ptr& d) { d->getField(""); }},
            {"getField nope", [](const Ptr& d) { d->getField("nope"); }}, {"getParameter nope", [](const Ptr& d) { d->getParameter("nope"); }},
            {"callFunction nope", [](const Ptr& d) { d->callFunction("nope"); }}};
    refused(ctx, data, wrong, node.name);
    checkTable(ctx, data, acc::refused(), node.name);
    std::vector<std::string> missing = {"", ".", "nope", "nope.value"};
    for (const Node& child : node.children)
    {
        missing.push_back(child.name + ".");
        missing.push_back(child.name + ".nope");
        missing.push_back("." + child.name);
        missing.push_back(child.name + "x");
        missing.push_back(child.name.substr(0, child.name.size() - 1));
        if (node.isChoice && child.name != node.chosen)
        {
            const std::string name = child.name;
            refused(ctx, data, {{"getField of another choice", [name](const Ptr& d) { d->getField(name); }}}, node.name);
            missing.push_back(child.name);
            continue;
        }
        checkNode(ctx, data->getField(child.name), child);
        const std::string found = treecmp::deep(data->find(child.name), child);
        MC_REQUIRE(ctx, found.empty(), "find", "find '", child.name, "': ", found);
        const std::string indexed = treecmp::deep((*data)[std::string_view(child.name)], child);
        MC_REQUIRE(ctx, indexed.empty(), "find", "['", child.name, "']: ", indexed);
    }
    // a shortened name may be a name
    missing.erase(std::remove_if(missing.begin(), missing.end(), [&](const std::string& name) {
        return std::any_of(node.children.begin(), node.children.end(), [&](const Node& child) {
            return child.name == name && !(node.isChoice && child.name != node.chosen);
        });
    }), missing.end());
    finds(ctx, data, missing, node.name);
}
// every dotted path from the root
void checkPaths(Ctx& ctx, const Ptr& root, const Node& node, const std::string& prefix)
{
    if (node.kind != Node::COMPOUND)
    {
        return;
    }
    for (const Node& child : node.children)
    {
        const std::string path = prefix.empty() ? child.name : prefix + "." + child.name;
        if (node.isChoice && child.name != node.chosen)
        {
            finds(ctx, root, {path}, "root");
            continue;
        }
        const std::string difference = treecmp::shallow(root->find(path), child);
        MC_REQUIRE(ctx, difference.empty(), "path", "find '", path, "': ", difference);
        ctx.cases();
        checkPaths(ctx, root, child, path);
    }
}

// the whole view of an object and what it serialises to
template <typename T, typename... PARAMETERS>
Ptr checkObject(Ctx& ctx, const T& object, PARAMETERS&&... parameters)
{
    const View<T> view(object, std::forward<PARAMETERS>(parameters)...);
    const Ptr data = introspectable(view);
    const Node node = ob::treeOf(object);
    MC_REQUIRE(ctx, &data->getTypeInfo() == &typeInfo<T>(), "type-info", "type information");
    checkNode(ctx, data, node);
    checkPaths(ctx, data, node, "");
    checkAny<View<T>>(ctx, data, [&](const View<T>& held) { return held == view; }, "object");
    obj::Bits bits;
    ob::encode(bits, object);
    const auto expected = bits.bytes();
    for (const BitBuffer& shown : {data->serialize(), data->serialize(std::allocator<uint8_t>())})
    {
        const auto bytes = shown.getData();
        MC_REQUIRE(ctx, shown.getBitSize() == bits.bits.size() &&
                        std::equal(bytes.begin(), bytes.end(), expected.begin(), expected.end()),
                "serialize", "serialises to ", shown.getBitSize(), " bits ", mc::hex(bytes.data(), bytes.size()), " instead of ",
                mc::hex(expected.data(), expected.size()));
    }
    ctx.step();
    return data;
}

void creator(Ctx& ctx)
{
    checkObject(ctx, ob::creatorObject(ctx, ctx.thorough() ? 1 : 0));
}
void walker(Ctx& ctx)
{
    const to::WalkerObject object = ob::walkerObject(ctx, ctx.thorough() ? 1 : 0);
    const Ptr data = checkObject(ctx, object);
    // the choice's parameter is the selector of the object
    const Ptr choice = data->getField("choiceField");
    const acc::Table selector = acc::expectIntegral(static_cast<uint8_t>(object.choiceSelector));
    checkTable(ctx, choice->getParameter("selector"), selector, "selector");
    checkTable(ctx, choice->find("selector"), selector, "selector");
    checkTable(ctx, data->find("choiceField.selector"), selector, "selector");
    finds(ctx, data, {"selector", "choiceField.selector.x", "choiceField.selecto"}, "object");
}
void reflectableObject(Ctx& ctx)
{
    const to::ReflectableObject object = ob::reflectableObject(ctx, 1);
    const Ptr data = checkObject(ctx, object);
    const std::string text(object.stringField.data(), object.stringField.size());
    const Ptr nested = data->getField("reflectableNested");
    const acc::Table thirteen = acc::expectIntegral(static_cast<int32_t>(13));
    const acc::Table string = acc::expectString(text);
    const acc::Table value = acc::expectIntegral(static_cast<uint32_t>(object.reflectableNested.value));
    checkTable(ctx, nested->getParameter("dummyParam"), thirteen, "dummyParam");
    checkTable(ctx, nested->getParameter("stringParam"), string, "stringParam");
    checkTable(ctx, nested->callFunction("getValue"), value, "getValue");
    checkTable(ctx, data->find("reflectableNested.dummyParam"), thirteen, "dummyParam");
    checkTable(ctx, data->find("reflectableNested.stringParam"), string, "stringParam");
    checkTable(ctx, data->find("reflectableNested.getValue"), value, "getValue");
    checkTable(ctx, (*nested)["getValue"], value, "getValue");
    refused(ctx, nested,
            {{"field as parameter", [](const Ptr& d) { d->getParameter("value"); }}, {"function as field", [](const Ptr& d) { d->getField("getValue"); }},
                    {"parameter as function", [](const Ptr& d) { d->callFunction("dummyParam"); }},
                    {"parameter as field", [](const Ptr& d) { d->getField("stringParam"); }}},
            "nested");
    finds(ctx, data, {"dummyParam", "getValue", "reflectableNested.getValue.x", "reflectableNested.getValue()"}, "object");
}
void utilUnion(Ctx& ctx)
{
    const to::ReflectableUtilUnion object = ob::reflectableUtilUnion(ctx, 1);
    const Ptr data = checkObject(ctx, object);
    if (object.index() == to::ReflectableUtilUnion::Tag::reflectableUtilObject)
    {
        const auto& util = object.get<to::ReflectableUtilUnion::Tag::reflectableUtilObject>();
        checkTable(ctx, data->find("reflectableUtilObject.reflectableUtilChoice.param"),
                acc::expectIntegral(static_cast<uint8_t>(util.choiceParam)), "param");
    }
}

// arrays with many elements, long texts and long binary data
void large(Ctx& ctx)
{
    const uint32_t place = ctx.choose(ob::largeCreatorPlaces + ob::largeWalkerPlaces);
    const uint32_t n = ctx.pick(ob::largeSizes(ctx.thorough()));
    const auto check = [&](const auto& object) {
        const View<std::decay_t<decltype(object)>> view(object);
        const std::string difference = treecmp::deep(introspectable(view), ob::treeOf(object));
        MC_REQUIRE(ctx, difference.empty(), "large", difference, " with ", n, " elements at place ", place);
        ctx.step();
        if (n < 130)
        {
            checkObject(ctx, object);
        }
    };
    if (place < ob::largeCreatorPlaces)
    {
        check(ob::largeCreator(place, n));
    }
    else
    {
        check(ob::largeWalker(place - ob::largeCreatorPlaces, n));
    }
    ctx.state(Ctx::mix(place, n));
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {
                    {"fixed-integers", fixedIntegers, 2},
                    {"other-scalars", otherScalars, 2},
                    {"items", items, 2},
                    {"sequences", sequences, 2},
                    {"arrays", arrays, 2},
                    {"reflectable-object", reflectableObject, 3},
                    {"util-union", utilUnion, 3},
                    {"walker", walker, 3},
                    {"creator", creator, 4},
                    {"large", large, 2},
            });
}
