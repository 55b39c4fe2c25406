// C20: the tree creator builds what the calls describe and refuses every other call without any effect.
// mc: level=model_checking opt=0 sources=std_test_object
#include <functional>
#include <limits>
#include <set>

#include "access.h"
#include "mc.h"
#include "objects.h"
#include "schema.h"
#include "treecmp.h"
#include "zserio/ReflectableUtil.h"
#include "zserio/TypeInfo.h"
#include "zserio/ZserioTreeCreator.h"

using mc::Ctx;
using mc::str;
using namespace zserio;
using obj::Node;
using namespace schema;
namespace to = ::test_object::std_allocator;
namespace ob = ::obj::std_allocator;

namespace
{

// ---------------------------------------------------------------- values

struct Value
{
    std::string name;
    std::function<void(ZserioTreeCreator&, const String&, bool)> set;
    std::function<void(ZserioTreeCreator&, bool)> add;
    std::function<bool(const std::string&, Node&)> convert; // null for setting null
};

template <typename T>
Value makeValue(const std::string& name, const T& value, std::function<bool(const std::string&, Node&)> convert)
{
    return {name,
            [value](ZserioTreeCreator& creator, const String& field, bool moved) {
                T copy = value;
                if (moved)
                {
                    creator.setValue(field, std::move(copy));
                }
                else
                {
                    creator.setValue(field, static_cast<const T&>(copy));
                }
            },
            [value](ZserioTreeCreator& creator, bool moved) {
                T copy = value;
                if (moved)
                {
                    creator.addValueElement(std::move(copy));
                }
                else
                {
                    creator.addValueElement(static_cast<const T&>(copy));
                }
            },
            std::move(convert)};
}
template <typename T>
Value integerValue(T value)
{
    bool negative = false;
    if constexpr (std::is_integral_v<T>)
    {
        negative = value < T(0);
    }
    const uint64_t u = static_cast<uint64_t>(value);
    return makeValue(str("integer of ", sizeof(T), " bytes ", negative ? std::to_string(static_cast<int64_t>(u)) : std::to_string(u)), value, integerConvert(negative, u));
}
template <typename T>
Value textValue(const char* kind, const T& value, const std::string& text)
{
    return makeValue(str(kind, " '", text, "'"), value, textConvert(text));
}

const std::vector<Value>& values()
{
    static const std::vector<Value> out = [] {
        std::vector<Value> v;
        v.push_back(makeValue("true", true, [](const std::string& type, Node& o) {
            o = obj::nodeBool(true);
            return type == "bool";
        }));
        v.push_back(makeValue("false", false, [](const std::string& type, Node& o) {
            o = obj::nodeBool(false);
            return type == "bool";
        }));
        v.push_back(makeValue("Bool(true)", Bool(true), [](const std::string& type, Node& o) {
            o = obj::nodeBool(true);
            return type == "bool";
        }));
        for (int i : {0, 1, -1, 2, 13, 127, 128, 255, 256, 65535, 65536, -128, -129, INT32_MAX, INT32_MIN})
        {
            v.push_back(integerValue(i));
        }
        v.push_back(integerValue(UINT32_MAX));
        v.push_back(integerValue(INT64_C(-1)));
        v.push_back(integerValue(INT64_MAX));
        v.push_back(integerValue(INT64_MIN));
        v.push_back(integerValue(INT64_C(0x100000000)));
        v.push_back(integerValue(UINT64_C(0x100000001)));
        v.push_back(integerValue(UINT64_C(0xffffffff)));
        v.push_back(integerValue(UINT64_MAX));
        v.push_back(integerValue(static_cast<int8_t>(-1)));
        v.push_back(integerValue(static_cast<uint8_t>(255)));
        v.push_back(integerValue(static_cast<int16_t>(1)));
        v.push_back(integerValue(static_cast<uint16_t>(256)));
        v.push_back(integerValue(UInt8(1)));
        v.push_back(integerValue(UInt32(UINT32_MAX)));
        v.push_back(integerValue(UInt64(UINT64_MAX)));
        v.push_back(integerValue(VarSize(3)));
        auto never = [](const std::string&, Node&) { return false; };
        v.push_back(makeValue("a double", 1.0, never));
        v.push_back(makeValue("a float", 1.0F, never));
        v.push_back(makeValue("a Float16", Float16(1.0F), never));
        v.push_back(makeValue("a Float64", Float64(1.0), never));
        for (const char* text : {"", "TWO", "ONE", "MinusOne", "two", "TWO ", "READ", "WRITE", "READ | WRITE", "WRITE|READ",
                     "READ  |WRITE", "READ | READ", "READ |", "READ WRITE", "READ  || WRITE", " READ", "READx", "EXECUTE", "READ | EXECUTE", "3", "0", "255",
                     "256", "5abc", "5 ", "5 | READ", "99999999999999999999", "-1", "4 /* no match */", "7 /* partial match: READ | WRITE */",
                     "_x", "|"})
        {
            v.push_back(textValue("literal", text, text));
            v.push_back(textValue("string", String(text), text));
            v.push_back(textValue("string view", std::string_view(text), text));
        }
        v.push_back(textValue("string", String(obj::longText()), obj::longText()));
        v.push_back(textValue("string view", std::string_view("a\0b", 3), std::string("a\0b", 3)));
        v.push_back(makeValue("bits", ob::bitBuffer("\xab\xc0", 11, {}), [](const std::string& type, Node& o) {
            o = ob::nodeBits(ob::bitBuffer("\xab\xc0", 11, {}));
            return type == "extern";
        }));
        v.push_back(makeValue("bytes", Bytes{{0, 255}}, [](const std::string& type, Node& o) {
            o = ob::nodeBytes(Bytes{{0, 255}});
            return type == "bytes";
        }));
        v.push_back(makeValue("enum TWO", to::CreatorEnum::TWO, [](const std::string& type, Node& o) {
            if (type != "CreatorEnum")
            {
                return false;
            }
            o = enumNode(type, 1);
            return true;
        }));
        v.push_back(makeValue("bitmask", to::CreatorBitmask(UInt8(6)), [](const std::string& type, Node& o) {
            if (type != "CreatorBitmask")
            {
                return false;
            }
            o = maskNode(type, 6);
            return true;
        }));
        v.push_back({"null", [](ZserioTreeCreator& creator, const String& field, bool) { creator.setValue(field, nullptr); },
                [](ZserioTreeCreator& creator, bool) { creator.addValueElement(nullptr); }, nullptr});
        return v;
    }();
    return out;
}

// ---------------------------------------------------------------- running both

struct Machine
{
    Machine(Ctx& c, const char* rootType, const ITypeInfo& info) :
            ctx(c),
            type(rootType),
            typeInfo(info),
            creator(info),
            model(rootType)
    {}

    void expect(bool good, const std::string& what, const std::function<void()>& operation)
    {
        history += what + "; ";
        ctx.step();
        const std::string result = acc::outcome([&] {
            operation();
            return std::string("done");
        });
        MC_REQUIRE(ctx, result == (good ? "done" : "refused"), "call", result, ": ", history);
        std::string state = type;
        for (const Frame& frame : model.stack())
        {
            state += "/" + frame.node->name + (frame.isArray ? "[" : "") + str(frame.node->children.size());
        }
        ctx.state(state);
    }
    void beginRoot()
    {
        expect(model.beginRoot(), "beginRoot", [&] { creator.beginRoot(); });
    }
    void endRoot()
    {
        IReflectableDataPtr data;
        const bool good = model.endRoot();
        expect(good, "endRoot", [&] { data = creator.endRoot(); });
        if (good)
        {
            compare(data);
        }
    }
    void compare(const IReflectableDataPtr& data)
    {
        MC_REQUIRE(ctx, data != nullptr, "null", "null after ", history);
        const std::string difference = treecmp::deep(data, model.root());
        MC_REQUIRE(ctx, difference.empty(), "built", difference, " after ", history);
        bool same = true;
        if (type == "CreatorObject")
        {
            same = sameNode(ob::treeOf(ReflectableUtil::getValue<to::CreatorObject>(data)), model.root());
        }
        else if (type == "WalkerObject")
        {
            same = sameNode(ob::treeOf(ReflectableUtil::getValue<to::WalkerObject>(data)), model.root());
        }
        MC_REQUIRE(ctx, same, "built", "the object differs after ", history);
        ++compared;
    }
    void beginArray(const std::string& name)
    {
        expect(model.beginArray(name), "beginArray " + name, [&] { creator.beginArray(name); });
    }
    void endArray()
    {
        expect(model.endArray(), "endArray", [&] { creator.endArray(); });
    }
    void beginCompound(const std::string& name)
    {
        expect(model.beginCompound(name), "beginCompound " + name, [&] { creator.beginCompound(name); });
    }
    void endCompound()
    {
        expect(model.endCompound(), "endCompound", [&] { creator.endCompound(); });
    }
    void beginElement()
    {
        expect(model.beginElement(), "beginCompoundElement", [&] { creator.beginCompoundElement(); });
    }
    void endElement()
    {
        expect(model.endElement(), "endCompoundElement", [&] { creator.endCompoundElement(); });
    }
    void set(const std::string& name, const Value& value, bool moved)
    {
        expect(model.set(name, value.convert), str("setValue ", name, " ", value.name),
                [&] { value.set(creator, name, moved); });
    }
    void add(const Value& value, bool moved)
    {
        expect(model.add(value.convert), str("addValueElement ", value.name), [&] { value.add(creator, moved); });
    }
    void fieldType(const std::string& name)
    {
        const std::string expectedType = model.fieldType(name);
        std::string shown;
        expect(!expectedType.empty(), "getFieldType " + name,
                [&] { shown = treecmp::lastPart(creator.getFieldType(name).getSchemaName()); });
        MC_REQUIRE(ctx, shown == expectedType, "field-type", "field type ", shown, " instead of ", expectedType, " after ", history);
    }
    void elementType()
    {
        const std::string expectedType = model.elementType();
        std::string shown;
        expect(!expectedType.empty(), "getElementType",
                [&] { shown = treecmp::lastPart(creator.getElementType().getSchemaName()); });
        MC_REQUIRE(ctx, shown == expectedType, "element-type", "element type ", shown, " instead of ", expectedType, " after ", history);
    }
    // completes whatever is open
    void finish()
    {
        while (!model.stack().empty())
        {
            const Frame& frame = model.stack().back();
            if (frame.isArray)
            {
                endArray();
            }
            else if (frame.isElement)
            {
                endElement();
            }
            else if (model.stack().size() > 1)
            {
                endCompound();
            }
            else
            {
                endRoot();
            }
        }
    }

    Ctx& ctx;
    std::string type;
    const ITypeInfo& typeInfo;
    ZserioTreeCreator creator;
    Model model;
    std::string history;
    size_t compared = 0;
};

const Value& valueNamed(const std::string& name)
{
    for (const Value& value : values())
    {
        if (value.name == name)
        {
            return value;
        }
    }
    throw std::logic_error("no value " + name);
}

using Call = std::function<void(Machine&)>;
Call set(const char* name, const char* value, bool moved = false)
{
    const Value& v = valueNamed(value);
    return [name, &v, moved](Machine& m) { m.set(name, v, moved); };
}
Call add(const char* value, bool moved = false)
{
    const Value& v = valueNamed(value);
    return [&v, moved](Machine& m) { m.add(v, moved); };
}
Call beginArray(const char* name)
{
    return [name](Machine& m) { m.beginArray(name); };
}
Call beginCompound(const char* name)
{
    return [name](Machine& m) { m.beginCompound(name); };
}
Call fieldType(const char* name)
{
    return [name](Machine& m) { m.fieldType(name); };
}
const std::vector<Call>& structural()
{
    static const std::vector<Call> out = {[](Machine& m) { m.beginRoot(); }, [](Machine& m) { m.endRoot(); },
            [](Machine& m) { m.endArray(); }, [](Machine& m) { m.endCompound(); }, [](Machine& m) { m.beginElement(); },
            [](Machine& m) { m.endElement(); }, [](Machine& m) { m.elementType(); }};
    return out;
}

struct Root
{
    const char* type;
    const ITypeInfo& info;
    std::vector<std::vector<Call>> prefixes;
    std::vector<Call> calls;
    std::vector<std::string> names;
};

const std::vector<Root>& roots()
{
    static const std::vector<Root> out = [] {
        const Call root = [](Machine& m) { m.beginRoot(); };
        const Call element = [](Machine& m) { m.beginElement(); };
        const Call endElement = [](Machine& m) { m.endElement(); };
        const Call endArray = [](Machine& m) { m.endArray(); };
        std::vector<Root> r;
        r.push_back({"CreatorObject", typeInfo<to::CreatorObject>(),
                {{}, {root}, {root, beginCompound("nested")}, {root, beginCompound("optionalNested"), set("value", "integer of 4 bytes 13")},
                        {root, beginArray("nestedArray")}, {root, beginArray("nestedArray"), element},
                        {root, beginArray("nestedArray"), element, set("value", "integer of 4 bytes 13"), endElement, element},
                        {root, beginArray("textArray"), add("literal 'TWO'")}, {root, beginArray("externArray")},
                        {root, beginArray("bytesArray"), add("bytes"), endArray}},
                {beginArray("nestedArray"), beginArray("textArray"), beginArray("externArray"), beginArray("bytesArray"),
                        beginArray("nested"), beginArray("text"), beginArray("nope"), beginCompound("nested"),
                        beginCompound("optionalNested"), beginCompound("nestedArray"), beginCompound("value"), beginCompound(""),
                        set("value", "integer of 4 bytes 13"), set("value", "integer of 8 bytes 4294967297"),
                        set("value", "literal '3'"), set("value", "null"), set("text", "string 'ONE'", true),
                        set("text", "integer of 4 bytes 1"), set("optionalBool", "true"), set("optionalBool", "null"),
                        set("optionalBool", "integer of 4 bytes 1"), set("optionalNested", "null"), set("nested", "null"),
                        set("textArray", "null"), set("externArray", "null"), set("textArray", "literal '0'"),
                        set("creatorEnum", "literal 'TWO'"), set("creatorEnum", "literal 'two'"),
                        set("creatorBitmask", "string 'READ | WRITE'"), set("externData", "bits", true),
                        set("bytesData", "bytes", true), set("nope", "null"), add("literal 'TWO'"), add("string 'ONE'", true),
                        add("integer of 4 bytes 1"), add("bits", true), add("bytes", true), fieldType("nested"),
                        fieldType("nestedArray"), fieldType("creatorEnum"), fieldType("nope")},
                {"value", "nested", "text", "nestedArray", "textArray", "externArray", "optionalBool", "optionalNested",
                        "externData", "bytesData", "creatorEnum", "creatorBitmask", "", "nope", "nested.value"}});
        r.push_back({"WalkerObject", typeInfo<to::WalkerObject>(),
                {{root}, {root, beginCompound("choiceField")}, {root, beginArray("unionArray")},
                        {root, beginArray("unionArray"), element}, {root, beginArray("unionArray"), element, set("text", "literal 'ONE'")},
                        {root, beginArray("optionalUnionArray"), element, beginArray("nestedArray")},
                        {root, beginArray("unionArray"), element, beginArray("nestedArray"), element, set("text", "literal 'TWO'")}},
                {beginArray("unionArray"), beginArray("optionalUnionArray"), beginArray("nestedArray"), beginArray("nested"),
                        beginArray("value"), beginCompound("nested"), beginCompound("choiceField"), beginCompound("text"),
                        beginCompound("nestedArray"), set("value8", "integer of 4 bytes 255"), set("value8", "integer of 4 bytes 256"),
                        set("value16", "integer of 4 bytes 65535"), set("value32", "null"), set("value64", "integer of 8 bytes 18446744073709551615"),
                        set("value", "integer of 4 bytes 13"), set("value", "integer of 4 bytes -1"), set("text", "literal 'ONE'"),
                        set("text", "null"), set("nestedArray", "null"), set("nested", "null"), set("optionalUnionArray", "null"),
                        set("choiceField", "null"), set("identifier", "integer of 4 bytes 1"), set("nope", "true"), add("literal 'TWO'"),
                        add("integer of 4 bytes 1"), fieldType("choiceField"), fieldType("nestedArray"), fieldType("value8")},
                {"identifier", "nested", "text", "unionArray", "choiceSelector", "choiceField", "value8", "value16", "value32",
                        "value64", "value", "nestedArray"}});
        r.push_back({"ReflectableUtilUnion", typeInfo<to::ReflectableUtilUnion>(),
                {{root}, {root, beginCompound("reflectableUtilObject")},
                        {root, beginCompound("reflectableUtilObject"), beginCompound("reflectableUtilChoice")},
                        {root, beginCompound("reflectableUtilObject"), beginCompound("reflectableUtilChoice"), beginArray("array")}},
                {beginCompound("reflectableUtilObject"), beginCompound("reflectableUtilChoice"), beginCompound("reflectableUtilEnum"),
                        beginArray("array"), beginArray("reflectableUtilObject"), set("reflectableUtilEnum", "literal 'TWO'"),
                        set("reflectableUtilEnum", "integer of 4 bytes 2"), set("reflectableUtilBitmask", "literal 'WRITE|READ'"),
                        set("reflectableUtilBitmask", "null"), set("reflectableUtilObject", "null"), set("choiceParam", "integer of 4 bytes 1"),
                        set("array", "null"), set("reflectableUtilChoice", "null"), add("integer of 4 bytes 13"),
                        add("integer of 4 bytes -1"), add("literal '3'"), fieldType("array")},
                {"reflectableUtilEnum", "reflectableUtilBitmask", "reflectableUtilObject", "choiceParam",
                        "reflectableUtilChoice", "array"}});
        for (Root& entry : r)
        {
            entry.calls.insert(entry.calls.end(), structural().begin(), structural().end());
        }
        return r;
    }();
    return out;
}

void start(Machine& machine, const Root& root)
{
    for (const Call& call : machine.ctx.pick(root.prefixes))
    {
        call(machine);
    }
}

// every sequence of calls from every place, then a valid completion
void sequences(Ctx& ctx)
{
    const Root& root = ctx.pick(roots());
    Machine machine(ctx, root.type, root.info);
    start(machine, root);
    const uint32_t depth = (machine.model.stack().size() < 2 ? 3 : 2) + (ctx.thorough() ? 1 : 0);
    for (uint32_t i = 0; i < depth; ++i)
    {
        root.calls[ctx.choose(static_cast<uint32_t>(root.calls.size()))](machine);
    }
    machine.finish();
}

// every value for every field and for elements at every place, twice (overwriting), then a valid completion
void everyValue(Ctx& ctx)
{
    const Root& root = ctx.pick(roots());
    Machine machine(ctx, root.type, root.info);
    start(machine, root);
    const uint32_t which = ctx.choose(static_cast<uint32_t>(root.names.size()) + 1);
    const bool moved = ctx.flip();
    const uint32_t before = ctx.choose(3);
    const Value& value = ctx.pick(values());
    for (uint32_t round = 0; round < 2; ++round)
    {
        if (which < root.names.size())
        {
            if (round == 0 && before == 1)
            {
                machine.set(root.names[which], valueNamed("null"), false);
            }
            else if (round == 0 && before == 2)
            {
                machine.set(root.names[which], valueNamed("integer of 4 bytes 1"), false);
            }
            machine.set(root.names[which], value, moved);
        }
        else
        {
            machine.add(value, moved);
        }
        if (before != 0)
        {
            break;
        }
    }
    machine.finish();
}

// one creator builds objects one after the other; what it returned stays as it was
void several(Ctx& ctx)
{
    const Root& root = ctx.pick(roots());
    Machine machine(ctx, root.type, root.info);
    std::vector<std::pair<IReflectableDataPtr, Node>> built;
    for (uint32_t round = 0; round < 2; ++round)
    {
        machine.beginRoot();
        for (uint32_t i = 0; i < (round == 0 || ctx.thorough() ? 2U : 1U); ++i)
        {
            root.calls[ctx.choose(static_cast<uint32_t>(root.calls.size()))](machine);
        }
        if (machine.model.stack().empty())
        {
            ctx.skip();
        }
        while (machine.model.stack().size() > 1)
        {
            const Frame frame = machine.model.stack().back();
            if (frame.isArray)
            {
                machine.endArray();
            }
            else if (frame.isElement)
            {
                machine.endElement();
            }
            else
            {
                machine.endCompound();
            }
        }
        machine.model.endRoot();
        built.emplace_back(machine.creator.endRoot(), machine.model.root());
        for (const auto& one : built)
        {
            const std::string difference = treecmp::deep(one.first, one.second);
            MC_REQUIRE(ctx, difference.empty(), "built", difference, " after ", machine.history);
        }
    }
}

// large objects: every call that describes them is accepted and gives exactly them
void describe(ZserioTreeCreator& creator, const Node& node)
{
    const auto leaf = [](const Node& n, auto&& use) {
        switch (n.kind)
        {
        case Node::BOOL:
            return use(n.u != 0);
        case Node::UNSIGNED:
            return use(n.u);
        case Node::SIGNED:
            return use(n.i);
        case Node::STRING:
            return use(String(n.text));
        case Node::BYTES:
            return use(Bytes(n.text.begin(), n.text.end()));
        case Node::BITS:
            return use(ob::bitBuffer(n.text, n.bits, {}));
        case Node::ENUM:
            return use(String(n.text));
        default:
            return use(n.u); // bitmask
        }
    };
    for (const Node& child : node.children)
    {
        if (node.isChoice && child.name != node.chosen)
        {
            continue;
        }
        const String name(child.name);
        if (child.kind == Node::NUL)
        {
            creator.setValue(name, nullptr);
        }
        else if (child.kind == Node::ARRAY)
        {
            creator.beginArray(name);
            for (const Node& element : child.children)
            {
                if (element.kind == Node::COMPOUND)
                {
                    creator.beginCompoundElement();
                    describe(creator, element);
                    creator.endCompoundElement();
                }
                else
                {
                    leaf(element, [&](auto&& value) { creator.addValueElement(value); });
                }
            }
            creator.endArray();
        }
        else if (child.kind == Node::COMPOUND)
        {
            creator.beginCompound(name);
            describe(creator, child);
            creator.endCompound();
        }
        else
        {
            leaf(child, [&](auto&& value) { creator.setValue(name, value); });
        }
    }
}

void large(Ctx& ctx)
{
    const uint32_t place = ctx.choose(ob::largeCreatorPlaces + ob::largeWalkerPlaces);
    const uint32_t n = ctx.pick(ob::largeSizes(ctx.thorough()));
    const auto check = [&](const auto& object) {
        using T = std::decay_t<decltype(object)>;
        const Node tree = ob::treeOf(object);
        ZserioTreeCreator creator(typeInfo<T>());
        IReflectableDataPtr data;
        const std::string result = acc::outcome([&] {
            creator.beginRoot();
            describe(creator, tree);
            data = creator.endRoot();
            return std::string("done");
        });
        MC_REQUIRE(ctx, result == "done", "large", result, " with ", n, " elements at place ", place);
        const std::string difference = treecmp::deep(data, tree);
        MC_REQUIRE(ctx, difference.empty(), "large", difference, " with ", n, " elements at place ", place);
        MC_REQUIRE(ctx, ReflectableUtil::getValue<T>(data) == object, "large", "another object with ", n, " elements at place ", place);
        ctx.step(n);
        ctx.state(str(place, ",", n));
    };
    if (place < ob::largeCreatorPlaces)
    {
        check(ob::largeCreator(place, n));
    }
    else
    {
        check(ob::largeWalker(place - ob::largeCreatorPlaces, n));
    }
}

// ---------------------------------------------------------------- every value for every simple type

struct Source
{
    std::string name;
    char kind; // b: boolean, i: integer, f: floating point, s: text, -: anything else
    __int128 integer;
    double real;
    std::string text;
    std::function<Any(const ITypeInfo&, bool)> make;
};

template <typename T>
Source source(const std::string& name, char kind, const T& value, __int128 integer, double real, const std::string& text)
{
    return {name, kind, integer, real, text, [value](const ITypeInfo& info, bool moved) {
                T copy = value;
                if (moved)
                {
                    return zserio::detail::makeAnyValue(info, std::move(copy), std::allocator<uint8_t>());
                }
                return zserio::detail::makeAnyValue(info, static_cast<const T&>(copy), std::allocator<uint8_t>());
            }};
}

template <typename T>
void integers(std::vector<Source>& out, const char* type)
{
    using V = std::conditional_t<is_numeric_wrapper_v<T>, typename std::conditional_t<is_numeric_wrapper_v<T>, T, UInt8>::ValueType, T>;
    using N = std::conditional_t<std::is_integral_v<V>, V, int64_t>;
    using L = std::numeric_limits<N>;
    std::set<N> numbers = {N(0), N(1), L::min(), L::max()};
    for (int bit = 6; bit < 64; ++bit)
    {
        for (int d = -1; d <= 1; ++d)
        {
            for (int sign : {1, -1})
            {
                const __int128 v = ((static_cast<__int128>(1) << bit) + d) * sign;
                if (v >= static_cast<__int128>(L::min()) && v <= static_cast<__int128>(L::max()) && (bit % 8 == 7 || bit % 8 == 0 || bit == 6))
                {
                    numbers.insert(static_cast<N>(v));
                }
            }
        }
    }
    for (const N n : numbers)
    {
        const std::string text = L::is_signed ? std::to_string(static_cast<int64_t>(n)) : std::to_string(static_cast<uint64_t>(n));
        out.push_back(source(str(type, " ", text), 'i', T(static_cast<V>(n)), static_cast<__int128>(n), static_cast<double>(n), ""));
    }
}

template <typename T>
void reals(std::vector<Source>& out, const char* type)
{
    for (const double value : {0.0, -0.0, 1.0, -1.5, 0.25, 65504.0, 16777216.0, -1.0 / 0.0})
    {
        out.push_back(source(str(type, " ", value), 'f', T(static_cast<float>(value)), 0, value, ""));
    }
}

const std::vector<Source>& sources()
{
    static const std::vector<Source> out = [] {
        std::vector<Source> v;
        for (const bool value : {false, true})
        {
            v.push_back(source(str("bool ", value), 'b', value, value ? 1 : 0, 0, ""));
            v.push_back(source(str("Bool ", value), 'b', Bool(value), value ? 1 : 0, 0, ""));
        }
        integers<int8_t>(v, "int8_t");
        integers<uint8_t>(v, "uint8_t");
        integers<int16_t>(v, "int16_t");
        integers<uint16_t>(v, "uint16_t");
        integers<int32_t>(v, "int32_t");
        integers<uint32_t>(v, "uint32_t");
        integers<int64_t>(v, "int64_t");
        integers<uint64_t>(v, "uint64_t");
        integers<Int16>(v, "Int16");
        integers<UInt64>(v, "UInt64");
        integers<VarInt>(v, "VarInt");
        integers<VarSize>(v, "VarSize");
        integers<DynInt32>(v, "DynInt32");
        reals<float>(v, "float");
        reals<double>(v, "double");
        reals<Float16>(v, "Float16");
        reals<Float32>(v, "Float32");
        reals<Float64>(v, "Float64");
        for (const char* text : {"", "1", "true", "text"})
        {
            v.push_back(source(str("literal ", text), 's', text, 0, 0, text));
            v.push_back(source(str("view ", text), 's', std::string_view(text), 0, 0, text));
            v.push_back(source(str("string ", text), 's', String(text), 0, 0, text));
        }
        v.push_back(source("bits", '-', BitBuffer(std::vector<uint8_t>{0xAB}, 7), 0, 0, ""));
        v.push_back(source("bytes", '-', Bytes{1, 2}, 0, 0, ""));
        v.push_back(source("null", '-', nullptr, 0, 0, ""));
        return v;
    }();
    return out;
}

struct Simple
{
    const char* name;
    const ITypeInfo* info;
    std::function<std::string(const Any&)> show; // what is held
    std::function<std::string(const Source&)> expected; // refused when it does not fit
};

template <typename N>
std::string heldInteger(const Any& any)
{
    return any.isType<N>() ? str("number ", std::to_string(any.get<N>())) : std::string("another type");
}
template <typename N>
std::string expectedInteger(const Source& from)
{
    using L = std::numeric_limits<N>;
    if (from.kind != 'i' || from.integer < static_cast<__int128>(L::min()) || from.integer > static_cast<__int128>(L::max()))
    {
        return "refused";
    }
    return str("number ", std::to_string(static_cast<N>(from.integer)));
}
template <typename N>
std::string heldReal(const Any& any)
{
    return any.isType<N>() ? str("real ", acc::real(any.get<N>())) : std::string("another type");
}
template <typename N>
std::string expectedReal(const Source& from)
{
    if (from.kind == 'i')
    {
        // the integer is converted once
        const N value = from.integer < 0 ? static_cast<N>(static_cast<int64_t>(from.integer)) : static_cast<N>(static_cast<uint64_t>(from.integer));
        return str("real ", acc::real(value));
    }
    return from.kind == 'f' ? str("real ", acc::real(static_cast<N>(from.real))) : std::string("refused");
}
template <typename T, typename N>
Simple integerType(const char* name)
{
    return {name, &typeInfo<T>(), heldInteger<N>, expectedInteger<N>};
}
template <typename T, typename N>
Simple realType(const char* name)
{
    return {name, &typeInfo<T>(), heldReal<N>, expectedReal<N>};
}

const std::vector<Simple>& simples()
{
    static const std::vector<Simple> out = {
            {"Bool", &typeInfo<Bool>(), [](const Any& any) { return any.isType<bool>() ? str("bool ", any.get<bool>()) : std::string("another type"); },
                    [](const Source& from) { return from.kind == 'b' ? str("bool ", from.integer != 0) : std::string("refused"); }},
            integerType<Int5, int8_t>("Int5"), integerType<Int8, int8_t>("Int8"), integerType<UInt1, uint8_t>("UInt1"), integerType<UInt8, uint8_t>("UInt8"),
            integerType<Int9, int16_t>("Int9"), integerType<Int16, int16_t>("Int16"), integerType<UInt16, uint16_t>("UInt16"), integerType<Int17, int32_t>("Int17"),
            integerType<Int32, int32_t>("Int32"), integerType<UInt32, uint32_t>("UInt32"), integerType<Int33, int64_t>("Int33"), integerType<Int64, int64_t>("Int64"),
            integerType<UInt64, uint64_t>("UInt64"), integerType<VarInt16, int16_t>("VarInt16"), integerType<VarUInt16, uint16_t>("VarUInt16"),
            integerType<VarInt32, int32_t>("VarInt32"), integerType<VarUInt32, uint32_t>("VarUInt32"), integerType<VarInt64, int64_t>("VarInt64"),
            integerType<VarUInt64, uint64_t>("VarUInt64"), integerType<VarInt, int64_t>("VarInt"), integerType<VarUInt, uint64_t>("VarUInt"),
            integerType<VarSize, uint32_t>("VarSize"), integerType<DynInt8, int8_t>("DynInt8"), integerType<DynUInt16, uint16_t>("DynUInt16"),
            integerType<DynInt32, int32_t>("DynInt32"), integerType<DynUInt64, uint64_t>("DynUInt64"), realType<Float16, float>("Float16"),
            realType<Float32, float>("Float32"), realType<Float64, double>("Float64"),
            {"String", &typeInfo<String>(), [](const Any& any) { return any.isType<String>() ? str("text ", std::string(any.get<String>().data(), any.get<String>().size())) : std::string("another type"); },
                    [](const Source& from) { return from.kind == 's' ? str("text ", from.text) : std::string("refused"); }}};
    return out;
}

void conversions(Ctx& ctx)
{
    const Simple& to = simples()[ctx.choose(static_cast<uint32_t>(simples().size()))];
    const Source& from = sources()[ctx.choose(static_cast<uint32_t>(sources().size()))];
    const bool moved = ctx.flip();
    ctx.note(str(from.name, " for a ", to.name));
    ctx.step();
    const std::string held = acc::outcome([&] { return to.show(from.make(*to.info, moved)); });
    MC_REQUIRE(ctx, held == to.expected(from), "conversion", from.name, " for a ", to.name, " gives ", held, " instead of ", to.expected(from));
    ctx.state(str(to.name, from.name));
    if (ctx.wantSample())
    {
        ctx.sample(str(from.name, " for a ", to.name, " gives ", held));
    }
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {
                    {"every-value", everyValue, 4},
                    {"several", several, 3},
                    {"large", large, 2},
                    {"sequences", sequences, 4},
                    {"conversions", conversions, 2},
            });
}
