// C30: operations on generated objects of one allocator flavour, every allocation of each failing in turn; OBJ_NS is
// the flavour, see harness/C30.cpp

namespace
{
namespace OBJ_NS
{

namespace o = obj::OBJ_NS;
namespace to = o::to;
using Alloc = o::Alloc;
using Kit = tr30::Kit<Alloc>;
using tr30::Probe;
using Text = zserio::BasicString<zserio::RebindAlloc<Alloc, char>>;

template <typename T>
void usable(Ctx& ctx, T& target, const T& other, const char* op)
{
    MC_REQUIRE(ctx, target == target, "usable", op, ": an object is not equal to itself");
    target = other;
    MC_REQUIRE(ctx, target == other, "usable", op, ": assigning to the object does not make it equal");
}

// construction, copies, moves and assignments between arenas
template <typename T>
void values(Ctx& ctx, const T& source)
{
    const Alloc a1 = Kit::make(1);
    const Alloc a2 = Kit::make(2);
    Probe::every(ctx, "copy with allocator", [&](Probe& p) {
        std::optional<T> made;
        p.region(Kit::only(2), [&] { made.emplace(source, a2); });
        if (p.ok)
        {
            MC_REQUIRE(ctx, *made == source, "copy", "another value");
            p.region(0, [&] { made.reset(); });
        }
    });
    Probe::every(ctx, "copy of a copy", [&](Probe& p) {
        std::optional<T> made;
        made.emplace(source, a2);
        p.region(Kit::only(Kit::copied(2)), [&] {
            T copy(*made);
            made.emplace(copy, a2);
        }, Kit::only(2));
        if (p.ok)
        {
            MC_REQUIRE(ctx, *made == source, "copy", "another value");
        }
    });
    for (const int target : {1, 2})
    {
        Probe::every(ctx, target == 1 ? "move with the same allocator" : "move with another allocator", [&](Probe& p) {
            std::optional<T> from(std::in_place, source, a1);
            std::optional<T> made;
            p.region(Kit::only(target), [&] { made.emplace(std::move(*from), target == 1 ? a1 : a2); });
            if (p.ok)
            {
                from.reset();
                MC_REQUIRE(ctx, *made == source, "move", "another value");
                p.expectHeld(target, "the moved object");
            }
            else
            {
                usable(ctx, *from, source, "move with allocator");
            }
        });
    }
    Probe::every(ctx, "move", [&](Probe& p) {
        std::optional<T> from(std::in_place, source, a1);
        std::optional<T> made;
        p.region(Kit::only(1), [&] { made.emplace(std::move(*from)); });
        if (p.ok)
        {
            from.reset();
            MC_REQUIRE(ctx, *made == source, "move", "another value");
            p.expectHeld(1, "the moved object");
        }
    });
    for (const bool full : {false, true})
    {
        Probe::every(ctx, full ? "assign over" : "assign", [&](Probe& p) {
            std::optional<T> from(std::in_place, source, a1);
            std::optional<T> made;
            full ? made.emplace(source, a2) : made.emplace(a2);
            p.region(Kit::only(Kit::assigned(2, 1)), [&] { *made = *from; });
            if (p.ok)
            {
                MC_REQUIRE(ctx, *made == source, "assign", "another value");
                from.reset();
                p.expectHeld(Kit::assigned(2, 1), "the assigned object");
                MC_REQUIRE(ctx, *made == source, "assign", "the value depends on where it came from");
            }
            else
            {
                MC_REQUIRE(ctx, *from == source, "assign-source", "a failed assignment changes its source");
                usable(ctx, *made, source, "assign");
            }
        });
        Probe::every(ctx, full ? "move assign over" : "move assign", [&](Probe& p) {
            std::optional<T> from(std::in_place, source, a1);
            std::optional<T> made;
            full ? made.emplace(source, a2) : made.emplace(a2);
            p.region(Kit::only(Kit::assigned(2, 1)), [&] { *made = std::move(*from); });
            if (p.ok)
            {
                MC_REQUIRE(ctx, *made == source, "move-assign", "another value");
                from.reset();
                p.expectHeld(Kit::assigned(2, 1), "the move assigned object");
            }
            else
            {
                usable(ctx, *from, source, "move assign source");
                usable(ctx, *made, source, "move assign");
            }
        });
    }
    Probe::every(ctx, "type information instance", [&](Probe& p) {
        p.region(Kit::only(2), [&] { auto made = zserio::typeInfo<T>().createInstance(a2); });
    });
}

template <typename T>
void streams(Ctx& ctx, const T& source)
{
    const Alloc a1 = Kit::make(1);
    const Alloc a2 = Kit::make(2);
    const auto buffer = zserio::serialize(source, a1);
    Probe::every(ctx, "serialize", [&](Probe& p) {
        p.region(Kit::only(2), [&] {
            const auto made = zserio::serialize(source, a2);
            MC_REQUIRE(ctx, made == buffer, "serialize", "another buffer");
        });
    });
    Probe::every(ctx, "serialize to bytes", [&](Probe& p) {
        p.region(Kit::only(2), [&] {
            const auto made = zserio::serializeToBytes(source, a2);
            MC_REQUIRE(ctx, made.size() == (buffer.getBitSize() + 7) / 8, "serialize", "other bytes");
        });
    });
    for (const bool preallocate : {false, true})
    {
        Probe::every(ctx, "deserialize", [&](Probe& p) {
            std::optional<T> made(std::in_place, a2);
            p.region(Kit::only(2), [&] {
                preallocate ? (void)zserio::deserialize(buffer, zserio::ArrayPreallocation(1000), *made)
                            : (void)zserio::deserialize(buffer, *made);
            });
            if (p.ok)
            {
                MC_REQUIRE(ctx, *made == source, "deserialize", "another object");
                p.expectHeld(2, "the deserialized object");
            }
            else
            {
                (void)zserio::deserialize(buffer, *made);
                MC_REQUIRE(ctx, *made == source, "deserialize", "another object after a failure");
            }
        });
    }
    Probe::every(ctx, "deserialize over", [&](Probe& p) {
        std::optional<T> made(std::in_place, source, a2);
        p.region(Kit::only(2), [&] { (void)zserio::deserialize(buffer, *made); });
        if (!p.ok)
        {
            (void)zserio::deserialize(buffer, *made);
        }
        MC_REQUIRE(ctx, *made == source, "deserialize", "another object");
    });
}

// visits everything below a reflectable or introspectable
template <typename PTR>
uint32_t visitAll(const PTR& node, const Alloc& a)
{
    if (node == nullptr)
    {
        return 1;
    }
    uint32_t count = 1;
    if (node->isArray())
    {
        for (size_t i = 0; i < node->size(); ++i)
        {
            count += visitAll(node->at(i), a);
        }
        return count;
    }
    const auto& info = node->getTypeInfo();
    if (zserio::TypeInfoUtil::isCompound(info.getCppType()))
    {
        if (zserio::TypeInfoUtil::hasChoice(info.getCppType()))
        {
            const auto chosen = node->getChoice();
            return chosen.empty() ? count : count + visitAll(node->getField(chosen), a);
        }
        for (const auto& field : info.getFields())
        {
            count += visitAll(node->getField(field.schemaName), a);
            count += visitAll(node->find(field.schemaName), a);
        }
        if constexpr (tr30::has_functions<PTR>::value)
        {
            for (const auto& parameter : info.getParameters())
            {
                count += visitAll(node->getParameter(parameter.schemaName), a);
            }
            for (const auto& function : info.getFunctions())
            {
                count += visitAll(node->callFunction(function.schemaName), a);
            }
        }
        return count;
    }
    const auto value = node->getAnyValue(a);
    count += value.hasValue() ? 1 : 0;
    switch (info.getSchemaType())
    {
    case zserio::SchemaType::STRING:
        count += static_cast<uint32_t>(node->toString(a).size());
        break;
    case zserio::SchemaType::ENUM:
    case zserio::SchemaType::BITMASK:
        count += static_cast<uint32_t>(node->toString(a).size());
        break;
    default:
        break;
    }
    return count;
}

// the value of a leaf as its own type
template <typename PTR>
zserio::BasicAny<Alloc> anyOf(const PTR& node, const Alloc& a)
{
    using Any = zserio::BasicAny<Alloc>;
    switch (node->getTypeInfo().getCppType())
    {
    case zserio::CppType::STRING:
        return Any(Text(node->getStringView(), a), a);
    case zserio::CppType::BYTES: {
        const auto bytes = node->getBytes();
        return Any(o::BytesT(bytes.begin(), bytes.end(), a), a);
    }
    case zserio::CppType::BIT_BUFFER:
        return Any(o::BitBufferT(node->getBitBuffer(), a), a);
    default:
        return node->getAnyValue(a);
    }
}

template <typename T>
void reflection(Ctx& ctx, const T& source)
{
    const Alloc a1 = Kit::make(1);
    const Alloc a2 = Kit::make(2);
    uint32_t visited = 0;
    Probe::every(ctx, "const reflection", [&](Probe& p) {
        p.region(Kit::only(2), [&] { visited = visitAll(zserio::reflectable(source, a2), a2); });
    });
    T copy(source, a1);
    Probe::every(ctx, "reflection", [&](Probe& p) {
        uint32_t again = 0;
        p.region(Kit::only(2), [&] { again = visitAll(zserio::reflectable(copy, a2), a2); });
        MC_REQUIRE(ctx, !p.ok || again == visited, "reflection-visits", again, " not ", visited);
    });
    const zserio::View<T> view(source);
    Probe::every(ctx, "introspection", [&](Probe& p) {
        uint32_t again = 0;
        p.region(Kit::only(2), [&] { again = visitAll(zserio::introspectable(view, a2), a2); });
        (void)again;
    });
    // every field created and set to the value of the source
    const auto& info = zserio::typeInfo<T>();
    for (const auto& field : info.getFields())
    {
        Probe::every(ctx, "create field", [&](Probe& p) {
            std::optional<T> made(std::in_place, a2);
            auto reflected = zserio::reflectable(*made, a1);
            decltype(reflected) created;
            p.region(Kit::any(1, 2), [&] {
                created = reflected->createField(field.schemaName);
                if (field.isArray)
                {
                    created->resize(2);
                    (void)created->at(1);
                }
            });
            created.reset();
            usable(ctx, *made, source, "create field");
        });
        const auto shown = zserio::reflectable(source, a1);
        if (zserio::TypeInfoUtil::hasChoice(info.getCppType()) && shown->getChoice() != field.schemaName)
        {
            continue;
        }
        const auto value = shown->getField(field.schemaName);
        if (value && (field.isArray || !zserio::TypeInfoUtil::isCompound(field.typeInfo.getCppType())))
        {
            Probe::every(ctx, "set field", [&](Probe& p) {
                std::optional<T> made(std::in_place, a2);
                auto reflected = zserio::reflectable(*made, a1);
                if (field.isArray)
                {
                    auto target = reflected->createField(field.schemaName);
                    const bool compound = zserio::TypeInfoUtil::isCompound(field.typeInfo.getCppType());
                    p.region(Kit::any(1, 2) | Kit::only(Kit::copied(2)), [&] {
                        for (size_t i = 0; i < value->size(); ++i)
                        {
                            if (compound)
                            {
                                target->resize(i + 1);
                            }
                            else
                            {
                                target->append(anyOf(value->at(i), a2));
                                target->setAt(anyOf(value->at(i), a2), i);
                            }
                        }
                    });
                    p.expectNothingIn(0, "the object with the array");
                    MC_REQUIRE(ctx, !p.ok || target->size() == value->size(), "append", "another length");
                }
                else
                {
                    // plain copies of polymorphic values are made with the default resource
                    p.region(Kit::any(1, 2) | Kit::only(Kit::copied(2)),
                            [&] { reflected->setField(field.schemaName, anyOf(value, a2)); });
                    p.expectNothingIn(0, "the object with the field");
                }
                usable(ctx, *made, source, "set field");
            });
        }
    }
}

template <typename T, bool OWN_JSON>
void json(Ctx& ctx, const T& source)
{
    const Alloc a1 = Kit::make(1);
    const Alloc a2 = Kit::make(2);
    const Text text = zserio::toJsonString(source, a1);
    Probe::every(ctx, "to JSON", [&](Probe& p) {
        p.region(Kit::only(2), [&] {
            const Text made = zserio::toJsonString(source, a2);
            MC_REQUIRE(ctx, made == text, "json", "another text");
        });
    });
    Probe::every(ctx, "to JSON with filter", [&](Probe& p) {
        p.region(Kit::only(2), [&] {
            const Text made = zserio::toJsonString(source, 2, zserio::BasicArrayLengthWalkFilter<Alloc>(1), a2);
            MC_REQUIRE(ctx, !made.empty(), "json", "no text");
        });
    });
    Probe::every(ctx, "walk", [&](Probe& p) {
        p.region(Kit::only(2), [&] {
            zserio::BasicDefaultWalkObserver<Alloc> observer;
            zserio::BasicDepthWalkFilter<Alloc> filter(2);
            zserio::BasicWalker<Alloc> walker(observer, filter);
            walker.walk(zserio::reflectable(source, a2));
        });
    });
    if constexpr (OWN_JSON)
    {
        Probe::every(ctx, "from JSON", [&](Probe& p) {
            std::optional<T> made;
            const Text input(text, a2);
            // plain copies of polymorphic values are made with the default resource, but none stays there
            p.region(Kit::only(2) | Kit::only(Kit::copied(2)),
                    [&] { made.emplace(zserio::fromJsonString<T>(input, a2)); });
            if (p.ok)
            {
                p.expectHeld(2, "the object read from JSON");
                MC_REQUIRE(ctx, *made == source, "json", "another object");
            }
        });
        Probe::every(ctx, "from JSON stream", [&](Probe& p) {
            std::optional<T> made;
            std::istringstream stream(std::string(text.data(), text.size()));
            p.region(Kit::only(2) | Kit::only(Kit::copied(2)),
                    [&] { made.emplace(zserio::fromJsonStream<T>(stream, a2)); });
            if (p.ok)
            {
                MC_REQUIRE(ctx, *made == source, "json", "another object");
                p.expectHeld(2, "the object read from JSON");
            }
        });
    }
}

template <typename A>
std::string describe(const A& array)
{
    std::string text;
    for (const auto& e : array)
    {
        text += str(" {", e.value, " ", e.text.size(), " ", e.externData.getBitSize(), " ", e.bytesData.size(), " ",
                static_cast<int>(e.creatorEnum), " ", e.creatorBitmask.getValue(), "}");
    }
    return text;
}

// the tree creator: an operation that fails can be repeated and the object is then complete
void creator(Ctx& ctx)
{
    const Alloc a1 = Kit::make(1);
    const Alloc a2 = Kit::make(2);
    to::CreatorObject expected(a1);
    expected.value = 13;
    expected.text = o::text(obj::longText(), a1);
    expected.nested = o::creatorNested(1, a1);
    expected.nestedArray.push_back(o::creatorNested(3, a1));
    expected.nestedArray.push_back(o::creatorNested(1, a1));
    expected.textArray.push_back(o::text(obj::longText(), a1));
    expected.textArray.push_back(o::text("x", a1));
    expected.externArray.emplace();
    expected.externArray->push_back(o::bitBuffer("\xff\xfe", 15, a1));
    expected.bytesArray.emplace();
    expected.bytesArray->push_back(o::bytes("by", a1));
    expected.optionalBool.emplace(true);
    expected.optionalNested.emplace(o::creatorNested(2, a1));

    Probe::every(ctx, "tree creator", [&](Probe& p) {
        const auto name = [&](const char* n) { return Text(n, zserio::RebindAlloc<Alloc, char>(a1)); };
        const to::CreatorObject values(expected, a2); // values keep their allocators when they are propagated
        zserio::BasicZserioTreeCreator<Alloc> c(zserio::typeInfo<to::CreatorObject>(), a2);
        using Any = zserio::BasicAny<Alloc>;
        // one retry of each step
        const auto step = [&](const std::function<void()>& f) {
            p.region(Kit::any(1, 2) | Kit::only(Kit::copied(2)), f);
            if (!p.ok)
            {
                f();
            }
        };
        const auto nested = [&](const to::CreatorNested& value) {
            const auto nValue = name("value");
            const auto nText = name("text");
            const auto nExtern = name("externData");
            const auto nBytes = name("bytesData");
            const auto nEnum = name("creatorEnum");
            const auto nMask = name("creatorBitmask");
            step([&] { c.setValue(nValue, static_cast<uint32_t>(value.value)); });
            step([&] { c.setValue(nText, value.text); });
            step([&] { c.setValue(nExtern, value.externData); });
            step([&] { c.setValue(nBytes, value.bytesData); });
            step([&] { c.setValue(nEnum, value.creatorEnum); });
            step([&] { c.setValue(nMask, value.creatorBitmask); });
        };
        const auto nValue = name("value");
        const auto nText = name("text");
        const auto nNested = name("nested");
        const auto nNestedArray = name("nestedArray");
        const auto nTextArray = name("textArray");
        const auto nExternArray = name("externArray");
        const auto nBytesArray = name("bytesArray");
        const auto nOptionalBool = name("optionalBool");
        const auto nOptionalNested = name("optionalNested");
        step([&] { c.beginRoot(); });
        step([&] { c.setValue(nValue, 13); });
        step([&] { c.setValue(nText, obj::longText()); });
        step([&] { c.beginCompound(nNested); });
        nested(values.nested);
        step([&] { c.endCompound(); });
        step([&] { c.beginArray(nNestedArray); });
        for (const auto& element : values.nestedArray)
        {
            step([&] { c.beginCompoundElement(); });
            nested(element);
            step([&] { c.endCompoundElement(); });
        }
        step([&] { c.endArray(); });
        step([&] { c.beginArray(nTextArray); });
        for (const auto& element : values.textArray)
        {
            step([&] { c.addValueElement(element); });
        }
        step([&] { c.endArray(); });
        step([&] { c.beginArray(nExternArray); });
        step([&] { c.addValueElement((*values.externArray)[0]); });
        step([&] { c.endArray(); });
        step([&] { c.beginArray(nBytesArray); });
        step([&] { c.addValueElement((*values.bytesArray)[0]); });
        step([&] { c.endArray(); });
        step([&] { c.setValue(nOptionalBool, true); });
        step([&] { c.setValue(nOptionalNested, nullptr); });
        step([&] { c.beginCompound(nOptionalNested); });
        nested(*values.optionalNested);
        step([&] { c.endCompound(); });
        std::optional<Any> any;
        zserio::IBasicReflectableDataPtr<Alloc> root;
        step([&] { root = c.endRoot(); });
        p.expectNothingIn(0, "the created object");
        const auto& made = zserio::ReflectableUtil::getValue<to::CreatorObject, Alloc>(root);
        MC_REQUIRE(ctx, made == expected, "tree-creator", "another object is created after a failed allocation, same members: ",
                made.value == expected.value, made.text == expected.text, made.nested == expected.nested,
                made.nestedArray.size() == expected.nestedArray.size(), made.nestedArray == expected.nestedArray,
                made.textArray.size() == expected.textArray.size(),
                made.textArray == expected.textArray, made.externArray == expected.externArray,
                made.bytesArray == expected.bytesArray, made.optionalBool == expected.optionalBool,
                made.optionalNested == expected.optionalNested, " ", describe(made.nestedArray), " expected ",
                describe(expected.nestedArray));
    });
}

void pieces(Ctx& ctx)
{
    const Alloc a1 = Kit::make(1);
    const Alloc a2 = Kit::make(2);
    using BitBuffer = zserio::BasicBitBuffer<Alloc>;
    Probe::every(ctx, "bit buffer", [&](Probe& p) {
        const uint8_t data[40] = {1, 2, 3};
        const BitBuffer source(zserio::Span<const uint8_t>(data, 40), 317, a1);
        p.region(Kit::only(2), [&] {
            const BitBuffer empty(a2);
            const BitBuffer sized(size_t(300), a2);
            const BitBuffer copied(source, a2);
            const BitBuffer spanned(zserio::Span<const uint8_t>(data, 40), 317, a2);
            const BitBuffer whole(zserio::Span<const uint8_t>(data, 40), a2);
            const BitBuffer bytes(zserio::BasicBytes<Alloc>(data, data + 40, a2), 317);
            BitBuffer moved(BitBuffer(source, a2), a2);
            MC_REQUIRE(ctx, copied == source && spanned == source && bytes == source && moved == source, "bit-buffer",
                    "a copy differs");
            const auto& got = copied.getBytes();
            MC_REQUIRE(ctx, got.size() == 40, "bit-buffer", "");
            BitBuffer target(a2);
            target = std::move(moved);
            MC_REQUIRE(ctx, target == source, "bit-buffer", "assigned");
        });
    });
    Probe::every(ctx, "strings", [&](Probe& p) {
        p.region(Kit::only(2), [&] {
            MC_REQUIRE(ctx, zserio::toString(std::string_view(obj::longText()), a2) == obj::longText(), "string", "");
            MC_REQUIRE(ctx, zserio::toString(UINT64_MAX, a2) == "18446744073709551615", "string", "");
            MC_REQUIRE(ctx, zserio::toString(INT64_MIN, a2) == "-9223372036854775808", "string", "");
            MC_REQUIRE(ctx, zserio::toString(true, a2) == "true", "string", "");
            MC_REQUIRE(ctx, to::CreatorBitmask(to::CreatorBitmask::Values::READ).toString(a2).size() > 4, "string", "");
        });
    });
    Probe::every(ctx, "optional and variant", [&](Probe& p) {
        using Optional = zserio::BasicOptional<Alloc, Text>;
        const Text text(obj::longText(), a1);
        p.region(Kit::only(2), [&] {
            Optional x(a2);
            x.emplace();
            x->append(obj::longText());
            Optional y(x, a2);
            Optional z(std::move(y), a2);
            y = z;
            x.reset();
            x = std::move(y);
            MC_REQUIRE(ctx, *x == text && *z == text, "optional", "another value");
            to::WalkerUnion u(a2);
            u.template emplace<to::WalkerUnion::Tag::text>() = obj::longText();
            u.template emplace<to::WalkerUnion::Tag::nestedArray>().emplace_back();
            u.template emplace<to::WalkerUnion::Tag::text>(text);
            to::WalkerUnion v(u, a2);
            MC_REQUIRE(ctx, v == u, "variant", "another value");
        });
    });
}

template <typename T, bool JSON>
void operations(Ctx& ctx, const T& source)
{
    ctx.state(Ctx::hashOf(str(Kit::name(), typeid(T).name(), std::hash<T>()(source))));
    switch (ctx.choose(4))
    {
    case 0:
        values(ctx, source);
        break;
    case 1:
        streams(ctx, source);
        break;
    case 2:
        reflection(ctx, source);
        break;
    default:
        json<T, JSON>(ctx, source);
        break;
    }
}

// one object for each member that allocates, and one with all of them
to::CreatorObject fewCreatorObjects(Ctx& ctx, const Alloc& a)
{
    const uint32_t which = ctx.choose(8);
    const auto has = [&](uint32_t member) { return which == 7 || which == member; };
    to::CreatorObject object(a);
    object.nested = o::creatorNested(has(0) ? 1 : 0, a);
    object.text = o::text(has(1) ? obj::longText() : "", a);
    if (has(2))
    {
        object.nestedArray.push_back(o::creatorNested(3, a));
        object.nestedArray.push_back(o::creatorNested(1, a));
    }
    if (has(3))
    {
        object.textArray.push_back(o::text(obj::longText(), a));
        object.textArray.push_back(o::text("x", a));
    }
    if (has(4))
    {
        object.externArray.emplace();
        object.externArray->push_back(o::bitBuffer("\xff\xfe", 15, a));
        object.externArray->push_back(o::bitBuffer("\x12\x34", 16, a));
    }
    if (has(5))
    {
        object.bytesArray.emplace();
        object.bytesArray->push_back(o::bytes("by", a));
    }
    if (has(6))
    {
        object.optionalBool.emplace(true);
        object.optionalNested.emplace(o::creatorNested(2, a));
    }
    return object;
}
to::WalkerObject fewWalkerObjects(Ctx& ctx, const Alloc& a)
{
    const uint32_t which = ctx.choose(5);
    const auto has = [&](uint32_t member) { return which == 4 || which == member; };
    to::WalkerObject object(a);
    object.text = o::text(has(0) ? obj::longText() : "t", a);
    if (has(1))
    {
        object.unionArray.push_back(o::walkerUnion(5, a));
        object.unionArray.push_back(o::walkerUnion(2, a));
    }
    if (has(2))
    {
        object.optionalUnionArray.emplace();
        object.optionalUnionArray->push_back(o::walkerUnion(2, a));
        object.optionalUnionArray->push_back(o::walkerUnion(4, a));
    }
    if (has(3))
    {
        object.identifier = 13;
        object.nested.emplace(to::WalkerNested(o::text(obj::longText(), a), a));
        object.choiceSelector = 64;
        object.choiceField.template emplace<to::WalkerChoice::Tag::value64>(zserio::UInt64(UINT64_MAX));
    }
    else
    {
        object.choiceSelector = 0;
    }
    return object;
}

void objects(Ctx& ctx)
{
    tr30::begin();
    {
        const Alloc a1 = Kit::make(1);
        switch (ctx.choose(6))
        {
        case 0:
            operations<to::CreatorObject, true>(
                    ctx, ctx.thorough() ? o::creatorObject(ctx, 0, a1) : fewCreatorObjects(ctx, a1));
            break;
        case 1:
            operations<to::WalkerObject, false>(
                    ctx, ctx.thorough() ? o::walkerObject(ctx, 2, a1) : fewWalkerObjects(ctx, a1));
            break;
        case 2:
            operations<to::ReflectableObject, false>(ctx, o::reflectableObject(ctx, 0, a1));
            break;
        case 3:
            operations<to::ReflectableUtilUnion, false>(ctx, o::reflectableUtilUnion(ctx, 0, a1));
            break;
        case 4:
            creator(ctx);
            break;
        default:
            pieces(ctx);
            break;
        }
    }
    tr30::end(ctx);
}

} // namespace OBJ_NS
} // namespace
