// C24: compound objects serialize and deserialize losslessly and safely.
// mc: level=model_checking sources=std_test_object
#include <unistd.h>

#include "objects.h"
#include "zserio/SerializeUtil.h"

using namespace zserio;
using bm::Bits;
using mc::Ctx;
using mc::str;
namespace o = obj::std_allocator;
namespace to = o::to;
namespace zd = zserio::detail;

namespace
{

int64_t g_leaked = 0; // blocks a call left behind

template <typename F>
std::string outcome(F&& f)
{
    const int64_t live = mc::g_liveAllocs;
    std::string result = "ok";
    try
    {
        f();
    }
    catch (const CppRuntimeException&)
    {
        result = "exception";
    }
    g_leaked = mc::g_liveAllocs - live;
    return result;
}

std::vector<uint8_t> used(const BitBuffer& buffer)
{
    const auto data = buffer.getData();
    return std::vector<uint8_t>(data.begin(), data.end());
}

template <typename T>
void same(Ctx& ctx, const T& got, const T& expected, const char* how)
{
    MC_REQUIRE(ctx, got == expected && !(got != expected), "round-trip", how, " gives another object");
    MC_REQUIRE(ctx, std::hash<T>()(got) == std::hash<T>()(expected), "round-trip-hash", how);
    Bits a;
    Bits b;
    o::encode(a, got);
    o::encode(b, expected);
    MC_REQUIRE(ctx, a.bits == b.bits, "round-trip-content", how, " gives other content");
    ctx.step();
}

// every way of serializing gives the reference encoding, every way of deserializing gives the object
template <typename T>
void roundTrip(Ctx& ctx, const T& data, bool files)
{
    Bits model;
    o::encode(model, data);
    const auto expected = model.bytes();
    const auto text = mc::hex(expected.data(), expected.size());
    ctx.note(str("object of ", model.pos, " bits ", text.substr(0, 200)));
    ctx.state(Ctx::hashOf(text));
    if (ctx.wantSample())
    {
        ctx.sample(str("object of ", model.pos, " bits"));
    }
    const View<T> view(data);
    const BitBuffer buffer = serialize(data);
    MC_REQUIRE(ctx, buffer.getBitSize() == model.pos, "bit-size", buffer.getBitSize(), " expected ", model.pos);
    MC_REQUIRE(ctx, used(buffer) == expected, "encoding", mc::hex(used(buffer).data(), expected.size()), " expected ",
            text);
    MC_REQUIRE(ctx, used(serialize(view)) == expected, "encoding-view", "");
    MC_REQUIRE(ctx, used(serialize(data, std::allocator<uint8_t>())) == expected, "encoding-allocator", "");
    const Vector<uint8_t> bytes = serializeToBytes(data);
    MC_REQUIRE(ctx, std::vector<uint8_t>(bytes.begin(), bytes.end()) == expected, "encoding-bytes", "");
    const auto bytes2 = serializeToBytes(view);
    MC_REQUIRE(ctx, std::vector<uint8_t>(bytes2.begin(), bytes2.end()) == expected, "encoding-bytes-view", "");
    ctx.step(5);

    {
        T out;
        const View<T> read = deserialize(buffer, out);
        same(ctx, out, data, "deserialize");
        MC_REQUIRE(ctx, read == view && !(read < view) && !(view < read), "view", "views differ");
        MC_REQUIRE(ctx, std::hash<View<T>>()(read) == std::hash<View<T>>()(view), "view-hash", "");
        MC_REQUIRE(ctx, &read.zserioData() == &out, "view-data", "the view is of another object");
    }
    {
        T out;
        (void)deserializeFromBytes(Span<const uint8_t>(bytes.data(), bytes.size()), out);
        same(ctx, out, data, "deserializeFromBytes");
    }
    {
        T out;
        (void)deserialize(buffer, ArrayPreallocation(1), out);
        same(ctx, out, data, "deserialize with preallocation");
    }
    {
        // the remaining ways give the same
        const typename T::allocator_type allocator;
        const Span<const uint8_t> span(bytes.data(), bytes.size());
        const auto is = [&](const auto& encoded, const char* how) {
            MC_REQUIRE(ctx, std::vector<uint8_t>(encoded.begin(), encoded.end()) == expected, "encoding-way", how);
            ctx.step();
        };
        is(used(serialize(view, allocator)), "serialize(view, allocator)");
        is(serializeToBytes(data, allocator), "serializeToBytes(data, allocator)");
        is(serializeToBytes(view, allocator), "serializeToBytes(view, allocator)");
        T out;
        (void)deserializeFromBytes(span, ArrayPreallocation(0), out);
        same(ctx, out, data, "deserializeFromBytes with preallocation");
        const ArrayPreallocation prealloc(2);
        const DataView<T> ways[] = {deserialize<T>(buffer, prealloc), deserialize<T>(buffer, prealloc, allocator),
                deserialize<T>(buffer, allocator), deserializeFromBytes<T>(span, prealloc),
                deserializeFromBytes<T>(span, prealloc, allocator), deserializeFromBytes<T>(span, allocator)};
        for (const DataView<T>& owning : ways)
        {
            same(ctx, owning.zserioData(), data, "deserialize to a data view, another way");
            is(used(serialize(owning, allocator)), "serialize(data view, allocator)");
            is(serializeToBytes(owning, allocator), "serializeToBytes(data view, allocator)");
        }
    }
    {
        const DataView<T> owning = deserialize<T>(buffer);
        same(ctx, owning.zserioData(), data, "deserialize to a data view");
        MC_REQUIRE(ctx, static_cast<const View<T>&>(owning) == view, "data-view", "views differ");
        MC_REQUIRE(ctx, used(serialize(owning)) == expected, "data-view-encoding", "");
        const auto again = serializeToBytes(owning);
        MC_REQUIRE(ctx, std::vector<uint8_t>(again.begin(), again.end()) == expected, "data-view-bytes", "");
        // copies and moved copies own their data
        auto first = std::make_unique<DataView<T>>(owning);
        DataView<T> copy(*first);
        DataView<T> moved(std::move(*first));
        first.reset();
        same(ctx, copy.zserioData(), data, "copied data view");
        same(ctx, moved.zserioData(), data, "moved data view");
        MC_REQUIRE(ctx, static_cast<const View<T>&>(copy) == view && static_cast<const View<T>&>(moved) == view,
                "data-view-copy", "");
        MC_REQUIRE(ctx, &copy.zserioData() != &owning.zserioData(), "data-view-shared", "");
        MC_REQUIRE(ctx, used(serialize(moved)) == expected, "data-view-copy-encoding", "");
    }
    {
        const DataView<T> owning = deserializeFromBytes<T>(Span<const uint8_t>(bytes.data(), bytes.size()));
        same(ctx, owning.zserioData(), data, "deserializeFromBytes to a data view");
        const DataView<T> built(data);
        same(ctx, built.zserioData(), data, "data view of data");
        MC_REQUIRE(ctx, used(serialize(built)) == expected, "built-data-view-encoding", "");
        T source = data;
        const DataView<T> movedIn(std::move(source));
        same(ctx, movedIn.zserioData(), data, "data view of moved data");
    }
    if (files)
    {
        const std::string name = str("c24.", getpid(), ".bin");
        serializeToFile(data, name);
        T out;
        (void)deserializeFromFile(name, out);
        same(ctx, out, data, "deserializeFromFile");
        T second;
        (void)deserializeFromFile(name, ArrayPreallocation(3), second);
        same(ctx, second, data, "deserializeFromFile with preallocation");
        const typename T::allocator_type allocator;
        same(ctx, deserializeFromFile<T>(name, ArrayPreallocation(3)).zserioData(), data, "deserializeFromFile to a data view with preallocation");
        same(ctx, deserializeFromFile<T>(name, ArrayPreallocation(3), allocator).zserioData(), data, "deserializeFromFile to a data view, everything given");
        same(ctx, deserializeFromFile<T>(name, allocator).zserioData(), data, "deserializeFromFile to a data view with an allocator");
        serializeToFile(view, name);
        same(ctx, deserializeFromFile<T>(name).zserioData(), data, "deserializeFromFile to a data view");
        serializeToFile(deserialize<T>(buffer), name);
        same(ctx, deserializeFromFile<T>(name).zserioData(), data, "file of a data view");
        unlink(name.c_str());
    }
}

// an object that already holds other content
template <typename T>
void reused(Ctx& ctx, const T& before, const T& data, bool staleChoice)
{
    T out = before;
    (void)deserialize(serialize(data), out);
    ctx.note("read into an object that already holds another value");
    MC_REQUIRE(ctx, out == data, staleChoice ? "reuse-empty-choice" : "reuse",
            "an object that held another value before gets another one than was serialized");
    ctx.step();
}

void roundTrips(Ctx& ctx)
{
    const uint32_t size = ctx.thorough() ? 1 : 0;
    switch (ctx.choose(4))
    {
    case 0:
        return roundTrip(ctx, o::creatorObject(ctx, size), false);
    case 1:
        return roundTrip(ctx, o::walkerObject(ctx, ctx.thorough() ? 1 : 2), false);
    case 2:
        return roundTrip(ctx, o::reflectableObject(ctx, 1), true);
    default:
        return roundTrip(ctx, o::reflectableUtilUnion(ctx, 1), true);
    }
}

// objects with many elements, long texts and long binary data
void large(Ctx& ctx)
{
    const uint32_t place = ctx.choose(o::largeCreatorPlaces + o::largeWalkerPlaces);
    const uint32_t n = ctx.pick(o::largeSizes(ctx.thorough()));
    if (place < o::largeCreatorPlaces)
    {
        roundTrip(ctx, o::largeCreator(place, n), false);
    }
    else
    {
        roundTrip(ctx, o::largeWalker(place - o::largeCreatorPlaces, n), false);
    }
}

void nestedParameterized(Ctx& ctx)
{
    const uint32_t variant = ctx.choose(o::creatorNestedVariants);
    const uint32_t param = ctx.pick(std::vector<uint32_t>{0, 1, 0xffffffffU});
    const to::CreatorNested data = o::creatorNested(variant);
    ctx.note(str("parameterized structure, variant ", variant, " parameter ", param));
    ctx.state(variant * 3 + param % 7);
    Bits model;
    o::encode(model, data);
    const BitBuffer buffer = serialize(data, UInt32(param));
    MC_REQUIRE(ctx, used(buffer) == model.bytes(), "encoding", "");
    to::CreatorNested out;
    const auto view = deserialize(buffer, out, UInt32(param));
    same(ctx, out, data, "deserialize");
    MC_REQUIRE(ctx, view.param() == param, "parameter", view.param());
    const auto owning = deserialize<to::CreatorNested>(buffer, UInt32(param));
    MC_REQUIRE(ctx, owning.param() == param, "parameter-data-view", owning.param());
    const auto copy(owning);
    MC_REQUIRE(ctx, copy.param() == param, "parameter-data-view-copy", copy.param());
    same(ctx, copy.zserioData(), data, "copy");
    const std::string name = str("c24n.", getpid(), ".bin");
    serializeToFile(data, name, UInt32(param));
    to::CreatorNested fromFile;
    (void)deserializeFromFile(name, fromFile, UInt32(param));
    same(ctx, fromFile, data, "deserializeFromFile");
    unlink(name.c_str());
}

void reuse(Ctx& ctx)
{
    switch (ctx.choose(3))
    {
    case 0: {
        // before: one small object; after: another
        Ctx& c = ctx;
        const uint32_t n = c.choose(3);
        to::CreatorObject before;
        before.value = 5;
        before.text = "old";
        before.nestedArray.assign(n, o::creatorNested(n));
        before.textArray.assign(3, "old");
        if (n > 0)
        {
            before.externArray.emplace();
            before.externArray->assign(n, o::bitBuffer("\x11\x22", 13, {}));
            before.bytesArray.emplace();
            before.bytesArray->assign(n, o::bytes("old", {}));
            before.optionalBool.emplace(true);
            before.optionalNested.emplace(o::creatorNested(n));
        }
        before.nested = o::creatorNested(n + 1);
        const to::CreatorObject data = o::creatorObject(c, 0);
        ctx.state(Ctx::mix(n, std::hash<to::CreatorObject>()(data)));
        return reused(ctx, before, data, false);
    }
    case 1: {
        const to::WalkerObject before = o::walkerObject(ctx, 0);
        const to::WalkerObject data = o::walkerObject(ctx, 0);
        ctx.state(Ctx::mix(std::hash<to::WalkerObject>()(before), std::hash<to::WalkerObject>()(data)));
        return reused(ctx, before, data,
                data.choiceField.index() == to::WalkerChoice::Tag::ZSERIO_UNDEFINED &&
                        before.choiceField.index() != to::WalkerChoice::Tag::ZSERIO_UNDEFINED);
    }
    default: {
        const to::ReflectableUtilUnion before = o::reflectableUtilUnion(ctx, 1);
        const to::ReflectableUtilUnion data = o::reflectableUtilUnion(ctx, 1);
        ctx.state(Ctx::mix(std::hash<to::ReflectableUtilUnion>()(before),
                std::hash<to::ReflectableUtilUnion>()(data)));
        return reused(ctx, before, data, false);
    }
    }
}

// the limit of what is reserved for an array reaches the reader whichever way the data is deserialized
void preallocations(Ctx& ctx)
{
    const size_t length = ctx.pick(std::vector<size_t>{0, 1, 5, 100, 1000, 10000});
    const uint32_t limitKind = ctx.choose(6);
    const size_t element = sizeof(to::WalkerNested);
    const size_t limit = std::array<size_t, 6>{0, 0, 1, length * element, length * element - 1, SIZE_MAX}[limitKind];
    const bool given = limitKind != 0;
    if (length == 0 && limitKind == 4)
    {
        ctx.skip();
    }
    const uint32_t how = ctx.choose(8);
    ctx.note(str("array of ", length, " elements, ", given ? str("limit ", limit) : str("no limit given"), ", way ", how));
    ctx.state(Ctx::mix(length * 8 + limitKind, how));
    to::WalkerUnion data;
    data.emplace<to::WalkerUnion::Tag::nestedArray>(Vector<to::WalkerNested>(length, to::WalkerNested("x")));
    const BitBuffer buffer = serialize(data);
    const auto bytes = used(buffer);
    uint64_t expected = 0;
    {
        BitStreamReader reader(buffer, given ? ArrayPreallocation(limit) : ArrayPreallocation());
        to::WalkerUnion out;
        mc::g_maxAlloc = 0;
        (void)zd::read(reader, out);
        expected = mc::g_maxAlloc;
    }
    MC_REQUIRE(ctx, length == 0 || expected >= length * element, "reserved", expected, " bytes reserved");
    MC_REQUIRE(ctx, length < 5 || (limitKind != 5 && limitKind != 3) || expected == length * element, "reserved-at-once", expected,
            " bytes reserved");
    const Span<const uint8_t> span(bytes.data(), bytes.size());
    const ArrayPreallocation prealloc(limit);
    const std::allocator<uint8_t> allocator;
    const std::string name = str("c24p.", getpid(), ".bin");
    serializeToFile(data, name);
    uint64_t got = 0;
    to::WalkerUnion out;
    const auto owned = [&](const auto& call) {
        mc::g_maxAlloc = 0;
        const DataView<to::WalkerUnion> view = call();
        got = mc::g_maxAlloc;
        out = view.zserioData();
    };
    mc::g_maxAlloc = 0;
    switch (how)
    {
    case 0:
        given ? deserialize(buffer, prealloc, out) : deserialize(buffer, out);
        got = mc::g_maxAlloc;
        break;
    case 1:
        given ? deserializeFromBytes(span, prealloc, out) : deserializeFromBytes(span, out);
        got = mc::g_maxAlloc;
        break;
    case 2:
        given ? deserializeFromFile(name, prealloc, out) : deserializeFromFile(name, out);
        got = mc::g_maxAlloc;
        break;
    case 3:
        owned([&] {
            return given ? deserialize<to::WalkerUnion>(buffer, prealloc) : deserialize<to::WalkerUnion>(buffer);
        });
        break;
    case 4:
        owned([&] {
            return given ? deserialize<to::WalkerUnion>(buffer, prealloc, allocator)
                         : deserialize<to::WalkerUnion>(buffer, allocator);
        });
        break;
    case 5:
        owned([&] {
            return given ? deserializeFromBytes<to::WalkerUnion>(span, prealloc)
                         : deserializeFromBytes<to::WalkerUnion>(span);
        });
        break;
    case 6:
        owned([&] {
            return given ? deserializeFromBytes<to::WalkerUnion>(span, prealloc, allocator)
                         : deserializeFromBytes<to::WalkerUnion>(span, allocator);
        });
        break;
    default:
        owned([&] {
            return given ? deserializeFromFile<to::WalkerUnion>(name, prealloc)
                         : deserializeFromFile<to::WalkerUnion>(name);
        });
        break;
    }
    unlink(name.c_str());
    same(ctx, out, data, "deserialized with a limit");
    // the file is read through a buffer of the standard library
    const bool file = how == 2 || how == 7;
    MC_REQUIRE(ctx, file && expected < 65536 || got == expected, "preallocation", "the largest block is of ", got,
            " bytes, expected ", expected);
    ctx.step();
}

// cutting the data anywhere is noticed; changing it anywhere gives an object or the library's exception
template <typename T>
void damaged(Ctx& ctx, const T& data)
{
    const BitBuffer buffer = serialize(data);
    const std::vector<uint8_t> bytes = used(buffer);
    const size_t bits = buffer.getBitSize();
    for (size_t cut = 0; cut < bits; ++cut)
    {
        ctx.note(str("cut after bit ", cut, " of ", mc::hex(bytes.data(), bytes.size())));
        std::vector<uint8_t> copy(bytes.begin(), bytes.begin() + static_cast<ptrdiff_t>((cut + 7) / 8));
        copy.shrink_to_fit();
        const std::string result = outcome([&] {
            BitStreamReader reader(copy.data(), cut, BitsTag());
            T out;
            (void)zd::read(reader, out);
        });
        MC_REQUIRE(ctx, result == "exception", "cut-accepted", "an object is read from cut data");
        MC_REQUIRE(ctx, g_leaked == 0, "leak", g_leaked, " blocks are not released");
        ctx.cases();
        ctx.step();
        if (cut % 8 == 0)
        {
            const std::string result2 = outcome([&] {
                T out;
                (void)deserializeFromBytes(Span<const uint8_t>(copy.data(), copy.size()), out);
            });
            MC_REQUIRE(ctx, result2 == "exception", "cut-accepted", "an object is read from cut bytes");
            ctx.step();
        }
    }
    std::vector<uint8_t> changes;
    if (ctx.thorough())
    {
        for (int v = 1; v < 256; ++v)
        {
            changes.push_back(static_cast<uint8_t>(v));
        }
    }
    else
    {
        changes = {1, 2, 4, 8, 16, 32, 64, 128, 255, 254, 127, 3, 0x55};
    }
    for (size_t at = 0; at < bytes.size(); ++at)
    {
        for (uint8_t change : changes)
        {
            std::vector<uint8_t> copy(bytes);
            copy[at] ^= change;
            ctx.note(str("byte ", at, " changed by ", +change, " in ", mc::hex(bytes.data(), bytes.size())));
            const std::string result = outcome([&] {
                T out;
                (void)deserializeFromBytes(Span<const uint8_t>(copy.data(), copy.size()), out);
                const View<T> view(out);
                // whatever was read can be looked at
                (void)std::hash<View<T>>()(view);
                (void)(view == View<T>(data));
                BitBuffer again;
                if (outcome([&] {
                        again = serialize(out);
                    }) == "ok")
                {
                    T second;
                    (void)deserialize(again, second);
                    MC_REQUIRE(ctx, second == out, "damaged-round-trip", "not equal after another round trip");
                }
            });
            MC_REQUIRE(ctx, g_leaked == 0, "leak", g_leaked, " blocks are not released");
            ctx.state(Ctx::mix(Ctx::hashOf(result), Ctx::mix(at * 256 + change, bits)));
            ctx.cases();
            ctx.step();
        }
    }
}

void damage(Ctx& ctx)
{
    switch (ctx.choose(4))
    {
    case 0: {
        to::CreatorObject data;
        const uint32_t variant = ctx.choose(o::creatorNestedVariants);
        if (variant == 3 && !ctx.thorough())
        {
            ctx.skip();
        }
        data.nested = o::creatorNested(variant);
        data.text = "abc";
        if (ctx.choose(2))
        {
            data.nestedArray.push_back(o::creatorNested(2));
            data.textArray.push_back("x");
            data.externArray.emplace();
            data.externArray->push_back(o::bitBuffer("\x11\x22", 13, {}));
        }
        if (ctx.choose(2))
        {
            data.bytesArray.emplace();
            data.bytesArray->push_back(o::bytes("xy", {}));
            data.optionalBool.emplace(true);
            data.optionalNested.emplace(o::creatorNested(0));
        }
        return damaged(ctx, data);
    }
    case 1:
        return damaged(ctx, o::walkerObject(ctx, 0));
    case 2:
        return damaged(ctx, o::reflectableObject(ctx, 0));
    default:
        return damaged(ctx, o::reflectableUtilUnion(ctx, 0));
    }
}

__attribute__((noinline)) std::string refusal(const std::function<void()>& call)
{
    return outcome(call);
}

// every way of serializing refuses an object that does not satisfy the schema
template <typename T>
void refused(Ctx& ctx, const T& data)
{
    const View<T> view(data);
    const std::allocator<uint8_t> allocator;
    const std::string name = str("c24.", getpid(), ".invalid");
    const std::vector<std::pair<const char*, std::function<void()>>> ways = {
            {"serialize(data)", [&] { (void)serialize(data); }},
            {"serialize(view)", [&] { (void)serialize(view); }},
            {"serialize(data, allocator)", [&] { (void)serialize(data, allocator); }},
            {"serialize(view, allocator)", [&] { (void)serialize(view, allocator); }},
            {"serializeToBytes(data)", [&] { (void)serializeToBytes(data); }},
            {"serializeToBytes(view)", [&] { (void)serializeToBytes(view); }},
            {"serializeToBytes(data, allocator)", [&] { (void)serializeToBytes(data, allocator); }},
            {"serializeToBytes(view, allocator)", [&] { (void)serializeToBytes(view, allocator); }},
            {"serializeToFile(data)", [&] { serializeToFile(data, name); }},
            {"serializeToFile(view)", [&] { serializeToFile(view, name); }},
            {"a data view of a copy", [&] { const DataView<T> owning(data); }},
            {"a data view of a moved object", [&] { const DataView<T> owning{T(data)}; }},
    };
    for (const auto& [way, call] : ways)
    {
        MC_REQUIRE(ctx, refusal(call) == "exception", "invalid-accepted", way, " accepts an invalid object");
        ctx.step();
    }
}

// objects that do not satisfy the schema are not serialized
void invalid(Ctx& ctx)
{
    const uint32_t what = ctx.choose(9);
    ctx.note(str("invalid object ", what));
    ctx.state(what);
    switch (what)
    {
    case 0: {
        to::WalkerObject data;
        data.identifier = 1; // the optional is missed
        refused(ctx, data);
        break;
    }
    case 1: {
        to::WalkerObject data;
        data.nested.emplace(); // the optional is unexpected
        refused(ctx, data);
        break;
    }
    case 2: {
        to::ReflectableObject data;
        data.reflectableEnum = to::ReflectableEnum::VALUE3;
        refused(ctx, data); // union without a case
        break;
    }
    case 3: {
        to::ReflectableObject data;
        data.reflectableEnum = to::ReflectableEnum::VALUE3;
        data.reflectableUnion.emplace<to::ReflectableUnion::Tag::value32>();
        data.reflectableNested.value = UInt31(0x80000000U); // out of range
        refused(ctx, data);
        break;
    }
    case 4: {
        to::WalkerObject data;
        data.choiceSelector = 8; // the selected case is not set
        refused(ctx, data);
        break;
    }
    case 5: {
        to::WalkerObject data;
        data.choiceSelector = 8;
        data.choiceField.emplace<to::WalkerChoice::Tag::value16>(); // another case is set
        refused(ctx, data);
        break;
    }
    case 6: {
        to::WalkerObject data;
        data.choiceSelector = 3; // nothing is selected
        data.choiceField.emplace<to::WalkerChoice::Tag::value16>();
        refused(ctx, data);
        break;
    }
    case 7: {
        to::WalkerObject data;
        data.choiceSelector = 8;
        data.choiceField.emplace<to::WalkerChoice::Tag::value8>();
        data.unionArray.resize(3);
        data.unionArray[0].emplace<to::WalkerUnion::Tag::value>();
        data.unionArray[1].emplace<to::WalkerUnion::Tag::text>();
        refused(ctx, data); // only the last one is without a case
        break;
    }
    default: {
        to::WalkerObject data;
        data.unionArray.emplace_back();
        refused(ctx, data);
        break;
    }
    }
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {{"round trips", roundTrips, 5}, {"large", large, 2}, {"parameterized", nestedParameterized}, {"reuse", reuse, 5},
                    {"preallocations", preallocations}, {"damage", damage, 4}, {"invalid", invalid, 1}});
}
