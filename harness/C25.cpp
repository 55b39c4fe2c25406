// C25: numbers as text and exception messages.
// mc: level=model_checking opt=2 sources=std_test_object:ReflectableEnum,std_test_object:ReflectableBitmask
#include <cmath>
#include <cstring>
#include <memory>

#include "mc.h"
#include "test_object/std_allocator/ReflectableBitmask.h"
#include "test_object/std_allocator/ReflectableEnum.h"
#include "zserio/ArrayLengthException.h"
#include "zserio/BitBuffer.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/Enums.h"
#include "zserio/FloatUtil.h"
#include "zserio/OutOfRangeException.h"
#include "zserio/StringConvertUtil.h"
#include "zserio/Types.h"

using mc::Ctx;
using mc::str;
using namespace zserio;
using test_object::std_allocator::ReflectableBitmask;
using test_object::std_allocator::ReflectableEnum;

namespace
{

// decimal text computed digit by digit from the most significant one
std::string decimal(bool negative, uint64_t magnitude)
{
    static const uint64_t powers[] = {10000000000000000000ULL, 1000000000000000000ULL, 100000000000000000ULL,
            10000000000000000ULL, 1000000000000000ULL, 100000000000000ULL, 10000000000000ULL, 1000000000000ULL,
            100000000000ULL, 10000000000ULL, 1000000000ULL, 100000000ULL, 10000000ULL, 1000000ULL, 100000ULL, 10000ULL,
            1000ULL, 100ULL, 10ULL, 1ULL};
    char text[24];
    char* p = text;
    if (negative)
    {
        *p++ = '-';
    }
    bool started = false;
    for (uint64_t power : powers)
    {
        char digit = '0';
        while (magnitude >= power)
        {
            magnitude -= power;
            ++digit;
        }
        if (digit != '0' || started || power == 1)
        {
            *p++ = digit;
            started = true;
        }
    }
    return std::string(text, p);
}

template <typename T>
std::string expectedInt(T value)
{
    if (std::is_signed_v<T> && value < 0)
    {
        return decimal(true, uint64_t(0) - static_cast<uint64_t>(static_cast<int64_t>(value)));
    }
    return decimal(false, static_cast<uint64_t>(value));
}

template <typename T>
void checkInt(Ctx& ctx, T value, bool all = true)
{
    const std::string expected = expectedInt(value);
    std::array<char, 24> buffer;
    buffer.fill('#');
    const char* text = convertIntToString(buffer, value);
    if (expected != text)
    {
        ctx.fail("int", str(expected, " is converted to ", text));
    }
    if (text < buffer.data() || text + expected.size() >= buffer.data() + buffer.size() + 1)
    {
        ctx.fail("int-buffer", str("text of ", expected, " is not in the buffer"));
    }
    if (all)
    {
        if (expected != toString<std::allocator<char>>(value) || expected != toString(value))
        {
            ctx.fail("to-string", str(expected, " is not returned by toString"));
        }
        CppRuntimeException e("x");
        e << value;
        if ("x" + expected != e.what())
        {
            ctx.fail("int-message", str(expected, " is rendered as ", e.what()));
        }
    }
}

void smallInts(Ctx& ctx)
{
    const int top = static_cast<int>(ctx.choose(256));
    for (int low = 0; low < 256; ++low)
    {
        const uint16_t v = static_cast<uint16_t>(top << 8 | low);
        checkInt<uint16_t>(ctx, v);
        checkInt<int16_t>(ctx, static_cast<int16_t>(v));
        if (top == 0)
        {
            checkInt<uint8_t>(ctx, static_cast<uint8_t>(v));
            checkInt<int8_t>(ctx, static_cast<int8_t>(v));
        }
        ctx.cases();
    }
    ctx.step(256);
    ctx.state(top);
    ctx.sample(str("all 16-bit integers with high byte ", top));
}

void ints32(Ctx& ctx)
{
    // quick: every value whose low 16 bits are one of 256 spread values; thorough: all
    const uint32_t top = ctx.choose(1024);
    const uint32_t stride = ctx.thorough() ? 1 : 61;
    for (uint64_t low = 0; low < (1U << 22); low += stride)
    {
        const uint32_t v = static_cast<uint32_t>(top << 22 | low);
        checkInt<uint32_t>(ctx, v, false);
        checkInt<int32_t>(ctx, static_cast<int32_t>(v), false);
    }
    ctx.cases((1U << 22) / stride);
    ctx.step((1U << 22) / stride);
    ctx.state(1000 + top);
}

void ints64(Ctx& ctx)
{
    // around every power of two, power of ten and multiple of a power of hundred
    const uint32_t which = ctx.choose(64 + 20 * 9 + 100);
    uint64_t base = 0;
    if (which < 64)
    {
        base = uint64_t(1) << which;
    }
    else if (which < 64 + 180)
    {
        base = static_cast<uint64_t>((which - 64) / 20 + 1);
        for (uint32_t i = 0; i < (which - 64) % 20; ++i)
        {
            base *= 10;
        }
    }
    else
    {
        base = (which - 244);
        base = base * 101010101010101010ULL;
    }
    for (uint64_t delta = 0; delta < 700; ++delta)
    {
        for (uint64_t v : {base + delta, base - delta, 0 - base - delta, delta - base, base + delta * 1000003, base * (delta + 1)})
        {
            checkInt<uint64_t>(ctx, v);
            checkInt<int64_t>(ctx, static_cast<int64_t>(v));
            checkInt<uint32_t>(ctx, static_cast<uint32_t>(v));
            checkInt<int32_t>(ctx, static_cast<int32_t>(v));
            ctx.cases(4);
        }
    }
    ctx.step(700);
    ctx.state(10000 + which);
}

std::string render(float value)
{
    std::array<char, 24> a, b;
    a.fill('#');
    b.fill('#');
    const char* integer = nullptr;
    const char* fraction = nullptr;
    convertFloatToString(a, b, value, integer, fraction);
    return fraction ? str(integer, ".", fraction) : std::string(integer);
}

// the text has to be the value cut to three decimals, give or take the last one
void checkFloat(Ctx& ctx, float value)
{
    const std::string text = render(value);
    const double d = static_cast<double>(value);
    if (std::isnan(value))
    {
        MC_REQUIRE(ctx, text == "NaN", "float-nan", "NaN is rendered as ", text);
        return;
    }
    if (std::fabs(d) >= 9223372036854775808.0)
    {
        MC_REQUIRE(ctx, text == (d > 0 ? "+Inf" : "-Inf"), "float-inf", d, " is rendered as ", text);
        return;
    }
    const bool negative = text[0] == '-';
    const std::string digits = text.substr(negative ? 1 : 0);
    const size_t dot = digits.find('.');
    MC_REQUIRE(ctx, dot != std::string::npos && dot > 0 && dot + 1 < digits.size() && digits.find_first_not_of("0123456789.") == std::string::npos,
            "float-form", d, " is rendered as ", text);
    MC_REQUIRE(ctx, digits.substr(0, dot) == decimal(false, static_cast<uint64_t>(std::fabs(d))), "float-integer", d, " is rendered as ", text);
    const std::string fraction = digits.substr(dot + 1);
    MC_REQUIRE(ctx, fraction.size() <= 3, "float-form", d, " is rendered as ", text);
    double scaled = 0, unit = 100;
    for (char ch : fraction)
    {
        scaled += (ch - '0') * unit;
        unit /= 10;
    }
    const double exact = (std::fabs(d) - std::floor(std::fabs(d))) * 1000.0;
    MC_REQUIRE(ctx, scaled <= exact + 1.0 && scaled > exact - 1.5, "float-fraction", d, " is rendered as ", text);
    MC_REQUIRE(ctx, negative == (d < 0 && (scaled > 0 || std::fabs(d) >= 1)) || (std::fabs(d) < 0.001 && d <= 0), "float-sign", d, " is rendered as ", text);
}

void floats(Ctx& ctx)
{
    const uint32_t head = ctx.choose(512);
    const uint32_t step = ctx.thorough() ? 7 : 331;
    for (uint32_t s = 0; s < (1U << 23); s += step)
    {
        const float value = convertUInt32ToFloat(head << 23 | s);
        checkFloat(ctx, value);
        if (s / step % 64 == 0)
        {
            CppRuntimeException e;
            e << value;
            CppRuntimeException g;
            g << static_cast<double>(value);
            MC_REQUIRE(ctx, e.what() == render(value) && e.what() == std::string(g.what()), "float-message", value, " is rendered as ", e.what());
        }
        ctx.cases();
    }
    // decimals a person would write
    for (int thousandths = 0; thousandths < 1000; ++thousandths)
    {
        const float value = static_cast<float>(head) + static_cast<float>(thousandths) / 1000.0F;
        checkFloat(ctx, value);
        checkFloat(ctx, -value);
    }
    ctx.step();
    ctx.state(20000 + head);
}

struct Part
{
    std::string name;
    std::function<void(CppRuntimeException&)> append;
    std::string text;
};

std::string letters(size_t n)
{
    std::string s;
    for (size_t i = 0; i < n; ++i)
    {
        s.push_back(static_cast<char>('a' + i % 26));
    }
    return s;
}

std::vector<Part> makeParts()
{
    std::vector<Part> parts;
    for (size_t n : {0, 1, 2, 9, 255, 509, 510, 511, 512, 700})
    {
        const std::string s = letters(n);
        // memory that ends right after the text, so that reading further is detected
        auto exact = std::shared_ptr<char>(new char[n + 1], std::default_delete<char[]>());
        std::memcpy(exact.get(), s.c_str(), n + 1);
        auto open = std::shared_ptr<char>(new char[n ? n : 1], std::default_delete<char[]>());
        std::memcpy(open.get(), s.data(), n);
        parts.push_back({str("text", n), [exact](CppRuntimeException& e) { e << static_cast<const char*>(exact.get()); }, s});
        parts.push_back({str("view", n), [open, n](CppRuntimeException& e) { e << std::string_view(open.get(), n); }, s});
        if (n == 9 || n == 511)
        {
            parts.push_back({str("string", n), [s](CppRuntimeException& e) { e << s; }, s});
            parts.push_back({str("append", n), [open, n](CppRuntimeException& e) { e.append(open.get(), n); }, s});
            parts.push_back({str("appendz", n), [exact](CppRuntimeException& e) { e.append(exact.get()); }, s});
        }
    }
    parts.push_back({"int", [](CppRuntimeException& e) { e << -1234567890; }, "-1234567890"});
    parts.push_back({"uint64", [](CppRuntimeException& e) { e << UINT64_MAX; }, "18446744073709551615"});
    parts.push_back({"int8", [](CppRuntimeException& e) { e << int8_t(-128); }, "-128"});
    parts.push_back({"true", [](CppRuntimeException& e) { e << true; }, "true"});
    parts.push_back({"false", [](CppRuntimeException& e) { e << false; }, "false"});
    parts.push_back({"float", [](CppRuntimeException& e) { e << 7.5F; }, "7.500"});
    parts.push_back({"double", [](CppRuntimeException& e) { e << -2.25; }, "-2.250"});
    parts.push_back({"inf", [](CppRuntimeException& e) { e << INFINITY; }, "+Inf"});
    parts.push_back({"vector", [](CppRuntimeException& e) { e << std::vector<int>{1, 2, 3}; }, "vector([...], 3)"});
    parts.push_back({"wrapper", [](CppRuntimeException& e) { e << UInt7(100) << VarInt(-5) << Float32(1.0F) << Bool(true); }, "100-51.0true"});
    parts.push_back({"enum", [](CppRuntimeException& e) { e << ReflectableEnum::VALUE2; }, "VALUE2"});
    parts.push_back({"bitmask", [](CppRuntimeException& e) { e << ReflectableBitmask(ReflectableBitmask::Values::WRITE); },
            expectedInt(static_cast<uint64_t>(ReflectableBitmask(ReflectableBitmask::Values::WRITE).getValue()))});
    return parts;
}

template <typename E>
std::string throughThrow(const E& e)
{
    try
    {
        throw e;
    }
    catch (const CppRuntimeException& caught)
    {
        return caught.what();
    }
}

void messages(Ctx& ctx)
{
    static const std::vector<Part> parts = makeParts();
    const size_t start = ctx.pick(std::vector<size_t>{0, 5, 500, 510, 511, 600});
    const std::string first = letters(start);
    CppRuntimeException e(first.c_str());
    std::string model = first;
    std::string history = str("start ", start);
    const uint32_t depth = ctx.thorough() ? 4 : 3;
    auto cut = [](const std::string& s) { return s.substr(0, 511); };
    for (uint32_t i = 0; i < depth; ++i)
    {
        const Part& part = ctx.pick(parts);
        history += ", " + part.name;
        ctx.note(history);
        part.append(e);
        model = cut(model) + part.text;
        ctx.step();
        MC_REQUIRE(ctx, e.what() == cut(model), "message", "message is '", e.what(), "' instead of '", cut(model), "'");
        ctx.state(Ctx::hashOf(cut(model)));
    }
    const CppRuntimeException copy(e);
    CppRuntimeException assigned("previous text that is longer than nothing");
    assigned = e;
    MC_REQUIRE(ctx, copy.what() == cut(model) && assigned.what() == cut(model) && throughThrow(e) == cut(model), "copy", "copy has another message");
    e << "!";
    MC_REQUIRE(ctx, copy.what() == cut(model) && e.what() == cut(cut(model) + "!"), "copy-independent", "copies share the message");
    CppRuntimeException moved(std::move(assigned));
    MC_REQUIRE(ctx, moved.what() == cut(model), "move", "moved exception has another message");
    moved << "?";
    MC_REQUIRE(ctx, moved.what() == cut(cut(model) + "?"), "move-append", "moved exception appends elsewhere");
    assigned = std::move(moved);
    MC_REQUIRE(ctx, assigned.what() == cut(cut(model) + "?"), "move", "assigned exception has another message");
    ctx.sample(history);
}

// exceptions built in one expression keep their type and message
void kinds(Ctx& ctx)
{
    const uint32_t kind = ctx.choose(3);
    const std::string tail = letters(ctx.choose(520));
    std::string got;
    int type = 0;
    try
    {
        switch (kind)
        {
        case 0:
            throw CppRuntimeException("head ") << 1 << tail << -2 << true;
        case 1:
            throw OutOfRangeException("head ") << 1 << tail << -2 << true;
        default:
            throw ArrayLengthException("head ") << 1 << tail << -2 << true;
        }
    }
    catch (const OutOfRangeException& e)
    {
        type = 1;
        got = e.what();
    }
    catch (const ArrayLengthException& e)
    {
        type = 2;
        got = e.what();
    }
    catch (const std::exception& e)
    {
        got = e.what();
    }
    const std::string expected = ("head 1" + tail + "-2true").substr(0, 511);
    MC_REQUIRE(ctx, got == expected, "expression", "message is '", got, "' instead of '", expected, "'");
    MC_REQUIRE(ctx, type == static_cast<int>(kind), "type", "exception lost its type");
    ctx.step();
    ctx.state(30000 + tail.size() * 4 + kind);
}

void texts(Ctx& ctx)
{
    const uint32_t which = ctx.choose(6);
    ctx.step();
    MC_REQUIRE(ctx, std::string(convertBoolToString(true)) == "true" && std::string(convertBoolToString(false)) == "false", "bool", "bool");
    MC_REQUIRE(ctx, toString(true) == "true" && toString(false) == "false" && toString(Bool(true)) == "true" && toString(Bool(false)) == "false", "bool", "bool");
    auto wrapped = [&](auto value) {
        using V = typename decltype(value)::ValueType;
        const std::string expected = expectedInt(static_cast<V>(value));
        MC_REQUIRE(ctx, toString(value) == expected && toString<std::allocator<char>>(value) == expected, "wrapper", expected, " is converted to ", toString(value));
        CppRuntimeException e;
        e << value;
        MC_REQUIRE(ctx, e.what() == expected, "wrapper-message", expected, " is rendered as ", e.what());
    };
    for (int i = 0; i < 4096; ++i)
    {
        const uint64_t bits = static_cast<uint64_t>(i) * 0x9e3779b97f4a7c15ULL >> (i % 64);
        switch (which)
        {
        case 0:
            wrapped(Int8(static_cast<int8_t>(bits)));
            wrapped(UInt8(static_cast<uint8_t>(bits)));
            wrapped(Int5(static_cast<int8_t>(static_cast<int>(bits & 31) - 16)));
            break;
        case 1:
            wrapped(Int16(static_cast<int16_t>(bits)));
            wrapped(UInt16(static_cast<uint16_t>(bits)));
            wrapped(DynUInt16(static_cast<uint16_t>(bits)));
            break;
        case 2:
            wrapped(Int32(static_cast<int32_t>(bits)));
            wrapped(UInt32(static_cast<uint32_t>(bits)));
            wrapped(VarUInt32(static_cast<uint32_t>(bits & 0x1fffffff)));
            break;
        case 3:
            wrapped(Int64(static_cast<int64_t>(bits)));
            wrapped(UInt64(bits));
            wrapped(VarInt(static_cast<int64_t>(bits)));
            wrapped(VarUInt(bits));
            break;
        case 4:
        {
            const std::string s = letters(static_cast<size_t>(i % 300));
            MC_REQUIRE(ctx, toString(std::string_view(s)) == s, "text", "text changed");
            break;
        }
        default:
            wrapped(VarSize(static_cast<uint32_t>(bits & 0x7fffffff)));
            wrapped(DynInt64(static_cast<int64_t>(bits)));
            break;
        }
        ctx.cases();
    }
    ctx.state(40000 + which);
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {{"integers-16", smallInts, 1}, {"integers-32", ints32, 1}, {"integers-64", ints64, 1}, {"floats", floats, 1},
                    {"messages", messages, 2}, {"kinds", kinds, 2}, {"texts", texts, 1}});
}
