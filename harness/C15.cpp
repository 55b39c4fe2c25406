// C15: JSON text of a value decodes to the same value.
// mc: level=model_checking opt=2
#include <cmath>
#include <cstring>
#include <memory>
#include <sstream>

#include "mc.h"
#include "zserio/FloatUtil.h"
#include "zserio/JsonDecoder.h"
#include "zserio/JsonEncoder.h"

using mc::Ctx;
using mc::str;
using namespace zserio;

namespace
{

using Decoder = BasicJsonDecoder<>;

// the text in memory that ends with it: anything read behind it is detected
struct Exact
{
    explicit Exact(const std::string& text) :
            data(new char[text.size() ? text.size() : 1]), size(text.size())
    {
        std::memcpy(data.get(), text.data(), text.size());
    }
    std::string_view view() const { return std::string_view(data.get(), size); }
    std::unique_ptr<char[]> data;
    size_t size;
};

__attribute__((noinline)) Decoder::DecoderResult decode(std::string_view text)
{
    Decoder decoder;
    return decoder.decodeValue(text);
}

std::string quote(const std::string& text)
{
    return str("'", text, "' (", mc::hex(text.data(), text.size()), ")");
}

template <typename T>
void checkDecodes(Ctx& ctx, const std::string& text, const T& value, const std::string& what)
{
    static const char* const tails[] = {"", ",", "}", " ", "]x", "\n\"", ":", "-"};
    for (const char* tail : tails)
    {
        const Exact exact(text + tail);
        const auto result = decode(exact.view());
        if (!result.value.hasValue() || !result.value.template isType<T>())
        {
            ctx.fail("decode-type", str(what, " encoded as ", quote(text), " and followed by '", tail, "' is not decoded to the same type"));
        }
        const T& got = result.value.template get<T>();
        bool same;
        if constexpr (std::is_same_v<T, double>)
        {
            same = (value != value && got != got) || (convertDoubleToUInt64(got) == convertDoubleToUInt64(value));
        }
        else
        {
            same = got == value;
        }
        if (!same)
        {
            ctx.fail("decode-value", str(what, " encoded as ", quote(text), " is decoded to another value"));
        }
        if (result.numReadChars != text.size() || result.integerOverflow)
        {
            ctx.fail("decode-length", str(what, " encoded as ", quote(text), ": ", result.numReadChars, " characters are read"));
        }
    }
}

template <typename T>
void checkInt(Ctx& ctx, T value)
{
    std::ostringstream stream;
    JsonEncoder::encodeIntegral(stream, value);
    const std::string what = std::is_signed_v<T> ? str(static_cast<int64_t>(value)) : str(static_cast<uint64_t>(value));
    if (stream.str() != what)
    {
        ctx.fail("int-text", str(what, " is encoded as ", stream.str()));
    }
    if (std::is_signed_v<T> && value < 0)
    {
        checkDecodes<int64_t>(ctx, stream.str(), static_cast<int64_t>(value), what);
    }
    else
    {
        checkDecodes<uint64_t>(ctx, stream.str(), static_cast<uint64_t>(value), what);
    }
    ctx.cases();
}

void integers(Ctx& ctx)
{
    const uint32_t bit = ctx.choose(64);
    for (int delta = -130; delta <= 130; ++delta)
    {
        const uint64_t v = (uint64_t(1) << bit) + static_cast<uint64_t>(static_cast<int64_t>(delta));
        checkInt<uint64_t>(ctx, v);
        checkInt<uint64_t>(ctx, v * 10);
        checkInt<int64_t>(ctx, static_cast<int64_t>(v));
        checkInt<int64_t>(ctx, static_cast<int64_t>(0 - v));
        checkInt<uint32_t>(ctx, static_cast<uint32_t>(v));
        checkInt<int32_t>(ctx, static_cast<int32_t>(v));
        checkInt<uint16_t>(ctx, static_cast<uint16_t>(v));
        checkInt<int16_t>(ctx, static_cast<int16_t>(v));
        checkInt<uint8_t>(ctx, static_cast<uint8_t>(v));
        checkInt<int8_t>(ctx, static_cast<int8_t>(v));
    }
    for (uint64_t k = 0; k < 20; ++k)
    {
        uint64_t p = 1;
        for (uint64_t i = 0; i < k; ++i)
        {
            p *= 10;
        }
        checkInt<uint64_t>(ctx, p * (bit + 1));
        checkInt<uint64_t>(ctx, p - 1);
        checkInt<int64_t>(ctx, -static_cast<int64_t>(p / 2));
    }
    ctx.step(261);
    ctx.state(bit);
    ctx.sample(str("integers around 2^", bit));
}

// decimal numbers one below, at and above every limit: accepted exactly or reported as overflow
void integerLimits(Ctx& ctx)
{
    static const std::vector<std::string> edge = {"18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617",
            "18446744073709551620", "18446744073709551709", "28446744073709551615", "184467440737095516150", "99999999999999999999", "100000000000000000000",
            "9223372036854775807", "9223372036854775808", "9223372036854775809", "9223372036854775810", "19223372036854775808", "92233720368547758080",
            "340282366920938463463374607431768211456", "0", "1", "10", "4294967296", "18446744069414584320", "36893488147419103232",
            "1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001"};
    const std::string& digits = ctx.pick(edge);
    const bool negative = ctx.flip();
    const std::string text = (negative ? "-" : "") + digits;
    const std::string limit = negative ? "9223372036854775808" : "18446744073709551615";
    const bool fits = digits.size() < limit.size() || (digits.size() == limit.size() && digits <= limit);
    ctx.step();
    ctx.cases();
    ctx.state(text);
    const Exact exact(text);
    const auto result = decode(exact.view());
    MC_REQUIRE(ctx, result.value.hasValue() == fits && result.integerOverflow == !fits, "overflow", text, fits ? " is rejected" : " is accepted or not reported as overflow");
    if (fits)
    {
        uint64_t v = 0;
        for (char ch : digits)
        {
            v = v * 10 + static_cast<uint64_t>(ch - '0');
        }
        if (negative)
        {
            checkDecodes<int64_t>(ctx, text, static_cast<int64_t>(0 - v), text);
        }
        else
        {
            checkDecodes<uint64_t>(ctx, text, v, text);
        }
    }
}

void checkDouble(Ctx& ctx, double value)
{
    std::ostringstream stream;
    JsonEncoder::encodeFloatingPoint(stream, value);
    const std::string text = stream.str();
    if (std::isfinite(value) && text.find_first_of(".e") == std::string::npos)
    {
        ctx.fail("float-form", str("number with bits ", convertDoubleToUInt64(value), " is encoded as ", text, ", which is an integer"));
    }
    checkDecodes<double>(ctx, text, value, str("number with bits ", convertDoubleToUInt64(value)));
    ctx.cases();
}

void doubles(Ctx& ctx)
{
    const uint32_t block = ctx.choose(256); // eight exponents each
    static const std::vector<uint64_t> significands = [] {
        std::vector<uint64_t> s;
        for (uint64_t b = 0; b < 52; ++b)
        {
            s.push_back(uint64_t(1) << b);
            s.push_back((uint64_t(1) << 52) - (uint64_t(1) << b));
        }
        s.push_back(0);
        for (uint64_t k = 1; k < 16; ++k)
        {
            s.push_back(0x123456789abcdULL * k & 0xfffffffffffffULL);
            s.push_back(0x9999999999999ULL * k >> 1 & 0xfffffffffffffULL);
        }
        return s;
    }();
    for (uint64_t e = block * 8; e < block * 8 + 8; ++e)
    {
        for (uint64_t s : significands)
        {
            checkDouble(ctx, convertUInt64ToDouble(e << 52 | s));
            if (ctx.thorough() || s % 3 == 0)
            {
                checkDouble(ctx, convertUInt64ToDouble(e << 52 | s | uint64_t(1) << 63));
            }
        }
    }
    ctx.step(8);
    ctx.state(100 + block);
}

// every 32-bit (or 16-bit) number is stored as a double
void floats(Ctx& ctx)
{
    const uint32_t head = ctx.choose(512);
    const uint32_t stride = ctx.thorough() ? 257 : 16411;
    for (uint32_t s = 0; s < (1U << 23); s += stride)
    {
        checkDouble(ctx, static_cast<double>(convertUInt32ToFloat(head << 23 | s)));
    }
    ctx.step();
    ctx.state(1000 + head);
}

void halves(Ctx& ctx)
{
    const uint32_t head = ctx.choose(64);
    for (uint32_t s = 0; s < 1024; ++s)
    {
        checkDouble(ctx, static_cast<double>(convertUInt16ToFloat(static_cast<uint16_t>(head << 10 | s))));
    }
    ctx.step();
    ctx.state(2000 + head);
}

// numbers a person would write: n / 10^k and integers around the limit of plain notation
void decimals(Ctx& ctx)
{
    const uint32_t k = ctx.choose(24);
    const uint32_t part = ctx.choose(16);
    double p = 1;
    for (uint32_t i = 0; i < k; ++i)
    {
        p *= 10;
    }
    for (uint32_t n = part; n < 20000; n += 16)
    {
        checkDouble(ctx, static_cast<double>(n) / p);
        if (n % 5 == 0)
        {
            checkDouble(ctx, -static_cast<double>(n) * p);
        }
    }
    if (k == 0)
    {
        for (int d = -60; d <= 60; ++d)
        {
            checkDouble(ctx, 1e16 + d * 2);
            checkDouble(ctx, -1e16 - d * 2);
            checkDouble(ctx, 1e15 + d * 0.125 * (part + 1));
            checkDouble(ctx, 4503599627370496.0 + d * 0.5);
            checkDouble(ctx, 123456789012345.0 + d * 0.1);
        }
    }
    ctx.step();
    ctx.state(3000 + k * 16 + part);
}

// ---------------------------------------------------------------- strings

void checkString(Ctx& ctx, const std::string& value)
{
    std::ostringstream stream;
    const Exact exact(value);
    JsonEncoder::encodeString(stream, exact.view());
    const std::string text = stream.str();
    // it has to be one JSON string: no raw control character, quote or backslash inside
    if (text.size() < 2 || text.front() != '"' || text.back() != '"')
    {
        ctx.fail("string-form", str(quote(value), " is encoded as ", quote(text)));
    }
    for (size_t i = 1; i + 1 < text.size(); ++i)
    {
        const unsigned char ch = static_cast<unsigned char>(text[i]);
        if (ch < 0x20 || ch == '"')
        {
            ctx.fail("string-form", str(quote(value), " is encoded as ", quote(text)));
        }
        if (ch == '\\')
        {
            ++i;
            if (i + 1 >= text.size() || !std::strchr("\"\\/bfnrtu", text[i]))
            {
                ctx.fail("string-form", str(quote(value), " is encoded as ", quote(text)));
            }
        }
    }
    checkDecodes<std::string>(ctx, text, value, quote(value));
    // any part of it is not a value
    for (size_t n = 1; n < text.size(); n += text.size() > 1000 ? 997 : 1)
    {
        const Exact part(text.substr(0, n));
        const auto result = decode(part.view());
        if (result.value.hasValue() || result.numReadChars != n)
        {
            ctx.fail("string-cut", str("the unterminated ", quote(text.substr(0, n)), " is decoded"));
        }
    }
    ctx.cases();
}

void strings(Ctx& ctx)
{
    const uint32_t first = ctx.choose(257);
    if (first == 256)
    {
        checkString(ctx, "");
        checkString(ctx, "M\xc3\xbcnchen \xe2\x82\xac \xf0\x9f\x98\x80");
        checkString(ctx, std::string(70000, 'z'));
        return;
    }
    std::string s(1, static_cast<char>(first));
    checkString(ctx, s);
    for (int b = 0; b < 256; ++b)
    {
        checkString(ctx, s + static_cast<char>(b));
    }
    ctx.step(257);
    ctx.state(4000 + first);
}

void specialStrings(Ctx& ctx)
{
    static const std::string alphabet("\\\"/bu0n\n\t\r\b\f\x1f\x00\x7f\x80\xc3\xbc {", 20);
    const uint32_t depth = ctx.thorough() ? 5 : 4;
    std::string s;
    for (uint32_t i = 0; i + 1 < depth; ++i)
    {
        s.push_back(alphabet[ctx.choose(static_cast<uint32_t>(alphabet.size()))]);
    }
    for (char ch : alphabet)
    {
        checkString(ctx, s + ch);
    }
    ctx.step(alphabet.size());
    ctx.state(s);
    ctx.sample(quote(s));
}

// every escape: decoded to the character it stands for or rejected
void escapes(Ctx& ctx)
{
    const uint32_t kind = ctx.choose(3);
    if (kind == 0)
    {
        for (int b = 0; b < 256; ++b)
        {
            const std::string text = std::string("\"\\") + static_cast<char>(b) + "\"";
            const Exact exact(text);
            const auto result = decode(exact.view());
            static const std::string known("\"\\bfnrt"), meaning("\"\\\b\f\n\r\t");
            const size_t k = b ? known.find(static_cast<char>(b)) : std::string::npos;
            if (k != std::string::npos && b != '"')
            {
                checkDecodes<std::string>(ctx, text, std::string(1, meaning[k]), quote(text));
            }
            else if (b != '"' && result.value.hasValue())
            {
                MC_REQUIRE(ctx, b == '/' && result.value.get<std::string>() == "/", "escape", quote(text), " is decoded");
            }
            ctx.cases();
        }
        ctx.step();
        ctx.state(5000);
        return;
    }
    // \uXXXX with every pair of last or first two characters
    const uint32_t first = ctx.choose(128);
    for (int b = 0; b < 128; ++b)
    {
        const std::string pair = {static_cast<char>(first), static_cast<char>(b)};
        const std::string code = kind == 1 ? "00" + pair : pair + "41";
        const std::string text = "\"<\\u" + code + ">\"";
        bool hex = true;
        for (char ch : code)
        {
            hex = hex && isxdigit(static_cast<unsigned char>(ch));
        }
        const Exact exact(text);
        const auto result = decode(exact.view());
        ctx.cases();
        if (!hex)
        {
            MC_REQUIRE(ctx, !result.value.hasValue() || code.find('"') != std::string::npos, "escape", quote(text), " is decoded");
            continue;
        }
        const unsigned long c = std::stoul(code, nullptr, 16);
        std::string utf8;
        if (c < 0x80)
        {
            utf8 = std::string(1, static_cast<char>(c));
        }
        else if (c < 0x800)
        {
            utf8 = {static_cast<char>(0xc0 | c >> 6), static_cast<char>(0x80 | (c & 63))};
        }
        else
        {
            utf8 = {static_cast<char>(0xe0 | c >> 12), static_cast<char>(0x80 | (c >> 6 & 63)), static_cast<char>(0x80 | (c & 63))};
        }
        if (c < 0x20 || result.value.hasValue())
        {
            checkDecodes<std::string>(ctx, text, "<" + utf8 + ">", quote(text));
        }
    }
    ctx.step();
    ctx.state(5001 + kind * 128 + first);
}

// ---------------------------------------------------------------- literals

bool digit(char ch)
{
    return ch >= '0' && ch <= '9';
}

// JSON's number grammar
bool strictNumber(const std::string& t, bool& real)
{
    size_t i = 0;
    real = false;
    if (i < t.size() && t[i] == '-')
    {
        ++i;
    }
    if (i >= t.size() || !digit(t[i]))
    {
        return false;
    }
    if (t[i] == '0')
    {
        ++i;
    }
    else
    {
        while (i < t.size() && digit(t[i]))
        {
            ++i;
        }
    }
    if (i < t.size() && t[i] == '.')
    {
        real = true;
        ++i;
        if (i >= t.size() || !digit(t[i]))
        {
            return false;
        }
        while (i < t.size() && digit(t[i]))
        {
            ++i;
        }
    }
    if (i < t.size() && (t[i] == 'e' || t[i] == 'E'))
    {
        real = true;
        ++i;
        if (i < t.size() && (t[i] == '+' || t[i] == '-'))
        {
            ++i;
        }
        if (i >= t.size() || !digit(t[i]))
        {
            return false;
        }
        while (i < t.size() && digit(t[i]))
        {
            ++i;
        }
    }
    return i == t.size();
}

// every text over the characters of numbers: numbers are decoded exactly, the rest is rejected or read as far as it
// is a number and with the value that part has
void numberTexts(Ctx& ctx)
{
    static const std::string alphabet = "0159-+.eE";
    const uint32_t depth = ctx.thorough() ? 8 : 6;
    const uint32_t length = 1 + ctx.choose(depth);
    std::string text;
    for (uint32_t i = 0; i + 1 < length; ++i)
    {
        text.push_back(alphabet[ctx.choose(static_cast<uint32_t>(alphabet.size()))]);
    }
    text.push_back(' ');
    for (char ch : alphabet)
    {
        text.back() = ch;
        const Exact exact(text);
        const auto result = decode(exact.view());
        bool real = false;
        const bool strict = strictNumber(text, real);
        if (strict && (!result.value.hasValue() || result.numReadChars != text.size()))
        {
            ctx.fail("number-rejected", str(text, " is not decoded"));
        }
        if (result.numReadChars > text.size())
        {
            ctx.fail("number-length", str(text, ": ", result.numReadChars, " characters are read"));
        }
        if (result.value.hasValue())
        {
            const std::string used = text.substr(0, result.numReadChars);
            char* stop = nullptr;
            const long double expected = std::strtold(used.c_str(), &stop);
            bool same = *stop == 0 && !used.empty();
            const bool integer = used.find_first_of(".eE") == std::string::npos;
            if (result.value.isType<uint64_t>())
            {
                same = same && integer && used[0] != '-' && expected == static_cast<long double>(result.value.get<uint64_t>());
            }
            else if (result.value.isType<int64_t>())
            {
                same = same && integer && used[0] == '-' && expected == static_cast<long double>(result.value.get<int64_t>());
            }
            else
            {
                same = same && !integer && result.value.isType<double>() && std::strtod(used.c_str(), nullptr) == result.value.get<double>();
            }
            if (!same)
            {
                ctx.fail("number-value", str(text, " is decoded to another value"));
            }
        }
        ctx.cases();
    }
    ctx.step(alphabet.size());
    ctx.state(text);
}

void literals(Ctx& ctx)
{
    const uint32_t which = ctx.choose(7);
    ctx.step();
    ctx.state(6000 + which);
    std::ostringstream stream;
    std::string text;
    switch (which)
    {
    case 0:
        JsonEncoder::encodeNull(stream);
        checkDecodes<std::nullptr_t>(ctx, text = stream.str(), nullptr, "null");
        break;
    case 1:
        JsonEncoder::encodeBool(stream, true);
        checkDecodes<bool>(ctx, text = stream.str(), true, "true");
        break;
    case 2:
        JsonEncoder::encodeBool(stream, false);
        checkDecodes<bool>(ctx, text = stream.str(), false, "false");
        break;
    case 3:
        checkDecodes<double>(ctx, text = "NaN", NAN, "NaN");
        checkDouble(ctx, NAN);
        checkDouble(ctx, -NAN);
        break;
    case 4:
        checkDecodes<double>(ctx, text = "Infinity", INFINITY, "Infinity");
        checkDouble(ctx, INFINITY);
        break;
    case 5:
        checkDecodes<double>(ctx, text = "-Infinity", -INFINITY, "-Infinity");
        checkDouble(ctx, -INFINITY);
        break;
    default:
        MC_REQUIRE(ctx, !decode(std::string_view()).value.hasValue() && decode(std::string_view()).numReadChars == 0, "empty", "nothing is decoded");
        return;
    }
    // cut anywhere and with any character replaced it is not that literal
    for (size_t n = 1; n <= text.size(); ++n)
    {
        for (int b = -1; b < 256; ++b)
        {
            std::string other = text.substr(0, n);
            if (b < 0 && n == text.size())
            {
                continue;
            }
            if (b >= 0)
            {
                if (text[n - 1] == static_cast<char>(b))
                {
                    continue;
                }
                other = text;
                other[n - 1] = static_cast<char>(b);
            }
            const Exact exact(other);
            const auto result = decode(exact.view());
            // only a number in front of the rest may be read, e.g. when the first character becomes a digit
            if (result.value.hasValue())
            {
                const std::string used = other.substr(0, result.numReadChars);
                MC_REQUIRE(ctx, used.find_first_not_of("0123456789.-") == std::string::npos || used == "Infinity", "literal", quote(other), " is decoded");
            }
            MC_REQUIRE(ctx, result.numReadChars <= other.size(), "literal-length", quote(other), ": ", result.numReadChars, " characters are read");
            ctx.cases();
        }
    }
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {{"integers", integers, 1}, {"integer-limits", integerLimits, 2}, {"doubles", doubles, 1}, {"floats", floats, 1}, {"halves", halves, 1},
                    {"decimals", decimals, 2}, {"strings", strings, 1}, {"special-strings", specialStrings, 2}, {"escapes", escapes, 2},
                    {"number-texts", numberTexts, 3}, {"literals", literals, 1}});
}
