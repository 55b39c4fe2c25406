// C14: JSON text is tokenised and parsed as its grammar says.
// mc: level=model_checking opt=2
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <cstring>
#include <sstream>

#include "mc.h"
#include "zserio/JsonParser.h"
#include "zserio/JsonTokenizer.h"

using mc::Ctx;
using mc::str;
using namespace zserio;

namespace
{

// ---------------------------------------------------------------- reference

struct Tok
{
    JsonToken kind = JsonToken::UNKNOWN;
    std::string value; // kind prefix and text
    size_t line = 0;
    size_t column = 0;
};

struct Lexed
{
    std::vector<Tok> tokens; // the last one is END_OF_FILE unless malformed
    bool malformed = false;
    size_t line = 0; // of the malformed token
    size_t column = 0;
};

bool digit(char ch)
{
    return ch >= '0' && ch <= '9';
}

std::string doubleText(double d)
{
    uint64_t bits;
    std::memcpy(&bits, &d, 8);
    return d != d ? std::string("d:nan") : str("d:", bits);
}

// length of the value token at the beginning of text and its value, or false
bool lexValue(const std::string& text, size_t pos, size_t& length, std::string& value)
{
    static const std::pair<const char*, const char*> literals[] = {
            {"null", "null"}, {"true", "b:1"}, {"false", "b:0"}, {"NaN", "d:nan"}, {"Infinity", nullptr}, {"-Infinity", nullptr}};
    for (const auto& literal : literals)
    {
        const size_t n = std::strlen(literal.first);
        if (text.compare(pos, n, literal.first) == 0)
        {
            length = n;
            value = literal.second ? literal.second : doubleText(literal.first[0] == '-' ? -INFINITY : INFINITY);
            return true;
        }
    }
    if (text[pos] == '"')
    {
        value = "s:";
        for (size_t i = pos + 1; i < text.size(); ++i)
        {
            const char ch = text[i];
            if (ch == 0)
            {
                return false;
            }
            if (ch == '"')
            {
                length = i + 1 - pos;
                return true;
            }
            if (ch != '\\')
            {
                value.push_back(ch);
                continue;
            }
            ++i;
            static const std::string from = "\\\"bfnrt", to = "\\\"\b\f\n\r\t";
            const size_t k = i < text.size() ? from.find(text[i]) : std::string::npos;
            if (k != std::string::npos)
            {
                value.push_back(to[k]);
                continue;
            }
            if (i < text.size() && text[i] == 'u' && i + 4 < text.size() && text[i + 1] == '0' && text[i + 2] == '0' &&
                    isxdigit(static_cast<unsigned char>(text[i + 3])) && isxdigit(static_cast<unsigned char>(text[i + 4])))
            {
                const unsigned long code = std::stoul(text.substr(i + 3, 2), nullptr, 16);
                if (code < 0x80)
                {
                    value.push_back(static_cast<char>(code));
                }
                else
                {
                    value.push_back(static_cast<char>(0xc0 | code >> 6));
                    value.push_back(static_cast<char>(0x80 | (code & 0x3f)));
                }
                i += 4;
                continue;
            }
            return false;
        }
        return false;
    }
    // number: the longest run of [-] digits, one point before an exponent, one exponent with a sign
    size_t end = pos;
    const bool negative = text[end] == '-';
    if (negative)
    {
        ++end;
    }
    bool real = false, exponent = false;
    while (end < text.size())
    {
        const char ch = text[end];
        if (digit(ch))
        {
            ++end;
        }
        else if ((ch == 'e' || ch == 'E') && !exponent)
        {
            exponent = real = true;
            ++end;
            if (end < text.size() && (text[end] == '+' || text[end] == '-'))
            {
                ++end;
            }
        }
        else if (ch == '.' && !real)
        {
            real = true;
            ++end;
        }
        else
        {
            break;
        }
    }
    const std::string number = text.substr(pos, end - pos);
    if (number.empty() || number == "-")
    {
        return false;
    }
    length = number.size();
    if (real)
    {
        char* stop = nullptr;
        const double d = std::strtod(number.c_str(), &stop);
        if (*stop)
        {
            return false;
        }
        value = doubleText(d);
        return true;
    }
    // integer by long addition on 128 bits
    unsigned __int128 magnitude = 0;
    for (char ch : number)
    {
        if (digit(ch))
        {
            magnitude = magnitude * 10 + static_cast<unsigned>(ch - '0');
            if (magnitude >> 70)
            {
                return false;
            }
        }
    }
    const unsigned __int128 limit = negative ? static_cast<unsigned __int128>(1) << 63 : UINT64_MAX;
    if (magnitude > limit)
    {
        return false;
    }
    value = negative ? str("i:", static_cast<int64_t>(0 - static_cast<uint64_t>(magnitude)))
                     : str("u:", static_cast<uint64_t>(magnitude));
    return true;
}

Lexed lex(const std::string& text)
{
    Lexed out;
    size_t pos = 0, line = 1, column = 1;
    while (true)
    {
        while (pos < text.size())
        {
            const char ch = text[pos];
            if (ch == ' ' || ch == '\t')
            {
                ++pos;
                ++column;
            }
            else if (ch == '\n')
            {
                ++pos;
                ++line;
                column = 1;
            }
            else if (ch == '\r' && pos + 1 < text.size()) // a return that ends the text starts no line
            {
                pos += text[pos + 1] == '\n' ? 2 : 1;
                ++line;
                column = 1;
            }
            else
            {
                break;
            }
        }
        Tok tok;
        tok.line = line;
        tok.column = column;
        if (pos >= text.size() || (text[pos] == '\r' && pos + 1 == text.size()))
        {
            tok.kind = JsonToken::END_OF_FILE;
            out.tokens.push_back(tok);
            return out;
        }
        static const std::string punctuation = "{}[]:,";
        static const JsonToken kinds[] = {JsonToken::BEGIN_OBJECT, JsonToken::END_OBJECT, JsonToken::BEGIN_ARRAY,
                JsonToken::END_ARRAY, JsonToken::KEY_SEPARATOR, JsonToken::ITEM_SEPARATOR};
        const size_t p = punctuation.find(text[pos]);
        size_t length = 1;
        if (p != std::string::npos)
        {
            tok.kind = kinds[p];
            tok.value = str("c:", text[pos]);
        }
        else if (lexValue(text, pos, length, tok.value))
        {
            tok.kind = JsonToken::VALUE;
        }
        else
        {
            out.malformed = true;
            out.line = line;
            out.column = column;
            return out;
        }
        pos += length;
        column += length;
        out.tokens.push_back(tok);
    }
}

// events of one element after another, the way a caller calls parse() again while it returns false;
// "!l:c" is a rejection at that position
struct Parsed
{
    std::string events;
    bool rejected = false;
    size_t line = 0;
    size_t column = 0;
    bool keyError = false;
};

class Reference
{
public:
    explicit Reference(const Lexed& lexed) :
            m_lexed(lexed)
    {}

    Parsed run()
    {
        // the parser looks one token ahead
        if (advance())
        {
            while (m_tok->kind != JsonToken::END_OF_FILE)
            {
                if (!element())
                {
                    break;
                }
                m_out.events += m_tok->kind == JsonToken::END_OF_FILE ? "" : "again ";
            }
        }
        return m_out;
    }

private:
    bool advance()
    {
        if (m_next >= m_lexed.tokens.size())
        {
            m_out.rejected = true;
            m_out.line = m_lexed.line;
            m_out.column = m_lexed.column;
            return false;
        }
        m_tok = &m_lexed.tokens[m_next++];
        return true;
    }
    bool reject()
    {
        m_out.rejected = true;
        m_out.line = m_tok->line;
        m_out.column = m_tok->column;
        return false;
    }
    bool expect(JsonToken kind)
    {
        return m_tok->kind == kind ? advance() : reject();
    }
    bool startsElement() const
    {
        return m_tok->kind == JsonToken::VALUE || m_tok->kind == JsonToken::BEGIN_ARRAY || m_tok->kind == JsonToken::BEGIN_OBJECT;
    }
    bool element()
    {
        if (m_tok->kind == JsonToken::VALUE)
        {
            m_out.events += m_tok->value + " ";
            return advance();
        }
        if (m_tok->kind == JsonToken::BEGIN_ARRAY)
        {
            if (!advance())
            {
                return false;
            }
            m_out.events += "[ ";
            if (startsElement())
            {
                if (!element())
                {
                    return false;
                }
                while (m_tok->kind == JsonToken::ITEM_SEPARATOR)
                {
                    if (!advance() || !element())
                    {
                        return false;
                    }
                }
            }
            if (!expect(JsonToken::END_ARRAY))
            {
                return false;
            }
            m_out.events += "] ";
            return true;
        }
        if (m_tok->kind == JsonToken::BEGIN_OBJECT)
        {
            if (!advance())
            {
                return false;
            }
            m_out.events += "{ ";
            if (m_tok->kind == JsonToken::VALUE)
            {
                if (!member())
                {
                    return false;
                }
                while (m_tok->kind == JsonToken::ITEM_SEPARATOR)
                {
                    if (!advance() || !member())
                    {
                        return false;
                    }
                }
            }
            if (!expect(JsonToken::END_OBJECT))
            {
                return false;
            }
            m_out.events += "} ";
            return true;
        }
        return reject();
    }
    bool member()
    {
        if (m_tok->kind != JsonToken::VALUE)
        {
            return reject();
        }
        if (m_tok->value.compare(0, 2, "s:") != 0)
        {
            m_out.keyError = true;
            return reject();
        }
        m_out.events += "k" + m_tok->value + " ";
        return advance() && expect(JsonToken::KEY_SEPARATOR) && element();
    }

    const Lexed& m_lexed;
    size_t m_next = 0;
    const Tok* m_tok = nullptr;
    Parsed m_out;
};

// ---------------------------------------------------------------- implementation

std::string valueText(const BasicAny<std::allocator<uint8_t>>& any)
{
    if (!any.hasValue())
    {
        return "";
    }
    if (any.isType<std::nullptr_t>())
    {
        return "null";
    }
    if (any.isType<bool>())
    {
        return str("b:", any.get<bool>());
    }
    if (any.isType<int64_t>())
    {
        return str("i:", any.get<int64_t>());
    }
    if (any.isType<uint64_t>())
    {
        return str("u:", any.get<uint64_t>());
    }
    if (any.isType<double>())
    {
        return doubleText(any.get<double>());
    }
    if (any.isType<char>())
    {
        return str("c:", any.get<char>());
    }
    if (any.isType<std::string>())
    {
        return "s:" + any.get<std::string>();
    }
    return "?";
}

struct Memory : std::streambuf
{
    explicit Memory(const std::string& text)
    {
        char* data = const_cast<char*>(text.data());
        setg(data, data, data + text.size());
    }
};

// position given in front of the message
bool parsePosition(const std::string& message, const char* prefix, size_t& line, size_t& column)
{
    unsigned long l = 0, c = 0;
    if (std::sscanf(message.c_str(), (std::string(prefix) + ":%lu:%lu:").c_str(), &l, &c) != 2)
    {
        return false;
    }
    line = l;
    column = c;
    return true;
}

std::string quote(const std::string& text)
{
    std::string out = "'";
    for (char ch : text)
    {
        out += ch == '\n' ? "\\n" : ch == '\r' ? "\\r" : ch == '\t' ? "\\t" : std::string(1, ch);
    }
    return text.size() > 300 ? out.substr(0, 40) + str("...(", text.size(), " characters)...") + out.substr(out.size() - 60) + "'" : out + "'";
}

__attribute__((noinline)) void checkTokens(Ctx& ctx, const std::string& text, const Lexed& expected)
{
    Memory memory(text);
    std::istream in(&memory);
    BasicJsonTokenizer<> tokenizer(in, std::allocator<uint8_t>());
    if (tokenizer.getToken() != (text.empty() ? JsonToken::END_OF_FILE : JsonToken::BEGIN_OF_FILE))
    {
        ctx.fail("first", str("token before the first one of ", quote(text), " is ", static_cast<int>(tokenizer.getToken())));
    }
    for (size_t i = 0;; ++i)
    {
        JsonToken token = JsonToken::UNKNOWN;
        std::string error;
        bool threw = false;
        try
        {
            token = tokenizer.next();
        }
        catch (const JsonParserException& e)
        {
            threw = true;
            error = e.what();
        }
        catch (const std::exception& e)
        {
            ctx.fail("token-exception", str("token ", i, " of ", quote(text), " throws another exception: ", e.what()));
        }
        const bool last = i >= expected.tokens.size();
        if (threw != last)
        {
            ctx.fail(threw ? "token-rejected" : "token-accepted",
                    str("token ", i, " of ", quote(text), threw ? " is rejected: " : " is accepted: ", error, static_cast<int>(token)));
        }
        if (threw)
        {
            size_t line = 0, column = 0;
            if (!parsePosition(error, "JsonTokenizer", line, column) || line != expected.line || column != expected.column)
            {
                ctx.fail("token-error-position", str("wrong token of ", quote(text), " is at ", expected.line, ":", expected.column, " but the message is ", error));
            }
            return;
        }
        const Tok& tok = expected.tokens[i];
        if (token != tok.kind || tokenizer.getToken() != token)
        {
            ctx.fail("token-kind", str("token ", i, " of ", quote(text), " is ", static_cast<int>(token), " instead of ", static_cast<int>(tok.kind)));
        }
        if (valueText(tokenizer.getValue()) != tok.value)
        {
            ctx.fail("token-value", str("token ", i, " of ", quote(text), " has value ", quote(valueText(tokenizer.getValue())), " instead of ", quote(tok.value)));
        }
        if (tokenizer.getLine() != tok.line || tokenizer.getColumn() != tok.column)
        {
            ctx.fail("token-position", str("token ", i, " of ", quote(text), " is at ", tokenizer.getLine(), ":", tokenizer.getColumn(), " instead of ", tok.line, ":", tok.column));
        }
        if (token == JsonToken::END_OF_FILE)
        {
            if (tokenizer.next() != JsonToken::END_OF_FILE || tokenizer.getLine() != tok.line || tokenizer.getColumn() != tok.column)
            {
                ctx.fail("end", str("the end of ", quote(text), " does not stay"));
            }
            return;
        }
    }
}

struct Recorder : JsonParser::IObserver
{
    std::string events;
    void beginObject() override { events += "{ "; }
    void endObject() override { events += "} "; }
    void beginArray() override { events += "[ "; }
    void endArray() override { events += "] "; }
    void visitKey(std::string_view key) override { events += "ks:" + std::string(key) + " "; }
    void visitValue(std::nullptr_t) override { events += "null "; }
    void visitValue(bool v) override { events += str("b:", v, " "); }
    void visitValue(int64_t v) override { events += str("i:", v, " "); }
    void visitValue(uint64_t v) override { events += str("u:", v, " "); }
    void visitValue(double v) override { events += doubleText(v) + " "; }
    void visitValue(std::string_view v) override { events += "s:" + std::string(v) + " "; }
};

__attribute__((noinline)) void checkParser(Ctx& ctx, const std::string& text, const Lexed& lexed)
{
    const Parsed expected = Reference(lexed).run();
    Memory memory(text);
    std::istream in(&memory);
    Recorder recorder;
    JsonParser parser(in, recorder);
    std::string error;
    bool rejected = false;
    try
    {
        for (size_t i = 0; !parser.parse(); ++i)
        {
            recorder.events += "again ";
            if (i > text.size())
            {
                ctx.fail("parser-loop", str("parsing ", quote(text), " does not end"));
            }
        }
    }
    catch (const JsonParserException& e)
    {
        rejected = true;
        error = e.what();
    }
    catch (const std::exception& e)
    {
        ctx.fail("parser-exception", str("parsing ", quote(text), " throws another exception: ", e.what()));
    }
    if (rejected != expected.rejected)
    {
        ctx.fail(rejected ? "rejected" : "accepted", str(quote(text), rejected ? " is rejected: " : " is accepted", error));
    }
    if (recorder.events != expected.events)
    {
        ctx.fail("events", str("parsing ", quote(text), " reports ", quote(recorder.events), " instead of ", quote(expected.events)));
    }
    if (rejected)
    {
        size_t line = 0, column = 0;
        if ((!parsePosition(error, "JsonParser", line, column) && !parsePosition(error, "JsonTokenizer", line, column)) ||
                line != expected.line || column != expected.column)
        {
            ctx.fail("error-position", str(quote(text), " is wrong at ", expected.line, ":", expected.column, " but the message is ", error));
        }
        if ((error.find("Key must be") != std::string::npos) != expected.keyError)
        {
            ctx.fail("key-error", str(quote(text), " is rejected with ", error));
        }
    }
    if (parser.getLine() != (rejected ? expected.line : lexed.tokens.back().line) ||
            parser.getColumn() != (rejected ? expected.column : lexed.tokens.back().column))
    {
        ctx.fail("parser-position", str("after ", quote(text), " the parser is at ", parser.getLine(), ":", parser.getColumn()));
    }
}

void check(Ctx& ctx, const std::string& text)
{
    const Lexed lexed = lex(text);
    checkTokens(ctx, text, lexed);
    checkParser(ctx, text, lexed);
    ctx.cases();
    ctx.step(lexed.tokens.size());
}

// ---------------------------------------------------------------- scenarios

void characters(Ctx& ctx)
{
    static const std::string alphabet("{}[]:,\"\\un0-1.e+ \n\r\tN-f;", 25);
    const uint32_t depth = ctx.thorough() ? 5 : 4;
    std::string text;
    const uint32_t length = ctx.choose(depth + 1);
    for (uint32_t i = 0; i + 1 < length; ++i)
    {
        text.push_back(alphabet[ctx.choose(static_cast<uint32_t>(alphabet.size()))]);
    }
    if (length == 0)
    {
        check(ctx, text);
        return;
    }
    text.push_back(' ');
    for (char ch : alphabet)
    {
        text.back() = ch;
        check(ctx, text);
    }
    ctx.state(text);
    ctx.sample(quote(text));
}

const std::vector<std::string>& words()
{
    static const std::vector<std::string> w = {"{", "}", "[", "]", ":", ",", "\"a\"", "\"\\u0009\\n\\\"\"", "12", "-3", "1.5", "null", "true ", "nul", "\n", "\r", " ",
            "NaN", "-Infinity", "18446744073709551616", "\"x", "1e", "-9223372036854775808", "false"};
    return w;
}

// sequences of tokens; structure is what matters here
void tokens(Ctx& ctx)
{
    const uint32_t depth = ctx.thorough() ? 7 : 6;
    static const std::vector<std::string> structure = {"{", "}", "[", "]", ":", ",", "\"a\"", "1", "null", "\n"};
    std::string text;
    for (uint32_t i = 0; i < depth; ++i)
    {
        const uint32_t k = ctx.choose(static_cast<uint32_t>(structure.size()) + 1);
        if (k == structure.size())
        {
            break; // shorter text
        }
        text += structure[k];
        // a text whose beginning is rejected by the grammar is not extended further
        const Lexed lexed = lex(text);
        const Parsed parsed = Reference(lexed).run();
        if (parsed.rejected && !(lexed.tokens.size() && parsed.line == lexed.tokens.back().line && parsed.column == lexed.tokens.back().column))
        {
            break;
        }
    }
    check(ctx, text);
    ctx.state(text);
    ctx.sample(quote(text));
}

void words4(Ctx& ctx)
{
    const uint32_t depth = ctx.thorough() ? 4 : 3;
    std::string text;
    for (uint32_t i = 0; i < depth; ++i)
    {
        text += ctx.pick(words());
        check(ctx, text);
    }
    for (const std::string& w : words())
    {
        check(ctx, text + w);
    }
    ctx.state(text);
    ctx.sample(quote(text));
}

// every byte at every place of a text
void bytes(Ctx& ctx)
{
    static const std::vector<std::string> texts = {"{\"a\": [1, -2.5e3, \"x\\u001fy\"], \"b\": null}\n", "\"\\u00ff\\n\"", "[true,false,NaN,Infinity,-Infinity]",
            "-9223372036854775808", "18446744073709551615", "\r\n\t{ }\r"};
    const std::string& base = ctx.pick(texts);
    const uint32_t pos = ctx.choose(static_cast<uint32_t>(base.size()));
    for (int b = 0; b < 256; ++b)
    {
        std::string text = base;
        text[pos] = static_cast<char>(b);
        check(ctx, text);
        text = base;
        text.insert(pos, 1, static_cast<char>(b));
        check(ctx, text);
    }
    std::string cut = base.substr(0, pos);
    check(ctx, cut);
    ctx.state(cut);
}

// the input is read in chunks of 64 KiB: every way a text can be cut by the end of a chunk
void chunks(Ctx& ctx)
{
    static const std::vector<std::string> texts = {"1", "-12", "\"text\"", "\"a\\u001f\\\"\\\\\"", "null", "-Infinity", "1.5e+10", "{\"k\": 12}", "[1,2]",
            "\r\n5", " \r\n 5 ", "\n\n7\n", "\r\r\n\r9", "1 2", "nulx", "\"open", "1e", "-", "5\r", "{\"a\":\r\n}", "tru", "\"\\u00\"", "[\"x\" \"y\"]", "18446744073709551616",
            "", " ", "\r", "Infinity 3", "-5.25 true", "{\"a\":{\"b\":[null]}}"};
    static const size_t CHUNK = 65536;
    const std::string& text = ctx.pick(texts);
    const uint32_t cut = ctx.choose(static_cast<uint32_t>(text.size()) + 2); // characters of the text in front of the end of the chunk
    const uint32_t kind = ctx.choose(5);
    const uint32_t chunk = 1 + ctx.choose(ctx.thorough() ? 3 : 2);
    std::string pad;
    const size_t padding = chunk * CHUNK - cut;
    switch (kind)
    {
    case 0:
        pad.assign(padding, ' ');
        break;
    case 1:
        pad.assign(padding, '\n');
        break;
    case 2: // one long string in front
        pad = "\"" + std::string(padding - 2, 'x') + "\"";
        break;
    case 3: // many short tokens
        while (pad.size() + 4 <= padding)
        {
            pad += "17 \n";
        }
        pad.resize(padding, ' ');
        break;
    default: // a value right in front of the text
        pad.assign(padding - 5, '\t');
        pad += "true ";
        break;
    }
    check(ctx, pad + text);
    ctx.note(quote(text));
    ctx.state(Ctx::mix(Ctx::hashOf(text), cut * 100 + kind * 10 + chunk));
    ctx.sample(str(quote(text), " cut after ", cut, " characters, padding ", kind));
}

// long values spanning several chunks
void longValues(Ctx& ctx)
{
    const uint32_t kind = ctx.choose(3);
    const int delta = static_cast<int>(ctx.choose(9)) - 4;
    const size_t size = static_cast<size_t>(65536 * static_cast<int>(1 + ctx.choose(2)) + delta);
    std::string text;
    switch (kind)
    {
    case 0:
        text = "[\"" + std::string(size, 'y') + "\", 5]";
        break;
    case 1:
        text = "[" + std::string(size, '0') + "5.5]";
        break;
    default:
        text = "{\"" + std::string(size / 2, '\\') + (size / 2 % 2 ? "\\" : "") + "\" : -7}";
        break;
    }
    check(ctx, text);
    ctx.state(text.size() * 4 + kind);
}

// nesting: deep but reasonable nesting is parsed; extreme nesting does not crash the process
void nesting(Ctx& ctx)
{
    const uint32_t which = ctx.choose(8);
    if (which < 6)
    {
        const size_t depth = std::vector<size_t>{1, 2, 10, 100, 500, 1000}[which];
        std::string text;
        for (size_t i = 0; i < depth; ++i)
        {
            text += i % 2 ? "[" : "{\"k\":";
        }
        std::string open = text;
        text += "0";
        for (size_t i = depth; i-- > 0;)
        {
            text += i % 2 ? "]" : "}";
        }
        check(ctx, text);
        check(ctx, open);
        ctx.state(depth);
        return;
    }
    std::string text;
    for (size_t i = 0; i < 1000000; ++i)
    {
        text += which == 6 ? "[" : "{\"\":";
    }
    ctx.step();
    ctx.state(which);
    ctx.note("a million nested arrays or objects");
    const pid_t child = fork();
    if (child == 0)
    {
        // the outcome is the exit status; nothing of the sanitizer's report is wanted
        close(1);
        close(2);
        int code = 0;
        try
        {
            Memory memory(text);
            std::istream in(&memory);
            Recorder recorder;
            JsonParser parser(in, recorder);
            parser.parse();
            code = 3;
        }
        catch (const JsonParserException&)
        {
            code = 7;
        }
        catch (...)
        {
            code = 4;
        }
        _exit(code);
    }
    int status = 0;
    waitpid(child, &status, 0);
    MC_REQUIRE(ctx, WIFEXITED(status) && WEXITSTATUS(status) == 7, "deep-nesting", "a million nested ", which == 6 ? "arrays" : "objects",
            " end the process instead of being rejected");
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {{"characters", characters, 3}, {"tokens", tokens, 3}, {"words", words4, 2}, {"bytes", bytes, 2}, {"chunks", chunks, 3},
                    {"long-values", longValues, 2}, {"nesting", nesting, 1}});
}
