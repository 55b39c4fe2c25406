// C16: debug JSON of an object shows it, reads back into an equal object, and other input is rejected.
// mc: level=model_checking opt=0 sources=std_test_object
#include <unistd.h>

#include <cstdlib>
#include <fstream>
#include <functional>
#include <memory>
#include <sstream>

#include "access.h"
#include "mc.h"
#include "objects.h"
#include "schema.h"
#include "treecmp.h"
#include "zserio/DebugStringUtil.h"
#include "zserio/ReflectableData.h"
#include "zserio/TypeInfo.h"

using mc::Ctx;
using mc::str;
using namespace zserio;
using obj::Node;
namespace to = ::test_object::std_allocator;
namespace ob = ::obj::std_allocator;

namespace
{

// ---------------------------------------------------------------- the reference text

struct Format
{
    bool lines = false;
    std::string indent;
    std::string item = ", ";
    std::string key = ": ";
    bool numbers = false;
};

std::string quoted(const std::string& text)
{
    std::string out = "\"";
    for (char c : text)
    {
        static const std::string special = "\"\\\b\f\n\r\t";
        static const std::string letters = "\"\\bfnrt";
        const size_t which = special.find(c);
        if (which != std::string::npos && c != '\0')
        {
            out += '\\';
            out += letters[which];
        }
        else if (static_cast<unsigned char>(c) < 0x20)
        {
            char buffer[8];
            std::snprintf(buffer, sizeof(buffer), "\\u%04x", static_cast<unsigned>(c));
            out += buffer;
        }
        else
        {
            out += c;
        }
    }
    return out + "\"";
}

class Render
{
public:
    explicit Render(const Format& format) :
            m_format(format)
    {}
    std::string text(const Node& node)
    {
        value(node);
        return m_out;
    }

private:
    void open(char c)
    {
        m_out += c;
        ++m_level;
        m_first = true;
    }
    void close(char c)
    {
        --m_level;
        line();
        m_out += c;
        m_first = false;
    }
    void line()
    {
        if (m_format.lines)
        {
            m_out += '\n';
            for (size_t i = 0; i < m_level; ++i)
            {
                m_out += m_format.indent;
            }
        }
    }
    void item()
    {
        if (!m_first)
        {
            m_out += m_format.item;
        }
        m_first = false;
        line();
    }
    void key(const std::string& name)
    {
        item();
        m_out += quoted(name) + m_format.key;
    }
    void bytes(const std::string& data)
    {
        key("buffer");
        open('[');
        for (char c : data)
        {
            item();
            m_out += std::to_string(static_cast<unsigned char>(c));
        }
        close(']');
    }
    static std::string mask(uint64_t value)
    {
        static const char* const names[] = {"", "READ", "WRITE", "READ | WRITE"};
        const std::string known = names[value & 3];
        if (known.empty())
        {
            return std::to_string(value) + " /* no match */";
        }
        return value > 3 ? std::to_string(value) + " /* partial match: " + known + " */" : known;
    }
    void value(const Node& node)
    {
        switch (node.kind)
        {
        case Node::NUL:
            m_out += "null";
            break;
        case Node::BOOL:
            m_out += node.u ? "true" : "false";
            break;
        case Node::SIGNED:
            m_out += std::to_string(node.i);
            break;
        case Node::UNSIGNED:
            m_out += std::to_string(node.u);
            break;
        case Node::STRING:
            m_out += quoted(node.text);
            break;
        case Node::BYTES:
            open('{');
            bytes(node.text);
            close('}');
            break;
        case Node::BITS:
            open('{');
            bytes(node.text);
            key("bitSize");
            m_out += std::to_string(node.bits);
            close('}');
            break;
        case Node::ENUM:
            m_out += m_format.numbers ? std::to_string(node.i) : quoted(node.text);
            break;
        case Node::BITMASK:
            m_out += m_format.numbers ? std::to_string(node.u) : quoted(mask(node.u));
            break;
        case Node::COMPOUND:
            open('{');
            for (const Node& child : node.children)
            {
                if (!node.isChoice || child.name == node.chosen)
                {
                    key(child.name);
                    value(child);
                }
            }
            close('}');
            break;
        default:
            open('[');
            for (const Node& child : node.children)
            {
                item();
                value(child);
            }
            close(']');
            break;
        }
    }
    Format m_format;
    std::string m_out;
    size_t m_level = 0;
    bool m_first = true;
};

std::string render(const Node& node, const Format& format)
{
    return Render(format).text(node);
}

const std::vector<Format>& formats()
{
    static const std::vector<Format> out = {{}, {true, "", ",", ": "}, {true, " ", ",", ": "}, {true, "    ", ",", ": "},
            {true, "\t", ",", ": "}, {false, "", ",", ":"}, {true, "  ", " ,", " : "}};
    return out;
}

template <typename T>
std::string write(const T& object, uint32_t which, bool numbers)
{
    std::ostringstream stream;
    const Format& format = formats()[which];
    std::unique_ptr<JsonWriter> writer;
    if (which == 0 || which == 5)
    {
        writer = std::make_unique<JsonWriter>(stream);
    }
    else if (which == 4)
    {
        writer = std::make_unique<JsonWriter>(stream, format.indent);
    }
    else
    {
        writer = std::make_unique<JsonWriter>(stream, static_cast<uint8_t>(format.indent.size()));
    }
    if (which >= 5)
    {
        writer->setItemSeparator(format.item);
        writer->setKeySeparator(format.key);
    }
    if (numbers)
    {
        writer->setEnumerableFormat(JsonWriter::EnumerableFormat::NUMBER);
    }
    Walker walker(*writer);
    walker.walk(reflectable(object));
    return stream.str();
}

std::string shown(const std::string& text)
{
    return text.size() > 2000 ? text.substr(0, 2000) + "..." : text;
}

// ---------------------------------------------------------------- writing and reading back

template <typename T>
void roundTrip(Ctx& ctx, const T& object, uint32_t which)
{
    const bool numbers = ctx.thorough() ? ctx.flip() : which % 2 == 1;
    const Node node = ob::treeOf(object);
    Format format = formats()[which];
    format.numbers = numbers;
    const std::string expected = render(node, format);
    const std::string text = write(object, which, numbers);
    MC_REQUIRE(ctx, text == expected, "text", shown(text), "\ninstead of\n", shown(expected));
    const T back = fromJsonString<T>(text);
    MC_REQUIRE(ctx, schema::sameNode(ob::treeOf(back), node), "back", "another object is read back from ", shown(text));
    MC_REQUIRE(ctx, back == object, "back", "the object read back does not equal the original, ", shown(text));
    std::istringstream stream(text);
    const auto data = JsonReader(stream).read(typeInfo<T>());
    const std::string difference = treecmp::deep(data, node);
    MC_REQUIRE(ctx, difference.empty(), "back", difference, " when read from ", shown(text));
    ctx.step();
}

template <typename F>
void objects(Ctx& ctx, uint32_t size, F&& use)
{
    switch (ctx.choose(4))
    {
    case 0:
        use(ob::creatorObject(ctx, size));
        break;
    case 1:
        use(ob::walkerObject(ctx, size));
        break;
    case 2:
        use(ob::reflectableObject(ctx, size));
        break;
    default:
        use(ob::reflectableUtilUnion(ctx, size));
        break;
    }
}

// ---------------------------------------------------------------- several objects in one text

__attribute__((noinline)) bool throws(const std::function<void()>& f)
{
    try
    {
        f();
        return false;
    }
    catch (const CppRuntimeException&)
    {
        return true;
    }
}

void manyObjects(Ctx& ctx)
{
    namespace to = test_object::std_allocator;
    const uint32_t count = ctx.choose(5);
    const char* const separator = ctx.pick(std::vector<const char*>{"", " ", "\n", "\r\n\t "});
    std::vector<Node> nodes;
    std::vector<uint32_t> types;
    std::string text;
    for (uint32_t i = 0; i < count; ++i)
    {
        types.push_back(ctx.choose(2));
        if (types.back() == 0)
        {
            to::CreatorNested object;
            object.value = i;
            object.text = std::string(i, 'a');
            nodes.push_back(ob::treeOf(object));
            text += write(object, i % 2, false);
        }
        else
        {
            const to::WalkerNested object(std::string(i, 'b'));
            nodes.push_back(ob::treeOf(object));
            text += write(object, i % 2, false);
        }
        text += separator;
    }
    std::istringstream stream(text);
    JsonReader reader(stream);
    // each of them once and in order, and none when there is no other
    for (uint32_t i = 0; i < count + 2; ++i)
    {
        const uint32_t type = i < count ? types[i] : ctx.choose(2);
        std::string difference;
        const bool thrown = throws([&] {
            const auto data = type == 0 ? reader.read(typeInfo<to::CreatorNested>())
                                        : reader.read(typeInfo<to::WalkerNested>());
            difference = i < count ? treecmp::deep(data, nodes[i]) : "an object is read although there is no other";
        });
        MC_REQUIRE(ctx, difference.empty(), "many", difference, " as object ", i, " of ", shown(text));
        MC_REQUIRE(ctx, thrown == (i >= count), "many", "object ", i, " of ", shown(text), " is refused");
        ctx.step();
    }
    ctx.state(Ctx::mix(Ctx::hashOf(text), count));
}

void everyObject(Ctx& ctx)
{
    objects(ctx, ctx.thorough() ? 1 : 2, [&](const auto& object) { roundTrip(ctx, object, 0); });
}
void everyFormat(Ctx& ctx)
{
    objects(ctx, 0, [&](const auto& object) { roundTrip(ctx, object, ctx.choose(static_cast<uint32_t>(formats().size()))); });
}

// ---------------------------------------------------------------- the functions of DebugStringUtil

class Scratch
{
public:
    Scratch()
    {
        char name[] = "/tmp/c16.XXXXXX";
        if (::mkdtemp(name) == nullptr)
        {
            throw std::runtime_error("no scratch directory");
        }
        m_directory = name;
    }
    ~Scratch()
    {
        ::unlink(file().c_str());
        ::rmdir(m_directory.c_str());
    }
    std::string file() const { return m_directory + "/object.json"; }
    std::string content() const
    {
        std::ifstream stream(file(), std::ios::binary);
        std::ostringstream out;
        out << stream.rdbuf();
        return out.str();
    }

private:
    std::string m_directory;
};

template <typename T>
void utility(Ctx& ctx, const T& object)
{
    const Node node = ob::treeOf(object);
    Node filtered = node; // without its arrays' elements
    const ArrayLengthWalkFilter none(0);
    std::function<void(Node&)> empty = [&](Node& n) {
        if (n.kind == Node::ARRAY)
        {
            n.children.clear();
        }
        for (Node& child : n.children)
        {
            empty(child);
        }
    };
    empty(filtered);
    const uint8_t indent = ctx.pick(std::vector<uint8_t>{0, 1, 4, 9});
    const Format spaced{true, std::string(indent, ' '), ",", ": "};
    const Format usual{true, "    ", ",", ": "};
    std::string text;
    std::string expected;
    std::ostringstream stream;
    static const Scratch scratch;
    const std::string name = scratch.file();
    const std::allocator<uint8_t> allocator;
    const uint32_t function = ctx.choose(18);
    ArrayLengthWalkFilter filter(0);
    switch (function)
    {
    case 0:
        toJsonStream(object, stream);
        break;
    case 1:
        toJsonStream(object, stream, allocator);
        break;
    case 2:
        toJsonStream(object, stream, indent);
        break;
    case 3:
        toJsonStream(object, stream, filter);
        break;
    case 4:
        toJsonStream(object, stream, indent, filter, allocator);
        break;
    case 5:
        toJsonStream(object, stream, indent, ArrayLengthWalkFilter(0));
        break;
    case 6:
        stream << toJsonString(object);
        break;
    case 7:
        stream << toJsonString(object, allocator);
        break;
    case 8:
        stream << toJsonString(object, indent);
        break;
    case 9:
        stream << toJsonString(object, filter);
        break;
    case 10:
        stream << toJsonString(object, indent, filter, allocator);
        break;
    case 11:
        stream << toJsonString(object, indent, ArrayLengthWalkFilter(0));
        break;
    case 12:
        toJsonFile(object, name);
        break;
    case 13:
        toJsonFile(object, name, allocator);
        break;
    case 14:
        toJsonFile(object, name, indent);
        break;
    case 15:
        toJsonFile(object, name, filter);
        break;
    case 16:
        toJsonFile(object, name, indent, filter, allocator);
        break;
    default:
        toJsonFile(object, name, indent, ArrayLengthWalkFilter(0));
        break;
    }
    text = function >= 12 ? scratch.content() : stream.str();
    const bool isFiltered = function % 6 >= 3;
    const bool isIndented = function % 6 == 2 || function % 6 >= 4;
    expected = render(isFiltered ? filtered : node, isIndented ? spaced : usual);
    MC_REQUIRE(ctx, text == expected, "text", "function ", function, ": ", shown(text), "\ninstead of\n", shown(expected));
    ctx.step();
    const Node& wanted = isFiltered ? filtered : node;
    {
        std::ofstream out(name, std::ios::binary | std::ios::trunc);
        out << text;
    }
    std::istringstream in(text);
    switch (ctx.choose(6))
    {
    case 0:
        MC_REQUIRE(ctx, schema::sameNode(ob::treeOf(fromJsonString<T>(text)), wanted), "back", shown(text));
        break;
    case 1:
        MC_REQUIRE(ctx, schema::sameNode(ob::treeOf(fromJsonStream<T>(in, allocator)), wanted), "back", shown(text));
        break;
    case 2:
        MC_REQUIRE(ctx, schema::sameNode(ob::treeOf(fromJsonFile<T>(name)), wanted), "back", shown(text));
        break;
    case 3:
        MC_REQUIRE(ctx, treecmp::deep(fromJsonString(typeInfo<T>(), text), wanted).empty(), "back", shown(text));
        break;
    case 4:
        MC_REQUIRE(ctx, treecmp::deep(fromJsonStream(typeInfo<T>(), in), wanted).empty(), "back", shown(text));
        break;
    default:
        MC_REQUIRE(ctx, treecmp::deep(fromJsonFile(typeInfo<T>(), name, allocator), wanted).empty(), "back", shown(text));
        break;
    }
    ctx.step();
}
void functions(Ctx& ctx)
{
    switch (ctx.choose(3))
    {
    case 0: {
        to::CreatorObject object;
        object.value = 7;
        object.nested = ob::creatorNested(ctx.choose(ob::creatorNestedVariants));
        object.textArray.push_back("a");
        object.nestedArray.resize(2);
        utility(ctx, object);
        break;
    }
    case 1: {
        to::WalkerObject object;
        object.identifier = ctx.choose(2) ? 13 : 0;
        if (object.identifier != 0)
        {
            object.nested.emplace();
        }
        object.unionArray.push_back(ob::walkerUnion(ctx.choose(ob::walkerUnionVariants)));
        utility(ctx, object);
        break;
    }
    default:
        utility(ctx, ob::reflectableUtilUnion(ctx, 0));
        break;
    }
}

// ---------------------------------------------------------------- reference reading

struct Token
{
    char kind; // { } [ ] : , s(tring) n(umber) t(rue) f(alse) 0 (null) ? (none of them)
    std::string text;
};

std::vector<Token> tokenise(const std::string& text)
{
    std::vector<Token> out;
    for (size_t i = 0; i < text.size();)
    {
        const char c = text[i];
        if (c == ' ' || c == '\n' || c == '\t' || c == '\r')
        {
            ++i;
            continue;
        }
        if (std::string("{}[]:,").find(c) != std::string::npos)
        {
            out.push_back({c, std::string(1, c)});
            ++i;
            continue;
        }
        size_t end = i + 1;
        if (c == '"')
        {
            while (end < text.size() && text[end] != '"')
            {
                end += text[end] == '\\' ? 2 : 1;
            }
            if (end >= text.size())
            {
                out.push_back({'?', text.substr(i)});
                break;
            }
            ++end;
            out.push_back({'s', text.substr(i, end - i)});
        }
        else
        {
            while (end < text.size() && std::string("{}[]:, \n\t\r\"").find(text[end]) == std::string::npos)
            {
                ++end;
            }
            const std::string word = text.substr(i, end - i);
            char kind = '?';
            if (word == "true")
            {
                kind = 't';
            }
            else if (word == "false")
            {
                kind = 'f';
            }
            else if (word == "null")
            {
                kind = '0';
            }
            else if (word[0] == '-' || (word[0] >= '0' && word[0] <= '9'))
            {
                const size_t digits = word[0] == '-' ? 1 : 0;
                const bool leadingZero = word.size() > digits + 1 && word[digits] == '0' && word[digits + 1] >= '0' && word[digits + 1] <= '9';
                char* stop = nullptr;
                std::strtod(word.c_str(), &stop);
                kind = *stop == '\0' && !leadingZero && word.size() > digits ? 'n' : '?';
            }
            out.push_back({kind, word});
        }
        i = end;
    }
    return out;
}
std::string unquoted(const std::string& text)
{
    std::string out;
    for (size_t i = 1; i + 1 < text.size(); ++i)
    {
        if (text[i] != '\\')
        {
            out += text[i];
            continue;
        }
        ++i;
        if (text[i] == 'u')
        {
            out += static_cast<char>(std::stoi(text.substr(i + 3, 2), nullptr, 16));
            i += 4;
        }
        else
        {
            static const std::string letters = "\"\\bfnrt";
            out += "\"\\\b\f\n\r\t"[letters.find(text[i])];
        }
    }
    return out;
}

// whether the tokens are one JSON value
class Grammar
{
public:
    explicit Grammar(const std::vector<Token>& tokens) :
            m_tokens(tokens)
    {}
    bool valid() { return value() && m_at == m_tokens.size(); }

private:
    char peek() const { return m_at < m_tokens.size() ? m_tokens[m_at].kind : '\0'; }
    bool take(char kind)
    {
        if (peek() == kind)
        {
            ++m_at;
            return true;
        }
        return false;
    }
    bool value()
    {
        if (take('{'))
        {
            if (take('}'))
            {
                return true;
            }
            do
            {
                if (!take('s') || !take(':') || !value())
                {
                    return false;
                }
            } while (take(','));
            return take('}');
        }
        if (take('['))
        {
            if (take(']'))
            {
                return true;
            }
            do
            {
                if (!value())
                {
                    return false;
                }
            } while (take(','));
            return take(']');
        }
        return take('s') || take('n') || take('t') || take('f') || take('0');
    }
    const std::vector<Token>& m_tokens;
    size_t m_at = 0;
};

// reads valid JSON into the model; false when it does not match the type
class Reader
{
public:
    Reader(const std::string& type, const std::vector<Token>& tokens) :
            m_model(type),
            m_tokens(tokens)
    {}
    bool read()
    {
        if (next().kind != '{')
        {
            return false;
        }
        m_model.beginRoot();
        return fields() && m_model.endRoot();
    }
    const Node& root() const { return m_model.root(); }

private:
    const Token& next() { return m_tokens[m_at++]; }
    char peek() const { return m_tokens[m_at].kind; }
    bool fields()
    {
        while (peek() != '}')
        {
            const std::string name = unquoted(next().text);
            ++m_at; // colon
            if (name.empty() || !value(&name))
            {
                return false;
            }
            if (peek() == ',')
            {
                ++m_at;
            }
        }
        ++m_at;
        return true;
    }
    bool put(const std::string* name, const schema::Convert& convert)
    {
        if (name == nullptr && !convert)
        {
            return false;
        }
        return name ? m_model.set(*name, convert) : m_model.add(convert);
    }
    bool value(const std::string* name)
    {
        const Token& token = next();
        switch (token.kind)
        {
        case '{': {
            const std::string type = name ? m_model.fieldType(*name) : m_model.elementType();
            if (type == "extern" || type == "bytes")
            {
                return binary(name, type);
            }
            if (!(name ? m_model.beginCompound(*name) : m_model.beginElement()) || !fields())
            {
                return false;
            }
            return name ? m_model.endCompound() : m_model.endElement();
        }
        case '[':
            if (!name || !m_model.beginArray(*name))
            {
                return false;
            }
            while (peek() != ']')
            {
                if (!value(nullptr))
                {
                    return false;
                }
                if (peek() == ',')
                {
                    ++m_at;
                }
            }
            ++m_at;
            return m_model.endArray();
        case 't':
        case 'f':
            return put(name, schema::boolConvert(token.kind == 't'));
        case '0':
            return put(name, nullptr);
        case 's':
            return put(name, schema::textConvert(unquoted(token.text)));
        default: {
            uint64_t number = 0;
            bool isNegative = false;
            return put(name, integer(token.text, number, isNegative) ? schema::integerConvert(isNegative && number != 0, number) : schema::neverConvert());
        }
        }
    }
    static bool integer(const std::string& text, uint64_t& number, bool& isNegative)
    {
        isNegative = text[0] == '-';
        if (text.find_first_of(".eE") != std::string::npos)
        {
            return false;
        }
        errno = 0;
        number = isNegative ? static_cast<uint64_t>(std::strtoll(text.c_str(), nullptr, 10))
                            : std::strtoull(text.c_str(), nullptr, 10);
        return errno == 0;
    }
    bool binary(const std::string* name, const std::string& type)
    {
        bool hasBuffer = false;
        bool hasSize = false;
        std::string data;
        uint64_t bits = 0;
        uint64_t number = 0;
        bool isNegative = false;
        while (peek() != '}')
        {
            const std::string key = unquoted(next().text);
            ++m_at;
            const Token& token = next();
            if (key == "buffer" && token.kind == '[')
            {
                data.clear();
                hasBuffer = true;
                while (peek() != ']')
                {
                    const Token& byte = next();
                    if (byte.kind != 'n' || !integer(byte.text, number, isNegative) || isNegative || number > UINT8_MAX)
                    {
                        return false;
                    }
                    data += static_cast<char>(number);
                    if (peek() == ',')
                    {
                        ++m_at;
                    }
                }
                ++m_at;
            }
            else if (key == "bitSize" && type == "extern" && token.kind == 'n')
            {
                if (!integer(token.text, bits, isNegative) || isNegative)
                {
                    return false;
                }
                hasSize = true;
            }
            else
            {
                return false;
            }
            if (peek() == ',')
            {
                ++m_at;
            }
        }
        ++m_at;
        if (!hasBuffer || (type == "extern" && (!hasSize || bits > data.size() * 8)))
        {
            return false;
        }
        Node node;
        node.kind = type == "bytes" ? Node::BYTES : Node::BITS;
        node.type = type;
        node.text = data; // a bit buffer keeps the bytes it was given
        node.bits = type == "bytes" ? 0 : bits;
        return put(name, [node](const std::string& wanted, Node& out) {
            out = node;
            return wanted == node.type;
        });
    }
    schema::Model m_model;
    const std::vector<Token>& m_tokens;
    size_t m_at = 0;
};

// whatever the text is, reading gives what the reference gives
template <typename T>
void checkRead(Ctx& ctx, const char* type, const std::string& text)
{
    const std::vector<Token> tokens = tokenise(text);
    IReflectableDataPtr data;
    const std::string result = acc::outcome([&] {
        data = fromJsonString(typeInfo<T>(), text);
        return std::string("read");
    });
    ctx.step();
    MC_REQUIRE(ctx, result == "read" || result == "refused", "outcome", result, " for ", shown(text));
    ctx.state(result);
    if (Grammar(tokens).valid())
    {
        Reader reader(type, tokens);
        const bool good = reader.read();
        ctx.state(good ? "matches" : "does not match");
        MC_REQUIRE(ctx, (result == "read") == good, "matching", result, " although it ", good ? "matches" : "does not match",
                " the type: ", shown(text));
        if (good)
        {
            const std::string difference = treecmp::deep(data, reader.root());
            MC_REQUIRE(ctx, difference.empty(), "content", difference, " when read from ", shown(text));
        }
    }
    if (result == "read")
    {
        // whatever was taken for an object is one
        const T& object = ReflectableUtil::getValue<T>(data);
        const Node node = ob::treeOf(object);
        const std::string difference = treecmp::deep(data, node);
        MC_REQUIRE(ctx, difference.empty(), "consistent", difference, " when read from ", shown(text));
    }
}

std::string nestedText(uint32_t variant)
{
    return render(ob::treeOf(ob::creatorNested(variant)), {});
}

// a few objects with everything in them
struct Sample
{
    const char* type;
    std::vector<std::string> tokens;
    void (*check)(Ctx&, const char*, const std::string&);
};
const std::vector<Sample>& samples()
{
    static const std::vector<Sample> out = [] {
        std::vector<Sample> s;
        auto add = [&](const char* type, const std::string& text, void (*check)(Ctx&, const char*, const std::string&)) {
            Sample sample{type, {}, check};
            for (const Token& token : tokenise(text))
            {
                sample.tokens.push_back(token.text);
            }
            s.push_back(sample);
        };
        add("CreatorNested", nestedText(2), checkRead<to::CreatorNested>);
        add("CreatorObject",
                "{\"value\": 13, \"nested\": {\"value\": 1, \"creatorEnum\": \"TWO\"}, \"text\": \"t\", \"nestedArray\": [{}, {\"text\": \"x\"}], "
                "\"textArray\": [\"a\", \"b\"], \"externArray\": [{\"buffer\": [255], \"bitSize\": 7}], "
                "\"bytesArray\": [{\"buffer\": [1]}, {\"buffer\": []}], \"optionalBool\": false, \"optionalNested\": {\"value\": 3}}",
                checkRead<to::CreatorObject>);
        add("CreatorObject",
                "{\"externArray\": null, \"bytesArray\": [], \"optionalBool\": null, \"optionalNested\": null, \"text\": \"t\"}",
                checkRead<to::CreatorObject>);
        add("WalkerObject",
                "{\"identifier\": 13, \"nested\": {\"text\": \"n\"}, \"unionArray\": [{\"value\": 3}, {\"text\": \"1\"}, "
                "{\"nestedArray\": [{\"text\": \"n\"}]}], \"optionalUnionArray\": null, \"choiceSelector\": 8, \"choiceField\": {\"value8\": 2}}",
                checkRead<to::WalkerObject>);
        add("ReflectableUtilUnion", "{\"reflectableUtilObject\": {\"choiceParam\": 1, \"reflectableUtilChoice\": {\"array\": [1, 2]}}}",
                checkRead<to::ReflectableUtilUnion>);
        add("ReflectableUtilUnion", "{\"reflectableUtilBitmask\": \"READ\"}", checkRead<to::ReflectableUtilUnion>);
        add("ReflectableUtilUnion", "{\"reflectableUtilEnum\": \"ONE\", \"reflectableUtilBitmask\": \"READ | WRITE\"}",
                checkRead<to::ReflectableUtilUnion>);
        return s;
    }();
    return out;
}

const std::vector<std::string>& replacements()
{
    static const std::vector<std::string> out = {"{", "}", "[", "]", ":", ",", "null", "true", "0", "1", "2", "255", "256",
            "4294967296", "18446744073709551615", "99999999999999999999", "-1", "-128", "-129", "1.5", "1e2", "\"\"", "\"ONE\"",
            "\"TWO\"", "\"MinusOne\"", "\"READ|WRITE\"", "\"READ |\"", "\"3\"", "\"256\"", "\"buffer\"", "\"bitSize\"",
            "\"value\"", "\"nested\"", "\"nestedArray\"", "\"textArray\"", "\"optionalNested\"", "\"choiceField\"",
            "\"reflectableUtilChoice\"", "{}", "[]", "[[]]", "[null]", "[1]", "[{}]", "{\"buffer\": [1]}",
            "{\"buffer\": [128], \"bitSize\": 1}", "{\"bitSize\": 9, \"buffer\": [0, 1]}", "{\"bitSize\": 9, \"buffer\": [1]}",
            "{\"value\": 5}", "{\"text\": null}", "nul", "\"open", "1 2", "truefalse"};
    return out;
}

std::string joined(const std::vector<std::string>& tokens)
{
    std::string out;
    for (const std::string& token : tokens)
    {
        out += token + " ";
    }
    return out;
}

void corrupt(Ctx& ctx, std::vector<std::string>& tokens)
{
    const uint32_t at = ctx.choose(static_cast<uint32_t>(tokens.size()));
    const uint32_t how = ctx.choose(static_cast<uint32_t>(replacements().size()) * 2 + 4);
    switch (how)
    {
    case 0:
        tokens.erase(tokens.begin() + at);
        break;
    case 1: {
        const std::string copy = tokens[at];
        tokens.insert(tokens.begin() + at, copy);
        break;
    }
    case 2:
        if (at + 1 == tokens.size())
        {
            ctx.skip();
        }
        std::swap(tokens[at], tokens[at + 1]);
        break;
    case 3:
        tokens.resize(at);
        break;
    default: {
        const std::string& other = replacements()[(how - 4) / 2];
        if (how % 2 == 0)
        {
            tokens[at] = other;
        }
        else
        {
            tokens.insert(tokens.begin() + at, other);
        }
        break;
    }
    }
}

void corrupted(Ctx& ctx)
{
    const Sample& sample = ctx.pick(samples());
    std::vector<std::string> tokens = sample.tokens;
    corrupt(ctx, tokens);
    sample.check(ctx, sample.type, joined(tokens));
}
// two corruptions of the small ones
void corruptedTwice(Ctx& ctx)
{
    const Sample& sample = samples()[5 + ctx.choose(ctx.thorough() ? 2 : 1)];
    std::vector<std::string> tokens = sample.tokens;
    corrupt(ctx, tokens);
    if (tokens.empty())
    {
        ctx.skip();
    }
    corrupt(ctx, tokens);
    sample.check(ctx, sample.type, joined(tokens));
}
// every cut and every changed character
void characters(Ctx& ctx)
{
    const Sample& sample = ctx.pick(samples());
    std::string text = joined(sample.tokens);
    const uint32_t at = ctx.choose(static_cast<uint32_t>(text.size()));
    static const std::string other("\0\"\\{}[]:,0-e.\xff n\n", 17);
    const uint32_t how = ctx.choose(static_cast<uint32_t>(other.size()) + 2);
    if (how == 0)
    {
        text.resize(at);
    }
    else if (how == 1)
    {
        text.erase(at, 1);
    }
    else
    {
        text[at] = other[how - 2];
    }
    // strings with raw control characters, escapes cut in two and the like are for the parser's own check
    const bool plain = text.find_first_of(std::string("\\\0\xff", 3)) == std::string::npos;
    if (plain)
    {
        sample.check(ctx, sample.type, text);
    }
    else
    {
        const std::string result = acc::outcome([&] {
            if (std::string(sample.type) == "WalkerObject")
            {
                fromJsonString<to::WalkerObject>(text);
            }
            else
            {
                fromJsonString<to::CreatorObject>(text);
            }
            return std::string("read");
        });
        ctx.step();
        MC_REQUIRE(ctx, result == "read" || result == "refused", "outcome", result, " for ", shown(text));
    }
}

// every subset of the fields in every rotation, some twice
void subsets(Ctx& ctx)
{
    static const std::vector<std::string> fields = {"\"value\": 13", "\"nested\": {\"value\": 1}", "\"nested\": {\"text\": \"x\"}",
            "\"nestedArray\": [{}, {\"value\": 3}]", "\"nestedArray\": [{\"text\": \"y\"}]", "\"textArray\": [\"a\"]",
            "\"optionalNested\": {\"text\": \"z\"}", "\"optionalNested\": {\"value\": 3}", "\"optionalBool\": true", "\"nested\": null"};
    const uint32_t chosen = ctx.choose(1U << fields.size());
    const uint32_t rotation = ctx.choose(static_cast<uint32_t>(fields.size()));
    const bool backward = ctx.flip();
    std::string text;
    for (size_t i = 0; i < fields.size(); ++i)
    {
        const size_t at = (backward ? fields.size() - 1 - i : i);
        const size_t which = (at + rotation) % fields.size();
        if ((chosen >> which) & 1U)
        {
            text += (text.empty() ? "" : ", ") + fields[which];
        }
    }
    checkRead<to::CreatorObject>(ctx, "CreatorObject", "{" + text + "}");
}

// ---------------------------------------------------------------- leaves of every type

template <typename T>
void leaf(Ctx& ctx, const T& value, const std::string& expected)
{
    static const FieldInfo info("leaf", ::zserio::typeInfo<Bool>(), {}, false, {}, {}, {}, false, {}, {}, false, {}, false, false);
    const uint32_t how = ctx.choose(3);
    std::ostringstream stream;
    JsonWriter writer(stream);
    IWalkObserver& observer = writer;
    const IReflectableDataConstPtr data = reflectable(value);
    observer.visitValue(data, info, how == 0 ? WALKER_NOT_ELEMENT : how - 1);
    const std::string wanted = (how == 0 ? "\"leaf\": " : "") + expected;
    MC_REQUIRE(ctx, stream.str() == wanted, "leaf", stream.str(), " instead of ", wanted);
    ctx.step();
}
void leaves(Ctx& ctx)
{
    const uint32_t which = ctx.choose(27);
    const uint32_t side = ctx.choose(2);
    switch (which)
    {
    case 0:
        leaf(ctx, Bool(side == 0), side ? "false" : "true");
        break;
    case 1:
        leaf(ctx, Int8(side ? INT8_MIN : INT8_MAX), side ? "-128" : "127");
        break;
    case 2:
        leaf(ctx, Int16(side ? INT16_MIN : INT16_MAX), side ? "-32768" : "32767");
        break;
    case 3:
        leaf(ctx, Int32(side ? INT32_MIN : INT32_MAX), side ? "-2147483648" : "2147483647");
        break;
    case 4:
        leaf(ctx, Int64(side ? INT64_MIN : INT64_MAX), side ? "-9223372036854775808" : "9223372036854775807");
        break;
    case 5:
        leaf(ctx, UInt8(side ? UINT8_MAX : 0), side ? "255" : "0");
        break;
    case 6:
        leaf(ctx, UInt16(side ? UINT16_MAX : 0), side ? "65535" : "0");
        break;
    case 7:
        leaf(ctx, UInt32(side ? UINT32_MAX : 0), side ? "4294967295" : "0");
        break;
    case 8:
        leaf(ctx, UInt64(side ? UINT64_MAX : 0), side ? "18446744073709551615" : "0");
        break;
    case 9:
        leaf(ctx, Int1(side ? -1 : 0), side ? "-1" : "0");
        break;
    case 10:
        leaf(ctx, Int63(side ? -(INT64_C(1) << 62) : (INT64_C(1) << 62) - 1), side ? "-4611686018427387904" : "4611686018427387903");
        break;
    case 11:
        leaf(ctx, UInt1(side), side ? "1" : "0");
        break;
    case 12:
        leaf(ctx, UInt33(side ? UINT64_C(0x1ffffffff) : 0), side ? "8589934591" : "0");
        break;
    case 13:
        leaf(ctx, VarInt16(side ? -16383 : 16383), side ? "-16383" : "16383");
        break;
    case 14:
        leaf(ctx, VarInt32(side ? -268435455 : 268435455), side ? "-268435455" : "268435455");
        break;
    case 15:
        leaf(ctx, VarInt64(side ? -INT64_C(72057594037927935) : 1), side ? "-72057594037927935" : "1");
        break;
    case 16:
        leaf(ctx, VarInt(side ? INT64_MIN : INT64_MAX), side ? "-9223372036854775808" : "9223372036854775807");
        break;
    case 17:
        leaf(ctx, VarUInt16(side ? 32767 : 0), side ? "32767" : "0");
        break;
    case 18:
        leaf(ctx, VarUInt32(side ? 536870911 : 0), side ? "536870911" : "0");
        break;
    case 19:
        leaf(ctx, VarUInt64(side ? UINT64_C(144115188075855871) : 0), side ? "144115188075855871" : "0");
        break;
    case 20:
        leaf(ctx, VarUInt(side ? UINT64_MAX : 0), side ? "18446744073709551615" : "0");
        break;
    case 21:
        leaf(ctx, VarSize(side ? 2147483647 : 0), side ? "2147483647" : "0");
        break;
    case 22:
        leaf(ctx, Float16(side ? -0.5F : 1.0F), side ? "-0.5" : "1.0");
        break;
    case 23:
        leaf(ctx, Float32(side ? 0.25F : -2.0F), side ? "0.25" : "-2.0");
        break;
    case 24:
        leaf(ctx, Float64(side ? 0.1 : 1.0), side ? "0.1" : "1.0");
        break;
    case 25:
        leaf(ctx, String(side ? "a\"b" : ""), side ? "\"a\\\"b\"" : "\"\"");
        break;
    default:
        if (side)
        {
            leaf(ctx, Bytes{{1, 255}}, "{\"buffer\": [1, 255]}");
        }
        else
        {
            leaf(ctx, BitBuffer(std::vector<uint8_t>{0xff, 0x80}, 9), "{\"buffer\": [255, 128], \"bitSize\": 9}");
        }
        break;
    }
}

// ---------------------------------------------------------------- enumerations and bitmasks of any definition

// a value of an enumeration or bitmask with any items
class Item : public zserio::detail::ReflectableDataBase<std::allocator<uint8_t>>
{
public:
    Item(const ITypeInfo& info, uint64_t value, bool isSigned) :
            zserio::detail::ReflectableDataBase<std::allocator<uint8_t>>(info),
            m_value(value),
            m_signed(isSigned)
    {}
    using zserio::detail::ReflectableDataBase<std::allocator<uint8_t>>::getAnyValue;
    uint8_t getUInt8() const override { return static_cast<uint8_t>(m_value); }
    int8_t getInt8() const override { return static_cast<int8_t>(m_value); }
    uint64_t getUInt64() const override { return m_value; }
    int64_t getInt64() const override { return static_cast<int64_t>(m_value); }
    uint64_t toUInt() const override
    {
        return m_signed ? zserio::detail::ReflectableDataBase<std::allocator<uint8_t>>::toUInt() : m_value;
    }
    int64_t toInt() const override
    {
        return m_signed ? static_cast<int64_t>(m_value) : zserio::detail::ReflectableDataBase<std::allocator<uint8_t>>::toInt();
    }

private:
    uint64_t m_value;
    bool m_signed;
};

void enumerables(Ctx& ctx)
{
    static const char* const NAMES[] = {"READ", "WRITE", "READ_WRITE", "_n0"};
    const bool mask = ctx.flip();
    const bool isSigned = !mask && ctx.flip();
    const bool wide = ctx.flip();
    const uint64_t top = wide ? UINT64_C(1) << 63 : 128;
    std::vector<uint64_t> alphabet = {0, 1, 2, 3, 12, wide ? UINT64_MAX : 255, top};
    if (isSigned)
    {
        alphabet = {0, 1, 127, static_cast<uint64_t>(INT64_C(-1)), static_cast<uint64_t>(wide ? INT64_MIN : INT64_C(-128)), wide ? static_cast<uint64_t>(INT64_MAX) : 3};
    }
    const uint32_t count = ctx.choose(4);
    std::vector<ItemInfo> items;
    std::string what = str(mask ? "mask" : isSigned ? "signed enum" : "enum", wide ? " of 64 bits" : " of 8 bits", " with");
    for (uint32_t i = 0; i < count; ++i)
    {
        const uint64_t value = alphabet[ctx.choose(static_cast<uint32_t>(alphabet.size()))];
        for (const ItemInfo& other : items)
        {
            if (other.value == value)
            {
                ctx.skip(); // values are unique
            }
        }
        items.push_back(ItemInfo{NAMES[i], value, false, false});
        what += str(" ", NAMES[i], "=", value);
    }
    const ITypeInfo& underlying = wide ? isSigned ? typeInfo<Int64>() : typeInfo<UInt64>() : isSigned ? typeInfo<Int8>() : typeInfo<UInt8>();
    const zserio::detail::EnumTypeInfo<std::allocator<uint8_t>> enumInfo("Enum", underlying, Span<const ItemInfo>(items.data(), items.size()));
    const zserio::detail::BitmaskTypeInfo<std::allocator<uint8_t>> maskInfo("Mask", underlying, Span<const ItemInfo>(items.data(), items.size()));
    const ITypeInfo& info = mask ? static_cast<const ITypeInfo&>(maskInfo) : enumInfo;
    const FieldInfo field("leaf", info, {}, false, {}, {}, {}, false, {}, {}, false, {}, false, false);
    const std::vector<uint64_t> more = mask ? std::vector<uint64_t>{4, 13, 14, 15, top | 1, top | 3} : std::vector<uint64_t>{4};
    alphabet.insert(alphabet.end(), more.begin(), more.end());
    for (const uint64_t value : alphabet)
    {
        const std::string number = isSigned ? std::to_string(static_cast<int64_t>(value)) : std::to_string(value);
        std::string names;
        uint64_t covered = 0;
        for (const ItemInfo& item : items)
        {
            if (item.value == value || (mask && item.value != 0 && (value & item.value) == item.value))
            {
                covered |= item.value;
                names += (names.empty() ? "" : " | ") + std::string(item.schemaName);
            }
        }
        const std::string expected = names.empty() ? number + " /* no match */" : mask && covered != value ? number + " /* partial match: " + names + " */" : names;
        for (const bool asNumber : {false, true})
        {
            std::ostringstream stream;
            JsonWriter writer(stream);
            writer.setEnumerableFormat(asNumber ? JsonWriter::EnumerableFormat::NUMBER : JsonWriter::EnumerableFormat::STRING);
            static_cast<IWalkObserver&>(writer).visitValue(std::make_shared<Item>(info, value, isSigned), field, WALKER_NOT_ELEMENT);
            const std::string wanted = "\"leaf\": " + (asNumber ? number : "\"" + expected + "\"");
            MC_REQUIRE(ctx, stream.str() == wanted, "enumerable", what, ": ", number, " is shown as ", stream.str(), " instead of ", wanted);
            ctx.step();
        }
        // and what is shown can be read again; an enumeration has only its items
        std::string back = "refused";
        const auto show = [&](const Any& any) {
            back = any.isType<uint8_t>() ? std::to_string(any.get<uint8_t>())
                    : any.isType<int8_t>() ? std::to_string(any.get<int8_t>())
                    : any.isType<uint64_t>() ? std::to_string(any.get<uint64_t>())
                    : any.isType<int64_t>() ? std::to_string(any.get<int64_t>())
                                            : std::string("another type");
        };
        const std::string outcome = acc::outcome([&] {
            show(zserio::detail::makeAnyValue(info, String(expected), std::allocator<uint8_t>()));
            return back;
        });
        const std::string wanted = !mask && names.empty() ? "refused" : number;
        MC_REQUIRE(ctx, outcome == wanted, "enumerable-read", what, ": \"", expected, "\" is read as ", outcome, " instead of ", wanted);
        ctx.cases(3);
        ctx.state(what + number);
    }
    if (ctx.wantSample())
    {
        ctx.sample(what);
    }
}

// objects with many elements, long texts and long binary data
void large(Ctx& ctx)
{
    const uint32_t place = ctx.choose(ob::largeCreatorPlaces + ob::largeWalkerPlaces);
    const uint32_t n = ctx.pick(ob::largeSizes(ctx.thorough()));
    const uint32_t which = ctx.pick(std::vector<uint32_t>{0, 3});
    if (place < ob::largeCreatorPlaces)
    {
        roundTrip(ctx, ob::largeCreator(place, n), which);
    }
    else
    {
        roundTrip(ctx, ob::largeWalker(place - ob::largeCreatorPlaces, n), which);
    }
    ctx.state(Ctx::mix(place, n));
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {
                    {"leaves", leaves, 2},
                    {"enumerables", enumerables, 4},
                    {"characters", characters, 3},
                    {"subsets", subsets, 2},
                    {"corrupted", corrupted, 3},
                    {"corrupted-twice", corruptedTwice, 4},
                    {"functions", functions, 3},
                    {"many-objects", manyObjects, 3},
                    {"large", large, 2},
                    {"every-format", everyFormat, 4},
                    {"every-object", everyObject, 4},
            });
}
