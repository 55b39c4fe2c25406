// What the tree creator is defined to build: schemas of test objects and a model driven by the creator's calls.
#ifndef VERIF_SCHEMA_H
#define VERIF_SCHEMA_H

#include <functional>
#include <map>
#include <string>
#include <vector>

#include "objects.h"

namespace schema
{

using mc::str;
using obj::Node;

// ---------------------------------------------------------------- the schema

struct Field
{
    std::string name;
    std::string type;
    bool isArray = false;
    bool isOptional = false;
};
struct Compound
{
    bool isChoice = false;
    std::vector<Field> fields;
};

inline const std::map<std::string, Compound>& schema()
{
    static const std::map<std::string, Compound> out = {
            {"CreatorNested",
                    {false,
                            {{"value", "bit:32"}, {"text", "string"}, {"externData", "extern"}, {"bytesData", "bytes"},
                                    {"creatorEnum", "CreatorEnum"}, {"creatorBitmask", "CreatorBitmask"}}}},
            {"CreatorObject",
                    {false,
                            {{"value", "bit:32"}, {"nested", "CreatorNested"}, {"text", "string"},
                                    {"nestedArray", "CreatorNested", true}, {"textArray", "string", true},
                                    {"externArray", "extern", true, true}, {"bytesArray", "bytes", true, true},
                                    {"optionalBool", "bool", false, true},
                                    {"optionalNested", "CreatorNested", false, true}}}},
            {"WalkerNested", {false, {{"text", "string"}}}},
            {"WalkerUnion",
                    {true, {{"value", "bit:32"}, {"text", "string"}, {"nestedArray", "WalkerNested", true}}}},
            {"WalkerChoice",
                    {true, {{"value8", "bit:8"}, {"value16", "bit:16"}, {"value32", "bit:32"}, {"value64", "bit:64"}}}},
            {"WalkerObject",
                    {false,
                            {{"identifier", "bit:32"}, {"nested", "WalkerNested", false, true}, {"text", "string"},
                                    {"unionArray", "WalkerUnion", true},
                                    {"optionalUnionArray", "WalkerUnion", true, true}, {"choiceSelector", "bit:8"},
                                    {"choiceField", "WalkerChoice"}}}},
            {"ReflectableUtilChoice", {true, {{"array", "bit:32", true}}}},
            {"ReflectableUtilObject",
                    {false, {{"choiceParam", "bit:8"}, {"reflectableUtilChoice", "ReflectableUtilChoice"}}}},
            {"ReflectableUtilUnion",
                    {true,
                            {{"reflectableUtilEnum", "ReflectableUtilEnum"},
                                    {"reflectableUtilBitmask", "ReflectableUtilBitmask"},
                                    {"reflectableUtilObject", "ReflectableUtilObject"}}}},
    };
    return out;
}
inline bool isCompound(const std::string& type)
{
    return schema().count(type) != 0;
}
inline const Field* findField(const std::string& type, const std::string& name)
{
    for (const Field& field : schema().at(type).fields)
    {
        if (field.name == name)
        {
            return &field;
        }
    }
    return nullptr;
}
inline Node enumNode(const std::string& type, int64_t value)
{
    static const std::map<std::string, std::map<int64_t, const char*>> items = {
            {"CreatorEnum", {{0, "ONE"}, {1, "TWO"}, {-1, "MinusOne"}}}, {"ReflectableUtilEnum", {{0, "ONE"}, {1, "TWO"}}}};
    const auto found = items.at(type).find(value);
    return found == items.at(type).end() ? obj::nodeNull() : obj::nodeEnum(value, type.c_str(), found->second);
}
inline Node maskNode(const std::string& type, uint64_t value)
{
    return obj::nodeMask(value, type.c_str(), {{1, "READ"}, {2, "WRITE"}});
}
inline bool isEnum(const std::string& type)
{
    return type == "CreatorEnum" || type == "ReflectableUtilEnum";
}
inline bool isMask(const std::string& type)
{
    return type == "CreatorBitmask" || type == "ReflectableUtilBitmask";
}
inline Node defaultNode(const std::string& type)
{
    if (isCompound(type))
    {
        Node n;
        n.kind = Node::COMPOUND;
        n.type = type;
        n.isChoice = schema().at(type).isChoice;
        for (const Field& field : schema().at(type).fields)
        {
            Node child;
            if (!n.isChoice && !field.isOptional)
            {
                if (field.isArray)
                {
                    child.kind = Node::ARRAY;
                    child.type = field.type;
                }
                else
                {
                    child = defaultNode(field.type);
                }
            }
            n.children.push_back(child.named(field.name));
        }
        return n;
    }
    if (type == "bool")
    {
        return obj::nodeBool(false);
    }
    if (type == "string")
    {
        return obj::nodeString("");
    }
    if (isEnum(type))
    {
        return enumNode(type, 0);
    }
    if (isMask(type))
    {
        return maskNode(type, 0);
    }
    if (type == "bytes" || type == "extern")
    {
        Node n;
        n.kind = type == "bytes" ? Node::BYTES : Node::BITS;
        n.type = type;
        return n;
    }
    return obj::nodeUInt(0, type.c_str());
}

inline bool sameNode(const Node& a, const Node& b)
{
    if (a.kind != b.kind || a.name != b.name || a.type != b.type || a.i != b.i || a.u != b.u || a.text != b.text ||
            a.bits != b.bits || a.chosen != b.chosen || a.children.size() != b.children.size() ||
            a.isChoice != b.isChoice)
    {
        return false;
    }
    for (size_t i = 0; i < a.children.size(); ++i)
    {
        if (!sameNode(a.children[i], b.children[i]))
        {
            return false;
        }
    }
    return true;
}

// ---------------------------------------------------------------- values

// converts to a node of the type; false when there is no such conversion
using Convert = std::function<bool(const std::string&, Node&)>;

inline uint64_t maxOf(const std::string& type)
{
    return type == "bit:8" ? UINT8_MAX : type == "bit:16" ? UINT16_MAX : type == "bit:32" ? UINT32_MAX : UINT64_MAX;
}
inline Convert boolConvert(bool value)
{
    return [value](const std::string& type, Node& out) {
        out = obj::nodeBool(value);
        return type == "bool";
    };
}
// u is the value as unsigned, in two's complement when negative
inline Convert integerConvert(bool negative, uint64_t u)
{
    return [negative, u](const std::string& type, Node& out) {
        if (type.substr(0, 4) == "bit:")
        {
            out = obj::nodeUInt(u, type.c_str());
            return !negative && u <= maxOf(type);
        }
        if (isEnum(type))
        {
            const int64_t i = static_cast<int64_t>(u);
            if ((!negative && u > 127) || i < -128 || i > 127)
            {
                return false;
            }
            out = enumNode(type, i);
            return out.kind == Node::ENUM;
        }
        if (isMask(type))
        {
            out = maskNode(type, u);
            return !negative && u <= 255;
        }
        return false;
    };
}
// names separated by '|', or a number that may be followed by a comment
inline bool maskText(const std::string& text, uint64_t& value)
{
    value = 0;
    size_t i = 0;
    if (text.empty() || (text[0] >= '0' && text[0] <= '9'))
    {
        for (; i < text.size() && text[i] >= '0' && text[i] <= '9'; ++i)
        {
            value = value * 10 + static_cast<uint64_t>(text[i] - '0');
            if (value > UINT8_MAX)
            {
                return false;
            }
        }
        return i > 0 && (i == text.size() || text.substr(i, 3) == " /*");
    }
    while (true)
    {
        size_t end = text.find_first_of(" |", i);
        end = end == std::string::npos ? text.size() : end;
        const std::string name = text.substr(i, end - i);
        if (name != "READ" && name != "WRITE")
        {
            return false;
        }
        value |= name == "READ" ? 1 : 2;
        if (end == text.size())
        {
            return true;
        }
        while (end < text.size() && text[end] == ' ')
        {
            ++end;
        }
        if (end == text.size() || text[end] != '|')
        {
            return false;
        }
        i = text.find_first_not_of(' ', end + 1);
        if (i == std::string::npos)
        {
            return false;
        }
    }
}
inline Convert textConvert(const std::string& text)
{
    return [text](const std::string& type, Node& out) {
        if (type == "string")
        {
            out = obj::nodeString(text);
            return true;
        }
        if (isEnum(type))
        {
            for (int i : {-1, 0, 1})
            {
                out = enumNode(type, i);
                if (out.kind == Node::ENUM && out.text == text)
                {
                    return true;
                }
            }
            return false;
        }
        if (isMask(type))
        {
            uint64_t value = 0;
            if (!maskText(text, value))
            {
                return false;
            }
            out = maskNode(type, value);
            return true;
        }
        return false;
    };
}
inline Convert neverConvert()
{
    return [](const std::string&, Node&) { return false; };
}

// ---------------------------------------------------------------- the model

struct Frame
{
    Node* node;
    std::string type;
    bool isArray;
    bool isElement;
};

class Model
{
public:
    explicit Model(const std::string& rootType) :
            m_rootType(rootType)
    {}
    bool beginRoot()
    {
        if (!m_stack.empty())
        {
            return false;
        }
        m_root = defaultNode(m_rootType);
        m_stack.push_back({&m_root, m_rootType, false, false});
        return true;
    }
    bool endRoot()
    {
        if (m_stack.size() != 1)
        {
            return false;
        }
        m_stack.pop_back();
        return true;
    }
    bool beginArray(const std::string& name)
    {
        const Field* field = inCompound() ? findField(top().type, name) : nullptr;
        if (!field || !field->isArray)
        {
            return false;
        }
        Node array;
        array.kind = Node::ARRAY;
        array.type = field->type;
        Node* node = put(name, array);
        m_stack.push_back({node, field->type, true, false});
        return true;
    }
    bool endArray()
    {
        if (m_stack.empty() || !top().isArray)
        {
            return false;
        }
        m_stack.pop_back();
        return true;
    }
    bool beginCompound(const std::string& name)
    {
        const Field* field = inCompound() ? findField(top().type, name) : nullptr;
        if (!field || field->isArray || !isCompound(field->type))
        {
            return false;
        }
        Node* node = nullptr;
        if (top().node->isChoice || field->isOptional)
        {
            node = put(name, defaultNode(field->type));
        }
        else
        {
            node = child(name);
        }
        m_stack.push_back({node, field->type, false, false});
        return true;
    }
    bool endCompound()
    {
        if (!inCompound() || m_stack.size() < 2 || top().isElement)
        {
            return false;
        }
        m_stack.pop_back();
        return true;
    }
    bool beginElement()
    {
        if (m_stack.empty() || !top().isArray || !isCompound(top().type))
        {
            return false;
        }
        Node element = defaultNode(top().type);
        element.name = top().node->name;
        top().node->children.push_back(element);
        m_stack.push_back({&top().node->children.back(), top().type, false, true});
        return true;
    }
    bool endElement()
    {
        if (!inCompound() || !top().isElement)
        {
            return false;
        }
        m_stack.pop_back();
        return true;
    }
    bool set(const std::string& name, const Convert& convert)
    {
        const Field* field = inCompound() ? findField(top().type, name) : nullptr;
        if (!field)
        {
            return false;
        }
        if (!convert)
        {
            Node node;
            if (field->isOptional)
            {
                // stays null
            }
            else if (field->isArray)
            {
                node.kind = Node::ARRAY;
                node.type = field->type;
            }
            else
            {
                node = defaultNode(field->type);
            }
            put(name, node);
            return true;
        }
        Node node;
        if (field->isArray || !convert(field->type, node))
        {
            return false;
        }
        put(name, node);
        return true;
    }
    bool add(const Convert& convert)
    {
        Node node;
        if (m_stack.empty() || !top().isArray || !convert || !convert(top().type, node))
        {
            return false;
        }
        top().node->children.push_back(node.named(top().node->name));
        return true;
    }
    // the type that is asked for, empty when refused
    std::string fieldType(const std::string& name) const
    {
        const Field* field = inCompound() ? findField(m_stack.back().type, name) : nullptr;
        return field ? field->type : "";
    }
    std::string elementType() const { return !m_stack.empty() && m_stack.back().isArray ? m_stack.back().type : ""; }

    bool inCompound() const { return !m_stack.empty() && !m_stack.back().isArray; }
    const std::vector<Frame>& stack() const { return m_stack; }
    const Node& root() const { return m_root; }

private:
    Frame& top() { return m_stack.back(); }
    Node* child(const std::string& name)
    {
        for (Node& node : top().node->children)
        {
            if (node.name == name)
            {
                return &node;
            }
        }
        return nullptr;
    }
    Node* put(const std::string& name, Node node)
    {
        Node* place = child(name);
        *place = node.named(name);
        if (top().node->isChoice)
        {
            for (Node& other : top().node->children)
            {
                if (&other != place)
                {
                    other = obj::nodeNull().named(other.name);
                }
            }
            top().node->chosen = name;
        }
        return place;
    }
    std::string m_rootType;
    Node m_root;
    std::vector<Frame> m_stack;
};

} // namespace schema

#endif
