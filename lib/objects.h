// Enumerated builders of the committed generated test objects, their reference encodings and reference trees.
#ifndef VERIF_OBJECTS_H
#define VERIF_OBJECTS_H

#include <string>
#include <vector>

#include "bitmodel.h"
#include "mc.h"

namespace obj
{

using bm::Bits;
using mc::Ctx;

// reference tree of an object: what walking, reflection, introspection and JSON have to show
struct Node
{
    enum Kind
    {
        NUL,
        BOOL,
        SIGNED,
        UNSIGNED,
        STRING,
        BYTES,
        BITS,
        ENUM,
        BITMASK,
        COMPOUND,
        ARRAY
    };
    Kind kind = NUL;
    std::string name; // field name
    std::string type; // schema name without package
    int64_t i = 0;
    uint64_t u = 0;
    std::string text; // string content, bytes or bits as raw bytes, item text of an enum or a bitmask
    size_t bits = 0;
    std::string chosen; // selected field of a choice or union
    std::vector<Node> children;
    bool isChoice = false;

    Node& named(const std::string& fieldName)
    {
        name = fieldName;
        return *this;
    }
};

inline Node nodeNull()
{
    return {};
}
inline Node nodeBool(bool value)
{
    Node n;
    n.kind = Node::BOOL;
    n.type = "bool";
    n.u = value ? 1 : 0;
    n.i = value ? 1 : 0;
    return n;
}
inline Node nodeUInt(uint64_t value, const char* type)
{
    Node n;
    n.kind = Node::UNSIGNED;
    n.type = type;
    n.u = value;
    return n;
}
inline Node nodeString(const std::string& value)
{
    Node n;
    n.kind = Node::STRING;
    n.type = "string";
    n.text = value;
    return n;
}
inline Node nodeEnum(int64_t value, const char* type, const char* item)
{
    Node n;
    n.kind = Node::ENUM;
    n.type = type;
    n.i = value;
    n.text = item;
    return n;
}
inline Node nodeMask(uint64_t value, const char* type, const std::vector<std::pair<uint64_t, const char*>>& items)
{
    Node n;
    n.kind = Node::BITMASK;
    n.type = type;
    n.u = value;
    for (const auto& item : items)
    {
        if ((value & item.first) == item.first)
        {
            n.text += std::string(n.text.empty() ? "" : " | ") + item.second;
        }
    }
    n.text = std::to_string(value) + "[" + n.text + "]";
    return n;
}

// a string that is not in the small buffer of std::string
inline const char* longText()
{
    return "a text that does not fit into the small buffer";
}

} // namespace obj

#define OBJ_NS std_allocator
#include "objects.inc"
#undef OBJ_NS

#endif
