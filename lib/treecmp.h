// Compares what a reflectable or an introspectable view shows with a reference tree.
#ifndef VERIF_TREECMP_H
#define VERIF_TREECMP_H

#include <string>

#include "objects.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/TypeInfoUtil.h"

namespace treecmp
{

using mc::str;
using obj::Node;

// last part of a schema name
inline std::string lastPart(std::string_view name)
{
    const size_t dot = name.rfind('.');
    return std::string(dot == std::string_view::npos ? name : name.substr(dot + 1));
}

// one node without its children; empty when equal
template <typename PTR>
std::string shallow(const PTR& data, const Node& node)
{
    if (!data)
    {
        return node.kind == Node::NUL ? "" : str("'", node.name, "' is null");
    }
    if (node.kind == Node::NUL)
    {
        return str("'", node.name, "' is not null");
    }
    const bool array = node.kind == Node::ARRAY;
    if (data->isArray() != array)
    {
        return str("'", node.name, "' is ", array ? "not " : "", "an array");
    }
    if (lastPart(data->getTypeInfo().getSchemaName()) != node.type)
    {
        return str("'", node.name, "' is of type ", data->getTypeInfo().getSchemaName(), " instead of ", node.type);
    }
    switch (node.kind)
    {
    case Node::BOOL:
        return data->getBool() == (node.u != 0) ? "" : str("'", node.name, "' differs");
    case Node::UNSIGNED:
        return data->toUInt() == node.u ? "" : str("'", node.name, "' is ", data->toUInt(), " instead of ", node.u);
    case Node::SIGNED:
    case Node::ENUM: {
        if (data->toInt() != node.i)
        {
            return str("'", node.name, "' is ", data->toInt(), " instead of ", node.i);
        }
        break;
    }
    case Node::BITMASK:
        if (data->toUInt() != node.u)
        {
            return str("'", node.name, "' is ", data->toUInt(), " instead of ", node.u);
        }
        break;
    case Node::STRING:
        return std::string(data->getStringView()) == node.text ? "" : str("'", node.name, "' differs");
    case Node::BYTES: {
        const auto bytes = data->getBytes();
        return std::string(bytes.begin(), bytes.end()) == node.text ? "" : str("'", node.name, "' differs");
    }
    case Node::BITS: {
        const auto& bits = data->getBitBuffer();
        const auto bytes = bits.getData();
        return bits.getBitSize() == node.bits && std::string(bytes.begin(), bytes.end()) == node.text
                ? ""
                : str("'", node.name, "' differs");
    }
    case Node::ARRAY:
        return data->size() == node.children.size()
                ? ""
                : str("'", node.name, "' has ", data->size(), " elements instead of ", node.children.size());
    case Node::COMPOUND:
        if (node.isChoice)
        {
            const std::string chosen(data->getChoice());
            return chosen == node.chosen ? "" : str("'", node.name, "' chooses '", chosen, "' instead of '", node.chosen, "'");
        }
        return "";
    default:
        return "";
    }
    const auto text = data->toString();
    return std::string(std::string_view(text)) == node.text
            ? ""
            : str("'", node.name, "' shows ", std::string_view(text), " instead of ", node.text);
}

template <typename PTR>
std::string deep(const PTR& data, const Node& node)
{
    std::string result = shallow(data, node);
    if (!result.empty() || !data)
    {
        return result;
    }
    if (node.kind == Node::ARRAY)
    {
        for (size_t i = 0; i < node.children.size() && result.empty(); ++i)
        {
            result = deep(data->at(i), node.children[i]);
        }
    }
    else if (node.kind == Node::COMPOUND && !node.isChoice)
    {
        for (size_t i = 0; i < node.children.size() && result.empty(); ++i)
        {
            result = deep(data->getField(node.children[i].name), node.children[i]);
        }
    }
    else if (node.kind == Node::COMPOUND)
    {
        for (size_t i = 0; i < node.children.size() && result.empty(); ++i)
        {
            if (node.children[i].name == node.chosen)
            {
                result = deep(data->getField(node.children[i].name), node.children[i]);
            }
        }
    }
    return result;
}

} // namespace treecmp

#endif
