// Every getter and conversion of a reflectable or an introspectable view, as text, for comparison with what the
// documentation says about the kind and value.
#ifndef VERIF_ACCESS_H
#define VERIF_ACCESS_H

#include <array>
#include <cstdio>
#include <cmath>
#include <functional>
#include <string>

#include "mc.h"
#include "zserio/CppRuntimeException.h"

namespace acc
{

enum Cell
{
    BOOL,
    INT8,
    INT16,
    INT32,
    INT64,
    UINT8,
    UINT16,
    UINT32,
    UINT64,
    FLOAT,
    DOUBLE,
    BYTES,
    STRING,
    BITS,
    TO_INT,
    TO_UINT,
    TO_DOUBLE,
    TO_STRING,
    CELLS
};

inline const char* cellName(size_t cell)
{
    static const char* const names[] = {"getBool", "getInt8", "getInt16", "getInt32", "getInt64", "getUInt8",
            "getUInt16", "getUInt32", "getUInt64", "getFloat", "getDouble", "getBytes", "getStringView",
            "getBitBuffer", "toInt", "toUInt", "toDouble", "toString"};
    return names[cell];
}

using Table = std::array<std::string, CELLS>;

inline Table refused()
{
    Table table;
    table.fill("refused");
    return table;
}

inline std::string real(double value)
{
    if (std::isnan(value))
    {
        return "nan";
    }
    char buffer[64];
    std::snprintf(buffer, sizeof(buffer), "%a", value);
    return buffer;
}
inline std::string integer(int64_t value)
{
    return std::to_string(value);
}
inline std::string natural(uint64_t value)
{
    return std::to_string(value);
}

// what the operation gives: its text, "refused" for the library's exception, otherwise what went wrong
__attribute__((noinline)) inline std::string outcome(const std::function<std::string()>& operation)
{
    try
    {
        return operation();
    }
    catch (const zserio::CppRuntimeException&)
    {
        return "refused";
    }
    catch (const std::exception& e)
    {
        return std::string("other exception: ") + e.what();
    }
}

template <typename PTR>
Table read(const PTR& data)
{
    Table t;
    t[BOOL] = outcome([&] { return std::string(data->getBool() ? "true" : "false"); });
    t[INT8] = outcome([&] { return integer(data->getInt8()); });
    t[INT16] = outcome([&] { return integer(data->getInt16()); });
    t[INT32] = outcome([&] { return integer(data->getInt32()); });
    t[INT64] = outcome([&] { return integer(data->getInt64()); });
    t[UINT8] = outcome([&] { return natural(data->getUInt8()); });
    t[UINT16] = outcome([&] { return natural(data->getUInt16()); });
    t[UINT32] = outcome([&] { return natural(data->getUInt32()); });
    t[UINT64] = outcome([&] { return natural(data->getUInt64()); });
    t[FLOAT] = outcome([&] { return real(static_cast<double>(data->getFloat())); });
    t[DOUBLE] = outcome([&] { return real(data->getDouble()); });
    t[BYTES] = outcome([&] {
        const auto bytes = data->getBytes();
        return mc::hex(bytes.data(), bytes.size());
    });
    t[STRING] = outcome([&] { return std::string(data->getStringView()); });
    t[BITS] = outcome([&] {
        const auto& bits = data->getBitBuffer();
        const auto bytes = bits.getData();
        return mc::str(bits.getBitSize(), ":", mc::hex(bytes.data(), bytes.size()));
    });
    t[TO_INT] = outcome([&] { return integer(data->toInt()); });
    t[TO_UINT] = outcome([&] { return natural(data->toUInt()); });
    t[TO_DOUBLE] = outcome([&] { return real(data->toDouble()); });
    t[TO_STRING] = outcome([&] {
        const auto text = data->toString();
        return std::string(std::string_view(text));
    });
    return t;
}

inline std::string difference(const Table& shown, const Table& expected)
{
    for (size_t i = 0; i < CELLS; ++i)
    {
        if (shown[i] != expected[i])
        {
            return mc::str(cellName(i), " gives '", shown[i], "' instead of '", expected[i], "'");
        }
    }
    return "";
}

// expected tables

template <typename V>
Table expectIntegral(V value)
{
    Table t = refused();
    if constexpr (std::is_same_v<V, bool>)
    {
        t[BOOL] = value ? "true" : "false";
        t[TO_UINT] = value ? "1" : "0";
        t[TO_DOUBLE] = real(value ? 1.0 : 0.0);
        t[TO_STRING] = value ? "true" : "false";
    }
    else if constexpr (std::is_signed_v<V>)
    {
        t[sizeof(V) == 1 ? INT8 : sizeof(V) == 2 ? INT16 : sizeof(V) == 4 ? INT32 : INT64] = integer(value);
        t[TO_INT] = integer(value);
        t[TO_DOUBLE] = real(static_cast<double>(value));
        t[TO_STRING] = integer(value);
    }
    else
    {
        t[sizeof(V) == 1 ? UINT8 : sizeof(V) == 2 ? UINT16 : sizeof(V) == 4 ? UINT32 : UINT64] = natural(value);
        t[TO_UINT] = natural(value);
        t[TO_DOUBLE] = real(static_cast<double>(value));
        t[TO_STRING] = natural(value);
    }
    return t;
}
inline Table expectReal(float value)
{
    Table t = refused();
    t[FLOAT] = real(static_cast<double>(value));
    t[TO_DOUBLE] = real(static_cast<double>(value));
    return t;
}
inline Table expectReal(double value)
{
    Table t = refused();
    t[DOUBLE] = real(value);
    t[TO_DOUBLE] = real(value);
    return t;
}
inline Table expectBytes(const std::string& value)
{
    Table t = refused();
    t[BYTES] = mc::hex(value.data(), value.size());
    return t;
}
inline Table expectString(const std::string& value)
{
    Table t = refused();
    t[STRING] = value;
    t[TO_STRING] = value;
    return t;
}
inline Table expectBits(const std::string& value, size_t bits)
{
    Table t = refused();
    t[BITS] = mc::str(bits, ":", mc::hex(value.data(), value.size()));
    return t;
}
// an enum or a bitmask over the underlying type V
template <typename V>
Table expectItem(V value, const std::string& text)
{
    Table t = expectIntegral(value);
    t[TO_STRING] = text;
    return t;
}

} // namespace acc

#endif
