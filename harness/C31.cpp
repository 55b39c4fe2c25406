// C31: type information describes the type it belongs to.
// mc: level=model_checking opt=0 sources=std_test_object,ppmr_test_object variants=default,arch32
#include <array>
#include <functional>
#include <set>
#include <sstream>

#include "access.h"
#include "mc.h"
#include "objects.h"
#include "tracked.h"
#include "zserio/ReflectableUtil.h"
#include "zserio/TypeInfo.h"
#include "zserio/TypeInfoUtil.h"
#include "zserio/ppmr/ITypeInfo.h"
#include "zserio/pmr/ITypeInfo.h"
#define OBJ_NS ppmr_allocator
#include "objects.inc"
#undef OBJ_NS

using mc::Ctx;
using mc::str;
using namespace zserio;
namespace st = ::test_object::std_allocator;
namespace pt = ::test_object::ppmr_allocator;
using StdAlloc = std::allocator<uint8_t>;
using PpmrAlloc = ppmr::PropagatingPolymorphicAllocator<uint8_t>;

namespace
{

// ---------------------------------------------------------------- everything a type information says, as text

enum Query
{
    NAME,
    SCHEMA_TYPE,
    CPP_TYPE,
    BIT_SIZE,
    FIELDS,
    PARAMETERS,
    FUNCTIONS,
    SELECTOR,
    CASES,
    UNDERLYING,
    ENUM_ITEMS,
    BITMASK_VALUES,
    COLUMNS,
    SQL_CONSTRAINT,
    VIRTUAL_TABLE,
    WITHOUT_ROWID,
    TABLES,
    TEMPLATE_NAME,
    TEMPLATE_ARGUMENTS,
    MESSAGES,
    METHODS,
    CREATE,
    CREATE_DEFAULT,
    QUERIES
};
const char* const queryNames[] = {"getSchemaName", "getSchemaType", "getCppType", "getBitSize", "getFields", "getParameters", "getFunctions", "getSelector", "getCases", "getUnderlyingType",
        "getEnumItems", "getBitmaskValues", "getColumns", "getSqlConstraint", "getVirtualTableUsing", "isWithoutRowId", "getTables", "getTemplateName", "getTemplateArguments", "getMessages",
        "getMethods", "createInstance(allocator)", "createInstance"};

using Answers = std::array<std::string, QUERIES>;

template <typename ALLOC>
std::string nameOf(const IBasicTypeInfo<ALLOC>& info)
{
    return std::string(info.getSchemaName());
}
std::string list(Span<const std::string_view> items)
{
    std::string out;
    for (const std::string_view item : items)
    {
        out += "<" + std::string(item) + ">";
    }
    return out;
}
std::string list(const std::vector<std::string>& items)
{
    std::string out;
    for (const std::string& item : items)
    {
        out += "<" + item + ">";
    }
    return out;
}

template <typename ALLOC>
std::string text(const BasicFieldInfo<ALLOC>& f)
{
    return str("{", f.schemaName, ":", nameOf(f.typeInfo), list(f.typeArguments), f.isExtended ? " extended" : "", " align=", f.alignment, " offset=", f.offset, " init=", f.initializer,
            f.isOptional ? " optional" : "", " if=", f.optionalCondition, " constraint=", f.constraint, f.isArray ? " array" : "", " length=", f.arrayLength, f.isPacked ? " packed" : "",
            f.isImplicit ? " implicit" : "", "}");
}
std::string text(const ItemInfo& i)
{
    return str("{", i.schemaName, "=", i.value, i.isDeprecated ? " deprecated" : "", i.isRemoved ? " removed" : "", "}");
}

__attribute__((noinline)) std::string ask(const std::function<std::string()>& query)
{
    try
    {
        return query();
    }
    catch (const CppRuntimeException& e)
    {
        return str("! ", e.what());
    }
}

template <typename ALLOC>
Answers answers(const IBasicTypeInfo<ALLOC>& t)
{
    Answers a;
    const auto each = [](auto span, const auto& f) {
        std::string out = str(span.size(), ":");
        for (const auto& item : span)
        {
            out += f(item);
        }
        return out;
    };
    const auto instance = [&](const IBasicReflectableDataPtr<ALLOC>& data) {
        return str(data ? "instance of " : "null", data ? nameOf(data->getTypeInfo()) : "", data && &data->getTypeInfo() == &t ? "" : " (other type information)");
    };
    a[NAME] = ask([&] { return std::string(t.getSchemaName()); });
    a[SCHEMA_TYPE] = ask([&] { return str(static_cast<int>(t.getSchemaType())); });
    a[CPP_TYPE] = ask([&] { return str(static_cast<int>(t.getCppType())); });
    a[BIT_SIZE] = ask([&] { return str(static_cast<int>(t.getBitSize())); });
    a[FIELDS] = ask([&] { return each(t.getFields(), [](const auto& f) { return text(f); }); });
    a[PARAMETERS] = ask([&] { return each(t.getParameters(), [](const auto& p) { return str("{", p.schemaName, ":", nameOf(p.typeInfo), "}"); }); });
    a[FUNCTIONS] = ask([&] { return each(t.getFunctions(), [](const auto& f) { return str("{", f.schemaName, ":", nameOf(f.typeInfo), "=", f.functionResult, "}"); }); });
    a[SELECTOR] = ask([&] { return std::string(t.getSelector()); });
    a[CASES] = ask([&] { return each(t.getCases(), [](const auto& c) { return str("{", list(c.caseExpressions), c.field ? std::string(c.field->schemaName) : std::string("-"), "}"); }); });
    a[UNDERLYING] = ask([&] { return nameOf(t.getUnderlyingType()); });
    a[ENUM_ITEMS] = ask([&] { return each(t.getEnumItems(), [](const auto& i) { return text(i); }); });
    a[BITMASK_VALUES] = ask([&] { return each(t.getBitmaskValues(), [](const auto& i) { return text(i); }); });
    a[COLUMNS] = ask([&] {
        return each(t.getColumns(), [](const auto& c) {
            return str("{", c.schemaName, ":", nameOf(c.typeInfo), list(c.typeArguments), " ", c.sqlTypeName, " ", c.sqlConstraint, c.isVirtual ? " virtual" : "", "}");
        });
    });
    a[SQL_CONSTRAINT] = ask([&] { return std::string(t.getSqlConstraint()); });
    a[VIRTUAL_TABLE] = ask([&] { return std::string(t.getVirtualTableUsing()); });
    a[WITHOUT_ROWID] = ask([&] { return str(t.isWithoutRowId()); });
    a[TABLES] = ask([&] { return each(t.getTables(), [](const auto& x) { return str("{", x.schemaName, ":", nameOf(x.typeInfo), "}"); }); });
    a[TEMPLATE_NAME] = ask([&] { return std::string(t.getTemplateName()); });
    a[TEMPLATE_ARGUMENTS] = ask([&] { return each(t.getTemplateArguments(), [](const auto& x) { return str("{", nameOf(x.typeInfo), "}"); }); });
    a[MESSAGES] = ask([&] {
        return each(t.getMessages(),
                [](const auto& m) { return str("{", m.schemaName, ":", nameOf(m.typeInfo), m.isPublished ? " published" : "", m.isSubscribed ? " subscribed" : "", " ", m.topic, "}"); });
    });
    a[METHODS] = ask([&] { return each(t.getMethods(), [](const auto& m) { return str("{", m.schemaName, ":", nameOf(m.responseTypeInfo), "(", nameOf(m.requestTypeInfo), ")}"); }); });
    a[CREATE] = ask([&] { return instance(t.createInstance(ALLOC())); });
    a[CREATE_DEFAULT] = ask([&] { return instance(t.createInstance()); });
    return a;
}

// what a type information of a kind refuses
Answers refusals(const std::string& name, SchemaType schemaType, CppType cppType)
{
    Answers a;
    const std::string start = "! Type '" + name + "' ";
    a.fill(start + "is not a SQL table type!");
    a[NAME] = name;
    a[SCHEMA_TYPE] = str(static_cast<int>(schemaType));
    a[CPP_TYPE] = str(static_cast<int>(cppType));
    a[BIT_SIZE] = start + "is not a fixed size type!";
    a[FIELDS] = a[PARAMETERS] = a[FUNCTIONS] = a[CREATE] = a[CREATE_DEFAULT] = start + "is not a compound type!";
    a[SELECTOR] = a[CASES] = start + "is not a choice type!";
    a[UNDERLYING] = start + "does not have underlying type!";
    a[ENUM_ITEMS] = start + "is not an enum type!";
    a[BITMASK_VALUES] = start + "is not a bitmask type!";
    a[TABLES] = start + "is not a SQL database type!";
    a[TEMPLATE_NAME] = a[TEMPLATE_ARGUMENTS] = start + "is not a templatable type!";
    a[MESSAGES] = start + "is not a pubsub type!";
    a[METHODS] = start + "is not a service type!";
    return a;
}

template <typename ALLOC>
void expectAnswers(Ctx& ctx, const IBasicTypeInfo<ALLOC>& info, const Answers& expected)
{
    const Answers got = answers(info);
    for (size_t q = 0; q < QUERIES; ++q)
    {
        ctx.cases();
        MC_REQUIRE(ctx, got[q] == expected[q], queryNames[q], queryNames[q], " of '", expected[NAME], "' gives \"", got[q], "\" instead of \"", expected[q], "\"");
    }
    ctx.step(QUERIES);
    ctx.state(expected[NAME] + expected[SCHEMA_TYPE]);
}

// ---------------------------------------------------------------- built-in types

template <typename T, typename ALLOC>
void builtin(Ctx& ctx, const char* name, SchemaType schemaType, CppType cppType, int bitSize)
{
    Answers expected = refusals(name, schemaType, cppType);
    if (bitSize > 0)
    {
        expected[BIT_SIZE] = str(bitSize);
    }
    const IBasicTypeInfo<ALLOC>& info = typeInfo<T, ALLOC>();
    expectAnswers(ctx, info, expected);
    const IBasicTypeInfo<ALLOC>& again = typeInfo<T, ALLOC>();
    MC_REQUIRE(ctx, &info == &again, "identity", "two type informations of '", name, "'");
}

constexpr CppType cppInt(size_t bits, bool isSigned)
{
    return bits <= 8 ? (isSigned ? CppType::INT8 : CppType::UINT8)
                     : bits <= 16 ? (isSigned ? CppType::INT16 : CppType::UINT16) : bits <= 32 ? (isSigned ? CppType::INT32 : CppType::UINT32) : (isSigned ? CppType::INT64 : CppType::UINT64);
}

template <size_t I, typename ALLOC>
void fixedInt(Ctx& ctx)
{
    const std::string signedName = str("int:", I + 1);
    const std::string unsignedName = str("bit:", I + 1);
    const auto signedType = static_cast<SchemaType>(static_cast<int>(SchemaType::INT1) + static_cast<int>(I));
    const auto unsignedType = static_cast<SchemaType>(static_cast<int>(SchemaType::UINT1) + static_cast<int>(I));
    using Signed = detail::FixedIntWrapper<I + 1, true>;
    using Unsigned = detail::FixedIntWrapper<I + 1, false>;
    builtin<Signed, ALLOC>(ctx, signedName.c_str(), signedType, cppInt(I + 1, true), static_cast<int>(I + 1));
    builtin<Unsigned, ALLOC>(ctx, unsignedName.c_str(), unsignedType, cppInt(I + 1, false), static_cast<int>(I + 1));
}

template <typename ALLOC, size_t... I>
void fixedInts(Ctx& ctx, std::index_sequence<I...>)
{
    using Fn = void (*)(Ctx&);
    static const Fn all[] = {&fixedInt<I, ALLOC>...};
    all[ctx.choose(64)](ctx);
}

template <typename ALLOC>
void builtins(Ctx& ctx)
{
    using R = ALLOC;
    switch (ctx.choose(25))
    {
    case 0: return builtin<Bool, R>(ctx, "bool", SchemaType::BOOL, CppType::BOOL, 1);
    case 1: return builtin<VarInt16, R>(ctx, "varint16", SchemaType::VARINT16, CppType::INT16, 0);
    case 2: return builtin<VarInt32, R>(ctx, "varint32", SchemaType::VARINT32, CppType::INT32, 0);
    case 3: return builtin<VarInt64, R>(ctx, "varint64", SchemaType::VARINT64, CppType::INT64, 0);
    case 4: return builtin<VarInt, R>(ctx, "varint", SchemaType::VARINT, CppType::INT64, 0);
    case 5: return builtin<VarUInt16, R>(ctx, "varuint16", SchemaType::VARUINT16, CppType::UINT16, 0);
    case 6: return builtin<VarUInt32, R>(ctx, "varuint32", SchemaType::VARUINT32, CppType::UINT32, 0);
    case 7: return builtin<VarUInt64, R>(ctx, "varuint64", SchemaType::VARUINT64, CppType::UINT64, 0);
    case 8: return builtin<VarUInt, R>(ctx, "varuint", SchemaType::VARUINT, CppType::UINT64, 0);
    case 9: return builtin<VarSize, R>(ctx, "varsize", SchemaType::VARSIZE, CppType::UINT32, 0);
    case 10: return builtin<Float16, R>(ctx, "float16", SchemaType::FLOAT16, CppType::FLOAT, 16);
    case 11: return builtin<Float32, R>(ctx, "float32", SchemaType::FLOAT32, CppType::FLOAT, 32);
    case 12: return builtin<Float64, R>(ctx, "float64", SchemaType::FLOAT64, CppType::DOUBLE, 64);
    case 13: return builtin<BasicBytes<R>, R>(ctx, "bytes", SchemaType::BYTES, CppType::BYTES, 0);
    case 14: return builtin<BasicString<RebindAlloc<R, char>>, R>(ctx, "string", SchemaType::STRING, CppType::STRING, 0);
    case 15: return builtin<std::string_view, R>(ctx, "string", SchemaType::STRING, CppType::STRING, 0);
    case 16: return builtin<BasicBitBuffer<R>, R>(ctx, "extern", SchemaType::EXTERN, CppType::BIT_BUFFER, 0);
    case 17: return builtin<DynInt8, R>(ctx, "int<>", SchemaType::DYNAMIC_SIGNED_BITFIELD, CppType::INT8, 0);
    case 18: return builtin<DynInt16, R>(ctx, "int<>", SchemaType::DYNAMIC_SIGNED_BITFIELD, CppType::INT16, 0);
    case 19: return builtin<DynInt32, R>(ctx, "int<>", SchemaType::DYNAMIC_SIGNED_BITFIELD, CppType::INT32, 0);
    case 20: return builtin<DynInt64, R>(ctx, "int<>", SchemaType::DYNAMIC_SIGNED_BITFIELD, CppType::INT64, 0);
    case 21: return builtin<DynUInt8, R>(ctx, "bit<>", SchemaType::DYNAMIC_UNSIGNED_BITFIELD, CppType::UINT8, 0);
    case 22: return builtin<DynUInt16, R>(ctx, "bit<>", SchemaType::DYNAMIC_UNSIGNED_BITFIELD, CppType::UINT16, 0);
    case 23: return builtin<DynUInt32, R>(ctx, "bit<>", SchemaType::DYNAMIC_UNSIGNED_BITFIELD, CppType::UINT32, 0);
    default: return builtin<DynUInt64, R>(ctx, "bit<>", SchemaType::DYNAMIC_UNSIGNED_BITFIELD, CppType::UINT64, 0);
    }
}

// ---------------------------------------------------------------- every kind of type information, of every size

const char* const names3[] = {"first", "second", "third"};

template <typename ALLOC>
IBasicReflectableDataPtr<ALLOC> createNothing(const ALLOC&)
{
    return nullptr;
}

// storage of what a type information refers to
template <typename ALLOC>
struct Parts
{
    std::vector<std::string_view> arguments;
    std::vector<BasicFieldInfo<ALLOC>> fields;
    std::vector<BasicParameterInfo<ALLOC>> parameters;
    std::vector<BasicFunctionInfo<ALLOC>> functions;
    std::vector<BasicCaseInfo<ALLOC>> cases;
    std::vector<ItemInfo> items;
    std::vector<BasicColumnInfo<ALLOC>> columns;
    std::vector<BasicTableInfo<ALLOC>> tables;
    std::vector<BasicTemplateArgumentInfo<ALLOC>> templateArguments;
    std::vector<BasicMessageInfo<ALLOC>> messages;
    std::vector<BasicMethodInfo<ALLOC>> methods;
};

template <typename ALLOC>
const IBasicTypeInfo<ALLOC>*& recursionTarget()
{
    static const IBasicTypeInfo<ALLOC>* target = nullptr;
    return target;
}
template <typename ALLOC>
const IBasicTypeInfo<ALLOC>& recursion()
{
    return *recursionTarget<ALLOC>();
}

template <typename ALLOC>
void expectBoth(Ctx& ctx, const IBasicTypeInfo<ALLOC>& info, const Answers& expected)
{
    expectAnswers(ctx, info, expected);
    // a type that contains itself gives the same answers
    recursionTarget<ALLOC>() = &info;
    const detail::RecursiveTypeInfo<ALLOC> recursive(recursion<ALLOC>);
    expectAnswers<ALLOC>(ctx, recursive, expected);
}

template <typename ALLOC>
void kinds(Ctx& ctx)
{
    const uint32_t kind = ctx.choose(10);
    const size_t n = ctx.choose(4);
    const size_t m = ctx.choose(4);
    const bool flag = ctx.flip();
    const std::string name = str("some.package.Type", kind);
    Parts<ALLOC> p;
    p.arguments = {"a", "b + 1", ""};
    const IBasicTypeInfo<ALLOC>* const types[] = {&typeInfo<UInt8, ALLOC>(), &typeInfo<Int64, ALLOC>(), &typeInfo<std::string_view, ALLOC>()};
    const char* const typeNames[] = {"bit:8", "int:64", "string"};
    std::string fieldsText = str(n, ":");
    std::string parametersText = str(m, ":");
    std::string functionsText = str(n, ":");
    std::string casesText = str(m, ":");
    std::string itemsText = str(n, ":");
    std::string columnsText = str(n, ":");
    std::string tablesText = str(n, ":");
    std::string templatesText = str(m, ":");
    std::string messagesText = str(n, ":");
    std::string methodsText = str(n, ":");
    for (size_t i = 0; i < 3; ++i)
    {
        const Span<const std::string_view> arguments(p.arguments.data(), i);
        const std::string argumentsText = list(arguments);
        const bool x = (i % 2 == 0) != flag;
        p.fields.emplace_back(names3[i], *types[i], arguments, x, i == 0 ? "8" : "", i == 1 ? "o" : "", i == 2 ? "ini" : "", !x, !x ? "c" : "", i == 1 ? "k" : "", x, x ? "l" : "", x, flag);
        p.parameters.push_back({names3[i], *types[2 - i]});
        p.functions.push_back({names3[i], *types[i], "result"});
        p.items.emplace_back(names3[i], i == 0 ? 0 : i == 1 ? UINT64_MAX : UINT64_C(0x8000000000000000), x, flag);
        p.columns.emplace_back(names3[i], *types[i], arguments, i == 0 ? "INTEGER" : "TEXT", i == 1 ? "NOT NULL" : "", x);
        p.tables.push_back({names3[i], *types[i]});
        p.templateArguments.push_back({*types[2 - i]});
        p.messages.emplace_back(names3[i], *types[i], x, flag, i == 0 ? "topic" : "");
        p.methods.push_back({names3[i], *types[i], *types[2 - i]});
        if (i < n)
        {
            fieldsText += str("{", names3[i], ":", typeNames[i], argumentsText, x ? " extended" : "", " align=", i == 0 ? "8" : "", " offset=", i == 1 ? "o" : "", " init=", i == 2 ? "ini" : "",
                    x ? "" : " optional", " if=", x ? "" : "c", " constraint=", i == 1 ? "k" : "", x ? " array" : "", " length=", x ? "l" : "", x ? " packed" : "", flag ? " implicit" : "", "}");
            functionsText += str("{", names3[i], ":", typeNames[i], "=result}");
            itemsText += str("{", names3[i], "=", i == 0 ? "0" : i == 1 ? "18446744073709551615" : "9223372036854775808", x ? " deprecated" : "", flag ? " removed" : "", "}");
            columnsText += str("{", names3[i], ":", typeNames[i], argumentsText, " ", i == 0 ? "INTEGER" : "TEXT", " ", i == 1 ? "NOT NULL" : "", x ? " virtual" : "", "}");
            tablesText += str("{", names3[i], ":", typeNames[i], "}");
            messagesText += str("{", names3[i], ":", typeNames[i], x ? " published" : "", flag ? " subscribed" : "", " ", i == 0 ? "topic" : "", "}");
            methodsText += str("{", names3[i], ":", typeNames[i], "(", typeNames[2 - i], ")}");
        }
        if (i < m)
        {
            parametersText += str("{", names3[i], ":", typeNames[2 - i], "}");
            casesText += str("{", argumentsText, i == 2 ? "-" : names3[i], "}");
            templatesText += str("{", typeNames[2 - i], "}");
        }
    }
    for (size_t i = 0; i < 3; ++i)
    {
        p.cases.push_back({Span<const std::string_view>(p.arguments.data(), i), i == 2 ? nullptr : &p.fields[i]});
    }
    // sizes 3 are followed by the fourth: sizes 0 to 3
    const size_t nn = n;
    const Span<const BasicFieldInfo<ALLOC>> fields(p.fields.data(), nn);
    const Span<const BasicParameterInfo<ALLOC>> parameters(p.parameters.data(), m);
    const Span<const BasicFunctionInfo<ALLOC>> functions(p.functions.data(), nn);
    const Span<const BasicCaseInfo<ALLOC>> cases(p.cases.data(), m);
    const Span<const ItemInfo> items(p.items.data(), nn);
    const Span<const BasicTemplateArgumentInfo<ALLOC>> templates(p.templateArguments.data(), m);
    const std::string templateName = flag ? "Template" : "";
    const typename detail::StructTypeInfo<ALLOC>::CreateInstanceFunc creator = flag ? createNothing<ALLOC> : nullptr;
    const auto compound = [&](SchemaType schemaType, CppType cppType) {
        Answers e = refusals(name, schemaType, cppType);
        e[FIELDS] = fieldsText;
        e[PARAMETERS] = parametersText;
        e[FUNCTIONS] = functionsText;
        e[TEMPLATE_NAME] = templateName;
        e[TEMPLATE_ARGUMENTS] = templatesText;
        e[CREATE] = e[CREATE_DEFAULT] = flag ? "null (other type information)" : "! Reflectable '" + name + "': Cannot create instance, not implemented!";
        return e;
    };
    switch (kind)
    {
    case 0:
        return expectBoth<ALLOC>(ctx, detail::StructTypeInfo<ALLOC>(name, creator, templateName, templates, fields, parameters, functions), compound(SchemaType::STRUCT, CppType::STRUCT));
    case 1:
        return expectBoth<ALLOC>(ctx, detail::UnionTypeInfo<ALLOC>(name, creator, templateName, templates, fields, parameters, functions), compound(SchemaType::UNION, CppType::UNION));
    case 2: {
        Answers e = compound(SchemaType::CHOICE, CppType::CHOICE);
        e[SELECTOR] = "selector expression";
        e[CASES] = casesText;
        return expectBoth<ALLOC>(ctx, detail::ChoiceTypeInfo<ALLOC>(name, creator, templateName, templates, fields, parameters, functions, "selector expression", cases), e);
    }
    case 3: {
        Answers e = refusals(name, SchemaType::ENUM, CppType::ENUM);
        e[UNDERLYING] = typeNames[m % 3];
        e[ENUM_ITEMS] = itemsText;
        return expectBoth<ALLOC>(ctx, detail::EnumTypeInfo<ALLOC>(name, *types[m % 3], items), e);
    }
    case 4: {
        Answers e = refusals(name, SchemaType::BITMASK, CppType::BITMASK);
        e[UNDERLYING] = typeNames[m % 3];
        e[BITMASK_VALUES] = itemsText;
        return expectBoth<ALLOC>(ctx, detail::BitmaskTypeInfo<ALLOC>(name, *types[m % 3], items), e);
    }
    case 5: {
        Answers e = refusals(name, SchemaType::SQL_TABLE, CppType::SQL_TABLE);
        e[COLUMNS] = columnsText;
        e[SQL_CONSTRAINT] = flag ? "UNIQUE(a)" : "";
        e[VIRTUAL_TABLE] = flag ? "" : "fts4";
        e[WITHOUT_ROWID] = str(flag);
        e[TEMPLATE_NAME] = templateName;
        e[TEMPLATE_ARGUMENTS] = templatesText;
        return expectBoth<ALLOC>(ctx,
                detail::SqlTableTypeInfo<ALLOC>(name, templateName, templates, Span<const BasicColumnInfo<ALLOC>>(p.columns.data(), nn), flag ? "UNIQUE(a)" : "", flag ? "" : "fts4", flag), e);
    }
    case 6: {
        Answers e = refusals(name, SchemaType::SQL_DATABASE, CppType::SQL_DATABASE);
        e[TABLES] = tablesText;
        return expectBoth<ALLOC>(ctx, detail::SqlDatabaseTypeInfo<ALLOC>(name, Span<const BasicTableInfo<ALLOC>>(p.tables.data(), nn)), e);
    }
    case 7: {
        Answers e = refusals(name, SchemaType::PUBSUB, CppType::PUBSUB);
        e[MESSAGES] = messagesText;
        return expectBoth<ALLOC>(ctx, detail::PubsubTypeInfo<ALLOC>(name, Span<const BasicMessageInfo<ALLOC>>(p.messages.data(), nn)), e);
    }
    case 8: {
        Answers e = refusals(name, SchemaType::SERVICE, CppType::SERVICE);
        e[METHODS] = methodsText;
        return expectBoth<ALLOC>(ctx, detail::ServiceTypeInfo<ALLOC>(name, Span<const BasicMethodInfo<ALLOC>>(p.methods.data(), nn)), e);
    }
    default: {
        // the same for built-in ones behind a recursive one
        Answers e = refusals(typeNames[m % 3], m % 3 == 0 ? SchemaType::UINT8 : m % 3 == 1 ? SchemaType::INT64 : SchemaType::STRING, m % 3 == 0 ? CppType::UINT8 : m % 3 == 1 ? CppType::INT64 : CppType::STRING);
        if (m % 3 != 2)
        {
            e[BIT_SIZE] = m % 3 == 0 ? "8" : "64";
        }
        return expectBoth<ALLOC>(ctx, *types[m % 3], e);
    }
    }
}

// ---------------------------------------------------------------- instances

template <typename T, typename ALLOC>
void instance(Ctx& ctx, const ALLOC& allocator, const ALLOC& other)
{
    const IBasicTypeInfo<ALLOC>& info = typeInfo<T, ALLOC>();
    for (const IBasicReflectableDataPtr<ALLOC>& data : {info.createInstance(allocator), info.createInstance(other)})
    {
        ctx.step();
        MC_REQUIRE(ctx, data != nullptr && &data->getTypeInfo() == &info, "instance", "an instance of '", info.getSchemaName(), "' has other type information");
        MC_REQUIRE(ctx, data->isArray() == false, "instance-array", "an instance is an array");
        // it owns a default object of the type, which its reflection refers to
        const T& object = ReflectableUtil::getValue<T, ALLOC>(data);
        MC_REQUIRE(ctx, object == T(), "instance-default", "an instance of '", info.getSchemaName(), "' is not the default one");
        for (const auto& field : info.getFields())
        {
            std::string result = ask([&] {
                const auto f = data->getField(field.schemaName);
                return f ? std::string(f->getTypeInfo().getSchemaName()) : std::string("null");
            });
            const bool fits = result == field.typeInfo.getSchemaName() || (field.isOptional && result == "null") || (TypeInfoUtil::hasChoice(info.getCppType()) && (result[0] == '!' || result == "null"));
            MC_REQUIRE(ctx, fits, "instance-field", "field '", field.schemaName, "' of an instance of '", info.getSchemaName(), "' is ", result);
            ctx.cases();
        }
    }
}

void instancesStd(Ctx& ctx)
{
    const StdAlloc a;
    switch (ctx.choose(10))
    {
    case 0: return instance<st::CreatorNested>(ctx, a, a);
    case 1: return instance<st::CreatorObject>(ctx, a, a);
    case 2: return instance<st::WalkerNested>(ctx, a, a);
    case 3: return instance<st::WalkerUnion>(ctx, a, a);
    case 4: return instance<st::WalkerObject>(ctx, a, a);
    case 5: return instance<st::ReflectableNested>(ctx, a, a);
    case 6: return instance<st::ReflectableObject>(ctx, a, a);
    case 7: return instance<st::ReflectableUtilObject>(ctx, a, a);
    case 8: return instance<st::ReflectableUtilUnion>(ctx, a, a);
    default: return instance<st::WalkerChoice>(ctx, a, a);
    }
}

void instancesPpmr(Ctx& ctx)
{
    tr::begin();
    {
        const PpmrAlloc a(&tr::arena(1));
        const PpmrAlloc b(&tr::arena(2));
        switch (ctx.choose(6))
        {
        case 0: instance<pt::CreatorNested>(ctx, a, b); break;
        case 1: instance<pt::CreatorObject>(ctx, a, b); break;
        case 2: instance<pt::WalkerUnion>(ctx, a, b); break;
        case 3: instance<pt::WalkerObject>(ctx, a, b); break;
        case 4: instance<pt::ReflectableObject>(ctx, a, b); break;
        default: instance<pt::ReflectableUtilUnion>(ctx, a, b); break;
        }
        MC_REQUIRE(ctx, tr::arena(1).allocations() > 0 && tr::arena(2).allocations() > 0, "instance-memory", "an instance does not use the given allocator");
    }
    tr::end(ctx);
}

// ---------------------------------------------------------------- classification of the kinds

void classification(Ctx& ctx)
{
    // by their names in the enumerations, which say what they are; as in C++, bool is integral and floats are signed
    const auto schemaType = static_cast<SchemaType>(ctx.choose(static_cast<uint32_t>(SchemaType::PUBSUB) + 1));
    const auto in = [&](std::initializer_list<SchemaType> types) { return std::find(types.begin(), types.end(), schemaType) != types.end(); };
    const auto between = [&](SchemaType first, SchemaType last) { return schemaType >= first && schemaType <= last; };
    const bool compound = in({SchemaType::STRUCT, SchemaType::CHOICE, SchemaType::UNION});
    const bool hasChoice = in({SchemaType::CHOICE, SchemaType::UNION});
    const bool floating = in({SchemaType::FLOAT16, SchemaType::FLOAT32, SchemaType::FLOAT64});
    const bool varSigned = in({SchemaType::VARINT16, SchemaType::VARINT32, SchemaType::VARINT64, SchemaType::VARINT});
    const bool varUnsigned = in({SchemaType::VARUINT16, SchemaType::VARUINT32, SchemaType::VARUINT64, SchemaType::VARUINT, SchemaType::VARSIZE});
    const bool fixedSigned = between(SchemaType::INT1, SchemaType::INT64);
    const bool fixedUnsigned = between(SchemaType::UINT1, SchemaType::UINT64);
    const bool dynSigned = in({SchemaType::DYNAMIC_SIGNED_BITFIELD});
    const bool dynUnsigned = in({SchemaType::DYNAMIC_UNSIGNED_BITFIELD});
    const bool signedInt = varSigned || fixedSigned || dynSigned;
    const bool unsignedInt = varUnsigned || fixedUnsigned || dynUnsigned;
    const bool fixedSize = fixedSigned || fixedUnsigned || floating || schemaType == SchemaType::BOOL;
    const int i = static_cast<int>(schemaType);
#define EXPECT(call, expected) \
    ctx.cases(); \
    MC_REQUIRE(ctx, TypeInfoUtil::call == (expected), #call, #call, " is ", !(expected), " for schema type ", i)
    EXPECT(isCompound(schemaType), compound);
    EXPECT(hasChoice(schemaType), hasChoice);
    EXPECT(isFixedSize(schemaType), fixedSize);
    EXPECT(isIntegral(schemaType), signedInt || unsignedInt || schemaType == SchemaType::BOOL);
    EXPECT(isSigned(schemaType), signedInt || floating);
    EXPECT(isFloatingPoint(schemaType), floating);
#undef EXPECT
    ctx.step(6);
    ctx.state(str(i));
}

void classificationCpp(Ctx& ctx)
{
    const auto cppType = static_cast<CppType>(ctx.choose(static_cast<uint32_t>(CppType::PUBSUB) + 1));
    const auto in = [&](std::initializer_list<CppType> types) { return std::find(types.begin(), types.end(), cppType) != types.end(); };
    const bool signedInt = in({CppType::INT8, CppType::INT16, CppType::INT32, CppType::INT64});
    const bool unsignedInt = in({CppType::UINT8, CppType::UINT16, CppType::UINT32, CppType::UINT64});
    const int i = static_cast<int>(cppType);
#define EXPECT(call, expected) \
    ctx.cases(); \
    MC_REQUIRE(ctx, TypeInfoUtil::call == (expected), #call, #call, " is ", !(expected), " for C++ type ", i)
    const bool compound = in({CppType::STRUCT, CppType::CHOICE, CppType::UNION});
    const bool withChoice = in({CppType::CHOICE, CppType::UNION});
    const bool floating = in({CppType::FLOAT, CppType::DOUBLE});
    EXPECT(isCompound(cppType), compound);
    EXPECT(hasChoice(cppType), withChoice);
    EXPECT(isIntegral(cppType), signedInt || unsignedInt || cppType == CppType::BOOL);
    EXPECT(isFixedSize(cppType), signedInt || unsignedInt || floating || cppType == CppType::BOOL);
    EXPECT(isSigned(cppType), signedInt || floating);
    EXPECT(isFloatingPoint(cppType), floating);
#undef EXPECT
    ctx.step(5);
    ctx.state(str(i));
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {
                    {"fixed-integers", [](Ctx& ctx) { fixedInts<StdAlloc>(ctx, std::make_index_sequence<64>()); }, 1},
                    {"fixed-integers-ppmr", [](Ctx& ctx) { fixedInts<PpmrAlloc>(ctx, std::make_index_sequence<64>()); }, 1},
                    {"built-in", builtins<StdAlloc>, 1},
                    {"built-in-ppmr", builtins<PpmrAlloc>, 1},
                    {"kinds", kinds<StdAlloc>, 2},
                    {"kinds-ppmr", kinds<PpmrAlloc>, 2},
                    {"classification", classification, 1},
                    {"classification-cpp", classificationCpp, 1},
                    {"instances", instancesStd, 1},
                    {"instances-ppmr", instancesPpmr, 1},
            });
}
