// C33: numeric wrappers behave in expressions as the built-in types they wrap.
// mc: level=model_checking opt=0
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <set>
#include <type_traits>
#include <utility>
#include <vector>

#include "mc.h"
#include "zserio/SizeConvertUtil.h"
#include "zserio/Types.h"

using namespace zserio;
using mc::Ctx;
using mc::str;
namespace zd = zserio::detail;
using Wide = __int128;

namespace
{

// ---------------------------------------------------------------- values

template <typename V>
bool same(V a, V b)
{
    if constexpr (std::is_floating_point_v<V>)
    {
        return (std::isnan(a) && std::isnan(b)) || std::memcmp(&a, &b, sizeof(V)) == 0;
    }
    else
    {
        return a == b;
    }
}

template <typename V>
std::string show(V v)
{
    if constexpr (std::is_floating_point_v<V>)
    {
        char buffer[64];
        snprintf(buffer, sizeof(buffer), "%a", static_cast<double>(v));
        return buffer;
    }
    else if constexpr (std::is_same_v<V, bool>)
    {
        return v ? "true" : "false";
    }
    else if constexpr (std::is_signed_v<V>)
    {
        return std::to_string(static_cast<long long>(v));
    }
    else
    {
        return std::to_string(static_cast<unsigned long long>(v));
    }
}

// every value of an 8 bit type, otherwise those around zero, around the limits and around the powers of two
template <typename V>
std::vector<V> makeAlphabet(bool all)
{
    if constexpr (std::is_same_v<V, bool>)
    {
        return {false, true};
    }
    else if constexpr (std::is_floating_point_v<V>)
    {
        using L = std::numeric_limits<V>;
        return {V(0), -V(0), V(1), V(-1), V(0.5), V(-2.75), V(3), V(1000), V(1) / V(3), L::min(), L::max(), L::lowest(), L::denorm_min(), L::epsilon(), L::infinity(),
                -L::infinity(), L::quiet_NaN(), V(65504), V(6.103515625e-05)};
    }
    else
    {
        using L = std::numeric_limits<V>;
        std::set<V> result;
        const auto put = [&](Wide v) {
            if (v >= static_cast<Wide>(L::min()) && v <= static_cast<Wide>(L::max()))
            {
                result.insert(static_cast<V>(v));
            }
        };
        if (all && sizeof(V) == 1)
        {
            for (Wide v = L::min(); v <= L::max(); ++v)
            {
                put(v);
            }
        }
        for (int d = -3; d <= 3; ++d)
        {
            put(d);
            put(static_cast<Wide>(L::min()) + d);
            put(static_cast<Wide>(L::max()) + d);
        }
        const int step = all ? 1 : 4;
        for (int bit = 2; bit < static_cast<int>(sizeof(V)) * 8; bit += step)
        {
            for (int d = -1; d <= 1; ++d)
            {
                put((static_cast<Wide>(1) << bit) + d);
                put(-(static_cast<Wide>(1) << bit) + d);
            }
        }
        return std::vector<V>(result.begin(), result.end());
    }
}

template <typename V>
const std::vector<V>& alphabet(bool all)
{
    static const std::vector<V> values[2] = {makeAlphabet<V>(false), makeAlphabet<V>(true)};
    return values[all ? 1 : 0];
}

// ---------------------------------------------------------------- operations

enum Operation
{
    PRE_INC,
    POST_INC,
    PRE_DEC,
    POST_DEC,
    ADD,
    SUB,
    MUL,
    DIV,
    MOD,
    AND,
    OR,
    XOR,
    SHL,
    SHR,
    ASSIGN,
    OPERATIONS
};
const char* const NAMES[] = {"++a", "a++", "--a", "a--", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "="};

// whether the language gives the operation a meaning for the built-in type
template <typename V>
bool defined(int operation, V a, V b)
{
    if constexpr (std::is_floating_point_v<V>)
    {
        return operation == ASSIGN || operation <= MUL || (operation == DIV && b != 0);
    }
    else if constexpr (std::is_same_v<V, bool>)
    {
        return operation > POST_DEC && ((operation != DIV && operation != MOD) || b);
    }
    else
    {
        using P = decltype(V() + V());
        const auto fits = [](Wide v) { return !std::is_signed_v<P> || (v >= static_cast<Wide>(std::numeric_limits<P>::min()) && v <= static_cast<Wide>(std::numeric_limits<P>::max())); };
        const Wide x = a;
        const Wide y = b;
        switch (operation)
        {
        case PRE_INC:
        case POST_INC:
            return fits(x + 1);
        case PRE_DEC:
        case POST_DEC:
            return fits(x - 1);
        case ADD:
            return fits(x + y);
        case SUB:
            return fits(x - y);
        case MUL:
            return !std::is_signed_v<P> || fits(x * y);
        case DIV:
        case MOD:
            return y != 0 && fits(x / y);
        case SHL:
            return y >= 0 && y < static_cast<Wide>(sizeof(P) * 8) && (!std::is_signed_v<P> || (x >= 0 && fits(static_cast<Wide>(static_cast<unsigned __int128>(x) << static_cast<unsigned>(y)))));
        case SHR:
            return y >= 0 && y < static_cast<Wide>(sizeof(P) * 8);
        default:
            return true;
        }
    }
}

// applies the operation to a built-in value
template <typename V>
V plain(int operation, V& a, V b)
{
    if constexpr (!std::is_same_v<V, bool>)
    {
        switch (operation)
        {
        case PRE_INC:
            return ++a;
        case POST_INC:
            return a++;
        case PRE_DEC:
            return --a;
        case POST_DEC:
            return a--;
        default:
            break;
        }
    }
    if constexpr (!std::is_floating_point_v<V>)
    {
        switch (operation)
        {
        case MOD:
            return a = static_cast<V>(a % b);
        case AND:
            return a = static_cast<V>(a & b);
        case OR:
            return a = static_cast<V>(a | b);
        case XOR:
            return a = static_cast<V>(a ^ b);
        case SHL:
            return a = static_cast<V>(a << b);
        case SHR:
            return a = static_cast<V>(a >> b);
        default:
            break;
        }
    }
    switch (operation)
    {
    case ADD:
        return a = static_cast<V>(a + b);
    case SUB:
        return a = static_cast<V>(a - b);
    case MUL:
        return a = static_cast<V>(a * b);
    case DIV:
        return a = static_cast<V>(a / b);
    default:
        return a = b;
    }
}

// applies it to a wrapper; returns the value of the expression and whether it denotes the wrapper itself
template <typename W, typename B>
std::pair<typename W::ValueType, bool> wrapped(int operation, W& a, const B& b)
{
    using V = typename W::ValueType;
    using R = std::pair<V, bool>;
    const auto self = [&](const auto& result) { return R(static_cast<V>(result), static_cast<const void*>(&result) == static_cast<const void*>(&a)); };
    if constexpr (!std::is_same_v<V, bool>)
    {
        switch (operation)
        {
        case PRE_INC:
            return self(++a);
        case PRE_DEC:
            return self(--a);
        case POST_INC: {
            const auto old = a++;
            return R(static_cast<V>(old), false);
        }
        case POST_DEC: {
            const auto old = a--;
            return R(static_cast<V>(old), false);
        }
        default:
            break;
        }
    }
    if constexpr (!std::is_floating_point_v<V>)
    {
        switch (operation)
        {
        case MOD:
            return self(a %= b);
        case AND:
            return self(a &= b);
        case OR:
            return self(a |= b);
        case XOR:
            return self(a ^= b);
        case SHL:
            return self(a <<= b);
        case SHR:
            return self(a >>= b);
        default:
            break;
        }
    }
    switch (operation)
    {
    case ADD:
        return self(a += b);
    case SUB:
        return self(a -= b);
    case MUL:
        return self(a *= b);
    case DIV:
        return self(a /= b);
    default:
        return self(a = b);
    }
}

// ---------------------------------------------------------------- one operation

template <typename W>
void single(Ctx& ctx, const char* type, bool all)
{
    using V = typename W::ValueType;
    const int operation = static_cast<int>(ctx.choose(OPERATIONS));
    const std::vector<V>& values = alphabet<V>(all);
    uint64_t cases = 0;
    for (const V a : values)
    {
        for (const V b : values)
        {
            if (!defined<V>(operation, a, b))
            {
                continue;
            }
            V expectedA = a;
            const V expectedResult = plain<V>(operation, expectedA, b);
            const bool denotes = operation != POST_INC && operation != POST_DEC;
            for (int form = 0; form < 2; ++form) // the operand plain or wrapped
            {
                W w(a);
                const W other(b);
                const auto [result, itself] = form == 0 ? wrapped(operation, w, b) : wrapped(operation, w, other);
                if (!same(static_cast<V>(w), expectedA) || !same(result, expectedResult) || itself != denotes || !same(static_cast<V>(other), b))
                {
                    ctx.fail("operation", str(type, ": ", show(a), " ", NAMES[operation], " ", show(b), form == 0 ? "" : " (wrapped)", ": value ", show(static_cast<V>(w)), " instead of ", show(expectedA), ", result ",
                                                  show(result), " instead of ", show(expectedResult), itself == denotes ? "" : ", and the result is not the operand itself"));
                }
                ++cases;
            }
        }
    }
    ctx.step(cases);
    ctx.cases(cases);
    ctx.state(str(type, operation));
    if (cases != 0 && ctx.wantSample())
    {
        ctx.sample(str(type, " ", NAMES[operation], ": ", cases, " cases"));
    }
}

// ---------------------------------------------------------------- values, comparisons and plain expressions

template <typename W>
void expressions(Ctx& ctx, const char* type, bool all)
{
    using V = typename W::ValueType;
    const std::vector<V>& values = alphabet<V>(all);
    MC_REQUIRE(ctx, same(static_cast<V>(W()), V()), "default", type, ": a default one is ", show(static_cast<V>(W())));
    MC_REQUIRE(ctx, same(static_cast<V>(W{}), V()), "default", type, ": a default one is ", show(static_cast<V>(W{})));
    MC_REQUIRE(ctx, sizeof(W) == sizeof(V) && alignof(W) == alignof(V), "size", type, ": ", sizeof(W), " bytes");
    const V first = values[ctx.choose(static_cast<uint32_t>(values.size()))];
    const W a(first);
    MC_REQUIRE(ctx, same(static_cast<V>(a), first), "value", type, ": ", show(first), " is kept as ", show(static_cast<V>(a)));
    {
        W copy(a);
        W moved(std::move(copy));
        W assigned;
        assigned = moved;
        W fromValue;
        fromValue = first;
        const V back = assigned;
        W swapped;
        std::swap(swapped, assigned);
        MC_REQUIRE(ctx, same(static_cast<V>(moved), first) && same(static_cast<V>(fromValue), first) && same(back, first) && same(static_cast<V>(swapped), first), "copy", type, ": ", show(first),
                " changes when it is copied");
        MC_REQUIRE(ctx, !a == !first && (a ? 1 : 2) == (first ? 1 : 2), "truth", type, ": ", show(first), " has another truth value");
        MC_REQUIRE(ctx, same(+a, +first), "plus", type, ": +", show(first));
        if constexpr (!std::is_same_v<V, bool>)
        {
            if (defined<V>(SUB, V(), first))
            {
                MC_REQUIRE(ctx, same(-a, -first), "minus", type, ": -", show(first));
            }
        }
        if constexpr (std::is_integral_v<V> && !std::is_same_v<V, bool>)
        {
            MC_REQUIRE(ctx, ~a == ~first, "complement", type, ": ~", show(first));
        }
    }
    for (const V second : values)
    {
        const W b(second);
        const auto compare = [&](const char* name, bool expected, bool wrappers, bool left, bool right) {
            if (wrappers != expected || left != expected || right != expected)
            {
                ctx.fail("comparison", str(type, ": ", show(first), " ", name, " ", show(second), " is ", wrappers, " of wrappers, ", left, " with a plain right operand, ", right, " with a plain left operand; expected ", expected));
            }
        };
        compare("==", first == second, a == b, a == second, first == b);
        compare("!=", first != second, a != b, a != second, first != b);
        // relations between a Bool and a plain bool are ambiguous and do not compile, which is not a matter of behaviour
        const auto order = [&](const char* name, bool expected, const auto& relation) {
            if constexpr (std::is_same_v<V, bool>)
            {
                compare(name, expected, relation(a, b), expected, expected);
            }
            else
            {
                compare(name, expected, relation(a, b), relation(a, second), relation(first, b));
            }
        };
        order("<", first < second, [](const auto& l, const auto& r) { return l < r; });
        order(">", first > second, [](const auto& l, const auto& r) { return l > r; });
        order("<=", first <= second, [](const auto& l, const auto& r) { return l <= r; });
        order(">=", first >= second, [](const auto& l, const auto& r) { return l >= r; });
        compare("&&", first && second, a && b, a && second, first && b);
        compare("||", first || second, a || b, a || second, first || b);
        const auto arithmetic = [&](const char* name, auto expected, auto wrappers, auto left, auto right) {
            if (!same(expected, wrappers) || !same(expected, left) || !same(expected, right))
            {
                ctx.fail("arithmetic", str(type, ": ", show(first), " ", name, " ", show(second), " is not ", show(expected)));
            }
        };
        if (defined<V>(ADD, first, second))
        {
            arithmetic("+", first + second, a + b, a + second, first + b);
        }
        if (defined<V>(SUB, first, second))
        {
            arithmetic("-", first - second, a - b, a - second, first - b);
        }
        if (defined<V>(MUL, first, second))
        {
            arithmetic("*", first * second, a * b, a * second, first * b);
        }
        if (defined<V>(DIV, first, second))
        {
            arithmetic("/", first / second, a / b, a / second, first / b);
        }
        if constexpr (!std::is_floating_point_v<V>)
        {
            if (defined<V>(MOD, first, second))
            {
                arithmetic("%", first % second, a % b, a % second, first % b);
            }
            arithmetic("&", first & second, a & b, a & second, first & b);
            arithmetic("|", first | second, a | b, a | second, first | b);
            arithmetic("^", first ^ second, a ^ b, a ^ second, first ^ b);
            if (defined<V>(SHL, first, second))
            {
                arithmetic("<<", first << second, a << b, a << second, first << b);
            }
            if (defined<V>(SHR, first, second))
            {
                arithmetic(">>", first >> second, a >> b, a >> second, first >> b);
            }
        }
        ctx.cases(19);
    }
    ctx.step();
    ctx.state(str(type, show(first)));
}

// ---------------------------------------------------------------- sequences of operations

template <typename W>
void sequence(Ctx& ctx, const char* type)
{
    using V = typename W::ValueType;
    using L = std::numeric_limits<V>;
    std::vector<V> operands;
    if constexpr (std::is_same_v<V, bool>)
    {
        operands = {false, true};
    }
    else
    {
        operands = {V(0), V(1), V(3), L::max()};
    }
    W slots[2] = {W(), W(operands[1])};
    V model[2] = {V(), operands[1]};
    std::string trace = type;
    const uint32_t depth = ctx.thorough() ? 4 : 3;
    for (uint32_t i = 0; i < depth; ++i)
    {
        const int operation = static_cast<int>(ctx.choose(OPERATIONS));
        const uint32_t target = i % 2;
        const bool unary = operation <= POST_DEC;
        const uint32_t operand = unary ? 0 : ctx.choose(static_cast<uint32_t>(operands.size()) + 2);
        const bool ofSlot = operand >= operands.size();
        const uint32_t source = ofSlot ? operand - static_cast<uint32_t>(operands.size()) : 0;
        const V b = ofSlot ? model[source] : operands[operand];
        if (!defined<V>(operation, model[target], b))
        {
            ctx.skip();
        }
        trace += str(" [", target, "] ", NAMES[operation], " ", unary ? std::string() : ofSlot ? str("[", source, "]") : show(b), ";");
        ctx.note(trace);
        ctx.step();
        const V expected = plain<V>(operation, model[target], b);
        // the operand may be the wrapper itself
        const auto result = ofSlot ? wrapped(operation, slots[target], slots[source]) : wrapped(operation, slots[target], b);
        MC_REQUIRE(ctx, same(result.first, expected), "sequence-result", trace, " gives ", show(result.first), " instead of ", show(expected));
        for (int s = 0; s < 2; ++s)
        {
            MC_REQUIRE(ctx, same(static_cast<V>(slots[s]), model[s]), "sequence-value", trace, ": [", s, "] is ", show(static_cast<V>(slots[s])), " instead of ", show(model[s]));
        }
        ctx.state(str(type, show(model[0]), "/", show(model[1])));
    }
    if (ctx.wantSample())
    {
        ctx.sample(trace);
    }
}

// ---------------------------------------------------------------- all the types

struct Type
{
    std::string name;
    std::function<void(Ctx&, const char*, bool)> single;
    std::function<void(Ctx&, const char*, bool)> expressions;
    std::function<void(Ctx&, const char*)> sequence;
};

template <typename W>
void add(std::vector<Type>& types, const std::string& name)
{
    types.push_back({name, single<W>, expressions<W>, sequence<W>});
}

template <size_t... I>
void addFixed(std::vector<Type>& types, std::index_sequence<I...>)
{
    (add<zd::FixedIntWrapper<I + 1, true>>(types, "Int" + std::to_string(I + 1)), ...);
    (add<zd::FixedIntWrapper<I + 1, false>>(types, "UInt" + std::to_string(I + 1)), ...);
}

// one of each family and underlying type
const std::vector<Type>& families()
{
    static const std::vector<Type> types = [] {
        std::vector<Type> result;
        add<Bool>(result, "Bool");
        add<Int8>(result, "Int8");
        add<UInt8>(result, "UInt8");
        add<Int5>(result, "Int5");
        add<UInt5>(result, "UInt5");
        add<Int16>(result, "Int16");
        add<UInt16>(result, "UInt16");
        add<Int32>(result, "Int32");
        add<UInt32>(result, "UInt32");
        add<Int64>(result, "Int64");
        add<UInt64>(result, "UInt64");
        add<DynInt8>(result, "DynInt8");
        add<DynUInt8>(result, "DynUInt8");
        add<DynInt16>(result, "DynInt16");
        add<DynUInt16>(result, "DynUInt16");
        add<DynInt32>(result, "DynInt32");
        add<DynUInt32>(result, "DynUInt32");
        add<DynInt64>(result, "DynInt64");
        add<DynUInt64>(result, "DynUInt64");
        add<VarInt16>(result, "VarInt16");
        add<VarUInt16>(result, "VarUInt16");
        add<VarInt32>(result, "VarInt32");
        add<VarUInt32>(result, "VarUInt32");
        add<VarInt64>(result, "VarInt64");
        add<VarUInt64>(result, "VarUInt64");
        add<VarInt>(result, "VarInt");
        add<VarUInt>(result, "VarUInt");
        add<VarSize>(result, "VarSize");
        add<Float16>(result, "Float16");
        add<Float32>(result, "Float32");
        add<Float64>(result, "Float64");
        return result;
    }();
    return types;
}

const std::vector<Type>& widths()
{
    static const std::vector<Type> types = [] {
        std::vector<Type> result;
        addFixed(result, std::make_index_sequence<64>());
        return result;
    }();
    return types;
}

const Type& choose(Ctx& ctx, const std::vector<Type>& types)
{
    return types[ctx.choose(static_cast<uint32_t>(types.size()))];
}

void operations(Ctx& ctx)
{
    const Type& type = choose(ctx, families());
    type.single(ctx, type.name.c_str(), true);
}

void operationsOfWidths(Ctx& ctx)
{
    const Type& type = choose(ctx, widths());
    type.single(ctx, type.name.c_str(), ctx.thorough());
}

void expressionsOfFamilies(Ctx& ctx)
{
    const Type& type = choose(ctx, families());
    type.expressions(ctx, type.name.c_str(), true);
}

void expressionsOfWidths(Ctx& ctx)
{
    const Type& type = choose(ctx, widths());
    type.expressions(ctx, type.name.c_str(), ctx.thorough());
}

void sequences(Ctx& ctx)
{
    static const std::vector<Type> some = [] {
        std::vector<Type> result;
        add<Bool>(result, "Bool");
        add<Int8>(result, "Int8");
        add<UInt5>(result, "UInt5");
        add<Int16>(result, "Int16");
        add<DynUInt32>(result, "DynUInt32");
        add<VarInt64>(result, "VarInt64");
        add<UInt64>(result, "UInt64");
        add<Float32>(result, "Float32");
        return result;
    }();
    const Type& type = choose(ctx, some);
    type.sequence(ctx, type.name.c_str());
}

// ---------------------------------------------------------------- limits

template <typename V, typename U>
V ofBits(U bits)
{
    V v;
    static_assert(sizeof(v) == sizeof(bits));
    std::memcpy(&v, &bits, sizeof(v));
    return v;
}

template <size_t... I>
void limitsOfWidths(Ctx& ctx, uint32_t chosen, std::index_sequence<I...>)
{
    const auto one = [&](auto wrapper, int bits, bool isSigned) {
        using W = decltype(wrapper);
        const Wide low = isSigned ? -(static_cast<Wide>(1) << (bits - 1)) : 0;
        const Wide high = (static_cast<Wide>(1) << (isSigned ? bits - 1 : bits)) - 1;
        MC_REQUIRE(ctx, static_cast<Wide>(static_cast<typename W::ValueType>(NumericLimits<W>::min())) == low, "limits", "smallest of ", bits, isSigned ? " signed" : " unsigned", " bits");
        MC_REQUIRE(ctx, static_cast<Wide>(static_cast<typename W::ValueType>(NumericLimits<W>::max())) == high, "limits", "largest of ", bits, isSigned ? " signed" : " unsigned", " bits");
    };
    ((I == chosen ? (one(zd::FixedIntWrapper<I + 1, true>(), static_cast<int>(I + 1), true), one(zd::FixedIntWrapper<I + 1, false>(), static_cast<int>(I + 1), false)) : void()), ...);
}

template <typename W>
void limitsAre(Ctx& ctx, const char* name, Wide low, Wide high)
{
    MC_REQUIRE(ctx, static_cast<Wide>(static_cast<typename W::ValueType>(NumericLimits<W>::min())) == low, "limits", "smallest ", name);
    MC_REQUIRE(ctx, static_cast<Wide>(static_cast<typename W::ValueType>(NumericLimits<W>::max())) == high, "limits", "largest ", name);
}

void limits(Ctx& ctx)
{
    const uint32_t which = ctx.choose(67);
    ctx.state(which);
    ctx.step();
    const auto power = [](int bits) { return static_cast<Wide>(1) << bits; };
    if (which < 64)
    {
        limitsOfWidths(ctx, which, std::make_index_sequence<64>());
        return;
    }
    if (which == 64)
    {
        MC_REQUIRE(ctx, same<float>(NumericLimits<Float16>::min(), std::ldexp(1.0F, -14)), "limits", "smallest normal Float16");
        MC_REQUIRE(ctx, same<float>(NumericLimits<Float16>::max(), std::ldexp(2047.0F, 5)), "limits", "largest Float16");
        MC_REQUIRE(ctx, same<float>(NumericLimits<Float32>::min(), ofBits<float>(UINT32_C(0x00800000))), "limits", "smallest normal Float32");
        MC_REQUIRE(ctx, same<float>(NumericLimits<Float32>::max(), ofBits<float>(UINT32_C(0x7F7FFFFF))), "limits", "largest Float32");
        MC_REQUIRE(ctx, same<double>(NumericLimits<Float64>::min(), ofBits<double>(UINT64_C(0x0010000000000000))), "limits", "smallest normal Float64");
        MC_REQUIRE(ctx, same<double>(NumericLimits<Float64>::max(), ofBits<double>(UINT64_C(0x7FEFFFFFFFFFFFFF))), "limits", "largest Float64");
        MC_REQUIRE(ctx, !NumericLimits<Bool>::min() && NumericLimits<Bool>::max(), "limits", "Bool");
        return;
    }
    if (which == 65)
    {
        limitsAre<VarInt16>(ctx, "VarInt16", -(power(14) - 1), power(14) - 1);
        limitsAre<VarUInt16>(ctx, "VarUInt16", 0, power(15) - 1);
        limitsAre<VarInt32>(ctx, "VarInt32", -(power(28) - 1), power(28) - 1);
        limitsAre<VarUInt32>(ctx, "VarUInt32", 0, power(29) - 1);
        limitsAre<VarInt64>(ctx, "VarInt64", -(power(56) - 1), power(56) - 1);
        limitsAre<VarUInt64>(ctx, "VarUInt64", 0, power(57) - 1);
        limitsAre<VarInt>(ctx, "VarInt", -power(63), power(63) - 1);
        limitsAre<VarUInt>(ctx, "VarUInt", 0, power(64) - 1);
        limitsAre<VarSize>(ctx, "VarSize", 0, power(31) - 1);
        return;
    }
    // sizes keep their value through the conversions, or are refused
    for (int bit = 0; bit < 64; ++bit)
    {
        for (int d = -1; d <= 1; ++d)
        {
            const uint64_t value = (UINT64_C(1) << bit) + static_cast<uint64_t>(static_cast<int64_t>(d));
            MC_REQUIRE(ctx, convertUInt64ToSize(value) == value, "size-conversion", value, " becomes ", convertUInt64ToSize(value));
            ctx.cases();
        }
    }
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
            {
                    {"operations", operations, 2},
                    {"operations of widths", operationsOfWidths, 2},
                    {"expressions", expressionsOfFamilies, 2},
                    {"expressions of widths", expressionsOfWidths, 2},
                    {"sequences", sequences, 2},
                    {"limits", limits, 1},
            });
}
