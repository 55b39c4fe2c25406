// Instantiates the array kinds of one group (KIT_GROUP).
#include "arraykit.h"

namespace kit
{

using namespace zserio;

template <int GROUP>
std::vector<AnyKind*> groupKinds();

#if KIT_GROUP == 0
template <>
std::vector<AnyKind*> groupKinds<0>()
{
    return {
            erase(boolKind()),
            erase(intKind<UInt33>("UInt33", {0, 1, 1ULL << 32, (1ULL << 33) - 2, (1ULL << 33) - 1}, 33)),
            erase(intKind<Int37>("Int37", {0, 1, -1, (1LL << 36) - 1, -(1LL << 36)}, 37)),
            erase(varKind<VarUInt16>("VarUInt16", {0, 127, 128, 32767}, 2)),
            erase(enumKind()),
            erase(floatKind<Float64>("Float64", {Float64(0.0), Float64(-1.0), Float64(1e300)}, [](Bits& b, const Float64& v) { b.putFloat64(v); })),
    };
}
#endif
#if KIT_GROUP == 1
template <>
std::vector<AnyKind*> groupKinds<1>()
{
    return {
            erase(intKind<UInt1>("UInt1", {0, 1}, 1)),
            erase(intKind<UInt63>("UInt63", {0, 1, 1ULL << 61, 1ULL << 62, (1ULL << 63) - 1}, 63)),
            erase(intKind<Int62>("Int62", {0, 1, -1, (1LL << 61) - 1, -(1LL << 61)}, 62)),
            erase(varKind<VarUInt32>("VarUInt32", {0, 127, 16384, (1U << 29) - 1}, 4)),
            erase(bitmaskKind()),
            erase(rawKind<String>("String", {String(""), String("a"), String("bcd")}, [](Bits& b, const String& v) { b.putString(std::string(v.data(), v.size())); })),
    };
}
#endif
#if KIT_GROUP == 2
template <>
std::vector<AnyKind*> groupKinds<2>()
{
    return {
            erase(intKind<UInt5>("UInt5", {0, 1, 2, 30, 31}, 5)),
            erase(intKind<UInt64>("UInt64", {0, 1, (1ULL << 62) - 1, 1ULL << 62, 1ULL << 63, UINT64_MAX}, 64)),
            erase(intKind<Int63>("Int63", {0, 1, -1, (1LL << 62) - 1, -(1LL << 62)}, 63)),
            erase(varKind<VarUInt64>("VarUInt64", {0, 127, 128, (1ULL << 57) - 1}, 8)),
            erase(innerKind()),
            erase(bytesKind()),
    };
}
#endif
#if KIT_GROUP == 3
template <>
std::vector<AnyKind*> groupKinds<3>()
{
    return {
            erase(intKind<UInt8>("UInt8", {0, 1, 127, 128, 255}, 8)),
            erase(intKind<Int1>("Int1", {0, -1}, 1)),
            erase(intKind<Int64>("Int64", {0, 1, -1, (1LL << 61), INT64_MAX, INT64_MIN}, 64)),
            erase(varKind<VarUInt>("VarUInt", {0, 1, 1ULL << 62, UINT64_MAX}, 9)),
            erase(outerKind()),
            erase(bitBufferKind()),
    };
}
#endif
#if KIT_GROUP == 4
template <>
std::vector<AnyKind*> groupKinds<4>()
{
    return {
            erase(intKind<UInt13>("UInt13", {0, 4096, 4097, 8190, 8191}, 13)),
            erase(intKind<Int5>("Int5", {0, 1, -1, 15, -16}, 5)),
            erase(varKind<VarInt16>("VarInt16", {0, 63, -64, 16383, -16383}, 2)),
            erase(varKind<VarSize>("VarSize", {0, 127, 128, (1U << 31) - 1}, 5)),
            erase(offsKind()),
    };
}
#endif
#if KIT_GROUP == 5
template <>
std::vector<AnyKind*> groupKinds<5>()
{
    return {
            erase(intKind<UInt16>("UInt16", {0, 1, 32768, 65534, 65535}, 16)),
            erase(intKind<Int8>("Int8", {0, 1, -1, 127, -128}, 8)),
            erase(varKind<VarInt32>("VarInt32", {0, 63, -64, (1 << 28) - 1, -((1 << 28) - 1)}, 4)),
            erase(dynKind<DynUInt16>("DynUInt16", {0, 1, 1024, 2047})),
            erase(plainKind()),
    };
}
#endif
#if KIT_GROUP == 6
template <>
std::vector<AnyKind*> groupKinds<6>()
{
    return {
            erase(intKind<UInt31>("UInt31", {0, 1, 1U << 30, (1U << 31) - 2, (1U << 31) - 1}, 31)),
            erase(intKind<Int16>("Int16", {0, 1, -1, 32767, -32768}, 16)),
            erase(varKind<VarInt64>("VarInt64", {0, 1, -64, (1LL << 56) - 1, -((1LL << 56) - 1)}, 8)),
            erase(dynKind<DynInt16>("DynInt16", {0, -1, 1023, -1024})),
            erase(floatKind<Float16>("Float16", {Float16(0.0f), Float16(1.0f), Float16(-2.5f)}, [](Bits& b, const Float16& v) { b.put(halfBits(v), 16); })),
    };
}
#endif
#if KIT_GROUP == 7
template <>
std::vector<AnyKind*> groupKinds<7>()
{
    return {
            erase(intKind<UInt32>("UInt32", {0, 1, 1U << 31, UINT32_MAX - 1, UINT32_MAX}, 32)),
            erase(intKind<Int32>("Int32", {0, 1, -1, INT32_MAX, INT32_MIN}, 32)),
            erase(varKind<VarInt>("VarInt", {0, 1, -1, INT64_MAX, INT64_MIN}, 9)),
            erase(dynKind<DynInt64>("DynInt64", {0, -1, 1023, -1024})),
            erase(floatKind<Float32>("Float32", {Float32(0.0f), Float32(-0.0f), Float32(3.4e38f)}, [](Bits& b, const Float32& v) { b.putFloat32(v); })),
    };
}
#endif

#if KIT_GROUP == 0
template <>
std::vector<AnyKind*> groupKinds<1>();
template <>
std::vector<AnyKind*> groupKinds<2>();
template <>
std::vector<AnyKind*> groupKinds<3>();
template <>
std::vector<AnyKind*> groupKinds<4>();
template <>
std::vector<AnyKind*> groupKinds<5>();
template <>
std::vector<AnyKind*> groupKinds<6>();
template <>
std::vector<AnyKind*> groupKinds<7>();

const std::vector<AnyKind*>& kinds()
{
    static const std::vector<AnyKind*> list = [] {
        std::vector<AnyKind*> all;
        for (const auto& group : {groupKinds<0>(), groupKinds<1>(), groupKinds<2>(), groupKinds<3>(),
                     groupKinds<4>(), groupKinds<5>(), groupKinds<6>(), groupKinds<7>()})
        {
            all.insert(all.end(), group.begin(), group.end());
        }
        return all;
    }();
    return list;
}
#endif

} // namespace kit
