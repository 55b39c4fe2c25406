// C12: floating point conversions, every 16-bit and every 32-bit pattern.
// mc: level=model_checking opt=2
#include <cmath>
#include <cstring>

#include "mc.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/FloatUtil.h"

using mc::Ctx;
using mc::str;
using namespace zserio;

namespace
{

double pow2(int e)
{
    double r = 1.0;
    for (; e > 0; --e)
    {
        r *= 2.0;
    }
    for (; e < 0; ++e)
    {
        r *= 0.5;
    }
    return r;
}

// quantum[e]: distance of neighbouring 16-bit numbers at the 32-bit exponent field e
struct Tables
{
    double quantumInverse[256];
    double decoded[0x7c00]; // value of each finite non-negative 16-bit pattern
    Tables()
    {
        for (int e = 0; e < 256; ++e)
        {
            const int exponent = e - 127;
            quantumInverse[e] = pow2(exponent < -14 ? 24 : 10 - exponent);
        }
        for (int p = 0; p < 0x7c00; ++p)
        {
            const int e = p >> 10, f = p & 0x3ff;
            decoded[p] = e == 0 ? f * pow2(-24) : (1024 + f) * pow2(e - 25);
        }
    }
};

const Tables& tables()
{
    static const Tables t;
    return t;
}

// nearest 16-bit number, halves away from zero except for the half of the least number, which becomes zero
uint16_t narrow(uint32_t bits)
{
    const uint16_t sign = static_cast<uint16_t>((bits >> 16) & 0x8000);
    const uint32_t magnitude = bits & 0x7fffffff;
    if (magnitude == 0x7f800000)
    {
        return sign | 0x7c00;
    }
    const int e = static_cast<int>(magnitude >> 23);
    float f;
    std::memcpy(&f, &magnitude, 4);
    const double ratio = static_cast<double>(f) * tables().quantumInverse[e];
    if (e - 127 > 16)
    {
        return sign | 0x7c00;
    }
    const uint32_t n = ratio == 0.5 ? 0 : static_cast<uint32_t>(ratio + 0.5);
    const uint32_t pattern = e - 127 < -14 ? n : (static_cast<uint32_t>(e - 127 + 14) << 10) + n;
    return static_cast<uint16_t>(sign | (pattern >= 0x7c00 ? 0x7c00 : pattern));
}

void allFloats(Ctx& ctx)
{
    const uint32_t top = ctx.choose(4096);
    uint64_t outcome = 0;
    for (uint32_t low = 0; low < (1U << 20); ++low)
    {
        const uint32_t bits = (top << 20) | low;
        const float f = convertUInt32ToFloat(bits);
        if (convertFloatToUInt32(f) != bits)
        {
            ctx.fail("float32", str("pattern ", bits, " is changed by the round trip"));
        }
        const uint16_t half = convertFloatToUInt16(f);
        if ((bits & 0x7fffffff) > 0x7f800000)
        {
            if ((half & 0x7c00) != 0x7c00 || (half & 0x3ff) == 0 || (half & 0x8000) != ((bits >> 16) & 0x8000))
            {
                ctx.fail("nan", str("NaN ", mc::hex(&bits, 4), " is converted to ", half));
            }
        }
        else if (half != narrow(bits))
        {
            ctx.fail("narrow", str("float ", static_cast<double>(f), " (", bits, ") is converted to ", half, " instead of ", narrow(bits)));
        }
        outcome = outcome * 31 + half;
    }
    ctx.cases(1U << 20);
    ctx.step(1U << 20);
    ctx.state(Ctx::mix(outcome, top));
    ctx.sample(str("all floats with high bits ", top));
}

void allHalves(Ctx& ctx)
{
    const uint32_t top = ctx.choose(256);
    for (uint32_t low = 0; low < 256; ++low)
    {
        const uint16_t bits = static_cast<uint16_t>(top << 8 | low);
        ctx.note(str("16-bit pattern ", bits));
        const float f = convertUInt16ToFloat(bits);
        const uint16_t magnitude = bits & 0x7fff;
        const bool negative = (bits & 0x8000) != 0;
        MC_REQUIRE(ctx, std::signbit(f) == negative, "sign", "sign of ", bits);
        if (magnitude < 0x7c00)
        {
            MC_REQUIRE(ctx, std::fabs(static_cast<double>(f)) == tables().decoded[magnitude], "widen", bits, " decodes to ", f);
        }
        else if (magnitude == 0x7c00)
        {
            MC_REQUIRE(ctx, std::isinf(f), "widen-inf", bits, " decodes to ", f);
        }
        else
        {
            MC_REQUIRE(ctx, std::isnan(f), "widen-nan", bits, " decodes to ", f);
        }
        const uint16_t back = convertFloatToUInt16(f);
        MC_REQUIRE(ctx, back == bits || (magnitude > 0x7c00 && (back & 0x7fff) > 0x7c00), "identity", bits, " comes back as ", back);
        // through streams, at bit positions that are and are not aligned
        for (size_t offset : {0, 3})
        {
            BasicBitBuffer<std::allocator<uint8_t>> buffer(offset + 16);
            BitStreamWriter writer(buffer);
            if (offset != 0)
            {
                writer.writeUnsignedBits32(0, static_cast<uint8_t>(offset));
            }
            writer.writeFloat16(f);
            BitStreamReader reader(buffer);
            reader.setBitPosition(offset);
            const float g = reader.readFloat16();
            const uint32_t a = convertFloatToUInt32(f), b = convertFloatToUInt32(g);
            MC_REQUIRE(ctx, a == b || (std::isnan(f) && std::isnan(g)), "stream", bits, " is read as ", g);
        }
        ctx.cases();
        ctx.step();
    }
    ctx.state(top + 1);
}

void wide(Ctx& ctx)
{
    // sign and exponent field exhaustively, significands with up to two bits set or cleared
    const uint64_t head = ctx.choose(4096);
    for (int a = -1; a < 52; ++a)
    {
        for (int b = a; b < 52; ++b)
        {
            uint64_t s = 0;
            s |= a < 0 ? 0 : uint64_t(1) << a;
            s |= b < 0 ? 0 : uint64_t(1) << b;
            for (uint64_t significand : {s, uint64_t(~s & 0xfffffffffffffULL)})
            {
                const uint64_t bits = head << 52 | significand;
                const double d = convertUInt64ToDouble(bits);
                MC_REQUIRE(ctx, convertDoubleToUInt64(d) == bits, "float64", "pattern ", bits, " is changed");
                const int e = static_cast<int>(head & 0x7ff);
                if (e == 0x7ff)
                {
                    MC_REQUIRE(ctx, significand == 0 ? std::isinf(d) : std::isnan(d), "float64-special", "pattern ", bits);
                }
                else
                {
                    const double expected = std::ldexp(static_cast<double>(significand | (e ? 1ULL << 52 : 0)), (e ? e : 1) - 1075);
                    MC_REQUIRE(ctx, std::fabs(d) == expected && std::signbit(d) == ((head >> 11) != 0), "float64-value", "pattern ", bits, " is ", d);
                }
                ctx.cases();
            }
        }
    }
    ctx.step();
    ctx.state(head + 10000);
    // bit patterns of 32 bits mean what IEEE 754 says
    if (head < 512)
    {
        for (int a = -1; a < 23; ++a)
        {
            for (int b = a; b < 23; ++b)
            {
                const uint32_t significand = (a < 0 ? 0 : 1U << a) | (b < 0 ? 0 : 1U << b);
                const uint32_t bits = static_cast<uint32_t>(head) << 23 | significand;
                const float f = convertUInt32ToFloat(bits);
                const int e = static_cast<int>(head & 0xff);
                if (e == 0xff)
                {
                    MC_REQUIRE(ctx, significand == 0 ? std::isinf(f) : std::isnan(f), "float32-special", "pattern ", bits);
                }
                else
                {
                    const double expected = std::ldexp(static_cast<double>(significand | (e ? 1U << 23 : 0)), (e ? e : 1) - 150);
                    MC_REQUIRE(ctx, std::fabs(static_cast<double>(f)) == expected && std::signbit(f) == ((head >> 8) != 0), "float32-value", "pattern ", bits, " is ", f);
                }
                ctx.cases();
            }
        }
    }
}

} // namespace

int main(int argc, char** argv)
{
    return mc::run(argc, argv, {{"every-float16", allHalves, 1}, {"every-float32", allFloats, 1}, {"float64", wide, 1}});
}
