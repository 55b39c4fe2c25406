// Reference model of a zserio bit stream: a plain vector of bits with most significant bit first, and the wire
// encodings written from the format description, independent of the runtime's code.
#ifndef VERIF_BITMODEL_H
#define VERIF_BITMODEL_H

#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace bm
{

struct Bits
{
    std::vector<uint8_t> bits; // one element per bit
    size_t pos = 0;

    Bits() = default;
    explicit Bits(size_t n, uint8_t fill = 0) : bits(n, fill) {}

    static Bits fromBytes(const uint8_t* data, size_t bitSize)
    {
        Bits b(bitSize);
        for (size_t i = 0; i < bitSize; ++i)
        {
            b.bits[i] = (data[i / 8] >> (7 - i % 8)) & 1;
        }
        return b;
    }
    std::vector<uint8_t> bytes() const
    {
        std::vector<uint8_t> out((bits.size() + 7) / 8, 0);
        for (size_t i = 0; i < bits.size(); ++i)
        {
            if (bits[i])
            {
                out[i / 8] = static_cast<uint8_t>(out[i / 8] | (0x80 >> (i % 8)));
            }
        }
        return out;
    }
    void putBit(bool bit)
    {
        if (pos >= bits.size())
        {
            bits.resize(pos + 1, 0);
        }
        bits[pos++] = bit ? 1 : 0;
    }
    // two's complement value, n bits, most significant first
    void put(uint64_t value, unsigned n)
    {
        for (unsigned i = n; i > 0; --i)
        {
            putBit(i > 64 ? false : ((value >> (i - 1)) & 1) != 0);
        }
    }
    void putBytes(const void* data, size_t size)
    {
        for (size_t i = 0; i < size; ++i)
        {
            put(static_cast<const uint8_t*>(data)[i], 8);
        }
    }
    void alignTo(size_t alignment)
    {
        while (pos % alignment != 0)
        {
            putBit(false);
        }
    }
    bool canGet(size_t n) const { return pos + n <= bits.size(); }
    uint64_t get(unsigned n)
    {
        uint64_t v = 0;
        for (unsigned i = 0; i < n; ++i)
        {
            v = (v << 1) | bits[pos++];
        }
        return v;
    }
    int64_t getSigned(unsigned n)
    {
        const uint64_t v = get(n);
        if (n < 64 && n > 0 && ((v >> (n - 1)) & 1))
        {
            return static_cast<int64_t>(v | (~uint64_t(0) << n));
        }
        return static_cast<int64_t>(v);
    }

    // variable length numbers: maxBytes bytes at most, the last possible byte carries 8 bits
    static unsigned varLen(uint64_t magnitude, bool hasSign, unsigned maxBytes)
    {
        for (unsigned n = 1; n < maxBytes; ++n)
        {
            const unsigned payload = (hasSign ? 6 : 7) + 7 * (n - 1);
            if (magnitude >> payload == 0)
            {
                return n;
            }
        }
        return maxBytes;
    }
    void putVar(uint64_t magnitude, bool negative, bool hasSign, unsigned maxBytes)
    {
        putVarLen(magnitude, negative, hasSign, maxBytes, varLen(magnitude, hasSign, maxBytes));
    }
    // encodes with exactly len bytes (over-long forms included)
    void putVarLen(uint64_t magnitude, bool negative, bool hasSign, unsigned maxBytes, unsigned len)
    {
        // payload bits per byte
        std::vector<unsigned> widths;
        for (unsigned i = 0; i < len; ++i)
        {
            unsigned width = 8;
            if (i == 0 && hasSign)
            {
                --width;
            }
            if (i + 1 < maxBytes)
            {
                --width; // continuation flag
            }
            widths.push_back(width);
        }
        unsigned total = 0;
        for (unsigned w : widths)
        {
            total += w;
        }
        unsigned left = total;
        for (unsigned i = 0; i < len; ++i)
        {
            if (i == 0 && hasSign)
            {
                putBit(negative);
            }
            if (i + 1 < maxBytes)
            {
                putBit(i + 1 < len);
            }
            for (unsigned b = 0; b < widths[i]; ++b)
            {
                --left;
                putBit(left >= 64 ? false : ((magnitude >> left) & 1) != 0);
            }
        }
    }
    void putSignedVar(int64_t value, unsigned maxBytes)
    {
        if (maxBytes == 9 && value == INT64_MIN)
        {
            put(0x80, 8); // negative zero stands for the minimum
            return;
        }
        const bool neg = value < 0;
        const uint64_t mag = neg ? uint64_t(0) - static_cast<uint64_t>(value) : static_cast<uint64_t>(value);
        putVar(mag, neg, true, maxBytes);
    }
    void putVarInt16(int64_t v) { putSignedVar(v, 2); }
    void putVarInt32(int64_t v) { putSignedVar(v, 4); }
    void putVarInt64(int64_t v) { putSignedVar(v, 8); }
    void putVarInt(int64_t v) { putSignedVar(v, 9); }
    void putVarUInt16(uint64_t v) { putVar(v, false, false, 2); }
    void putVarUInt32(uint64_t v) { putVar(v, false, false, 4); }
    void putVarUInt64(uint64_t v) { putVar(v, false, false, 8); }
    void putVarUInt(uint64_t v) { putVar(v, false, false, 9); }
    void putVarSize(uint64_t v) { putVar(v, false, false, 5); }
    void putFloat32(float f)
    {
        uint32_t u;
        std::memcpy(&u, &f, 4);
        put(u, 32);
    }
    void putFloat64(double d)
    {
        uint64_t u;
        std::memcpy(&u, &d, 8);
        put(u, 64);
    }
    void putString(const std::string& s)
    {
        putVarSize(s.size());
        putBytes(s.data(), s.size());
    }
    void putBitBuffer(const std::vector<uint8_t>& data, size_t bitSize)
    {
        putVarSize(bitSize);
        for (size_t i = 0; i < bitSize; ++i)
        {
            putBit(((data[i / 8] >> (7 - i % 8)) & 1) != 0);
        }
    }

    // decoding; returns false when the input ends
    bool getVar(bool hasSign, unsigned maxBytes, uint64_t& magnitude, bool& negative)
    {
        // 128-bit accumulator is not needed: at most 64 payload bits fit every type except over-long 5 byte sizes
        unsigned __int128 acc = 0;
        negative = false;
        for (unsigned i = 0; i < maxBytes; ++i)
        {
            if (!canGet(8))
            {
                return false;
            }
            unsigned width = 8;
            bool more = false;
            if (i == 0 && hasSign)
            {
                negative = get(1) != 0;
                --width;
            }
            if (i + 1 < maxBytes)
            {
                more = get(1) != 0;
                --width;
            }
            acc = (acc << width) | get(width);
            if (!more)
            {
                break;
            }
        }
        magnitude = static_cast<uint64_t>(acc);
        return true;
    }
};

inline uint64_t maskOf(unsigned n)
{
    return n >= 64 ? ~uint64_t(0) : ((uint64_t(1) << n) - 1);
}

} // namespace bm

#endif
