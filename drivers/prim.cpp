// Driver for the C++ runtime primitives: bit streams, floats, bit buffers.
#include <cstring>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "zserio/BitBuffer.h"
#include "zserio/BitFieldUtil.h"
#include "zserio/BitPositionUtil.h"
#include "zserio/BitSizeOfCalculator.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/FloatUtil.h"

using namespace zserio;
typedef std::vector<std::string> Strs;

static Strs split(const std::string& s, char sep)
{
    Strs out;
    std::string cur;
    for (char c : s)
    {
        if (c == sep)
        {
            out.push_back(cur);
            cur.clear();
        }
        else
            cur += c;
    }
    out.push_back(cur);
    return out;
}

static std::vector<uint8_t> unhex(const std::string& s)
{
    std::vector<uint8_t> out;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        out.push_back(static_cast<uint8_t>(std::stoul(s.substr(i, 2), nullptr, 16)));
    return out;
}

template <typename T>
static std::string hex(const T* d, size_t n)
{
    static const char* H = "0123456789abcdef";
    std::string out;
    for (size_t i = 0; i < n; ++i)
    {
        uint8_t b = static_cast<uint8_t>(d[i]);
        out += H[b >> 4];
        out += H[b & 15];
    }
    return out;
}

static std::string num(uint64_t v, int digits)
{
    char b[32];
    snprintf(b, sizeof(b), "%0*llx", digits, static_cast<unsigned long long>(v));
    return b;
}

static int64_t toS(const std::string& s) { return std::stoll(s); }
static uint64_t toU(const std::string& s) { return std::stoull(s); }

static uint32_t bitsOf(float f) { uint32_t r; memcpy(&r, &f, 4); return r; }
static uint64_t bitsOf(double f) { uint64_t r; memcpy(&r, &f, 8); return r; }
static float f32Of(uint32_t b) { float r; memcpy(&r, &b, 4); return r; }
static double f64Of(uint64_t b) { double r; memcpy(&r, &b, 8); return r; }

static void writeOp(BitStreamWriter& w, const Strs& o)
{
    const std::string& k = o[0];
    if (k == "u")
    {
        int n = std::stoi(o[1]);
        uint64_t v = toU(o[2]);
        // both functions have to do the same
        if (n >= 0 && n <= 32 && v <= UINT32_MAX)
            w.writeBits(static_cast<uint32_t>(v), static_cast<uint8_t>(n));
        else
            w.writeBits64(v, static_cast<uint8_t>(n));
    }
    else if (k == "U")
        w.writeBits64(toU(o[2]), static_cast<uint8_t>(std::stoi(o[1])));
    else if (k == "s")
    {
        int n = std::stoi(o[1]);
        int64_t v = toS(o[2]);
        if (n >= 0 && n <= 32 && v <= INT32_MAX && v >= INT32_MIN)
            w.writeSignedBits(static_cast<int32_t>(v), static_cast<uint8_t>(n));
        else
            w.writeSignedBits64(v, static_cast<uint8_t>(n));
    }
    else if (k == "S")
        w.writeSignedBits64(toS(o[2]), static_cast<uint8_t>(std::stoi(o[1])));
    else if (k == "vi16") w.writeVarInt16(static_cast<int16_t>(toS(o[1])));
    else if (k == "vi32") w.writeVarInt32(static_cast<int32_t>(toS(o[1])));
    else if (k == "vi64") w.writeVarInt64(toS(o[1]));
    else if (k == "vi") w.writeVarInt(toS(o[1]));
    else if (k == "vu16") w.writeVarUInt16(static_cast<uint16_t>(toU(o[1])));
    else if (k == "vu32") w.writeVarUInt32(static_cast<uint32_t>(toU(o[1])));
    else if (k == "vu64") w.writeVarUInt64(toU(o[1]));
    else if (k == "vu") w.writeVarUInt(toU(o[1]));
    else if (k == "vs") w.writeVarSize(static_cast<uint32_t>(toU(o[1])));
    else if (k == "f16") w.writeFloat16(f32Of(static_cast<uint32_t>(std::stoull(o[1], nullptr, 16))));
    else if (k == "f32") w.writeFloat32(f32Of(static_cast<uint32_t>(std::stoull(o[1], nullptr, 16))));
    else if (k == "f64") w.writeFloat64(f64Of(std::stoull(o[1], nullptr, 16)));
    else if (k == "str")
    {
        auto b = unhex(o[1]);
        w.writeString(StringView(reinterpret_cast<const char*>(b.data()), b.size()));
    }
    else if (k == "by") w.writeBytes(unhex(o[1]));
    else if (k == "bb")
    {
        auto b = unhex(o[2]);
        w.writeBitBuffer(BitBuffer(b, toU(o[1])));
    }
    else if (k == "b") w.writeBool(o[1] == "1");
    else if (k == "al") w.alignTo(toU(o[1]));
    else if (k == "sp") w.setBitPosition(toU(o[1]));
    else
        throw std::logic_error("op " + k);
}

static std::string readOp(BitStreamReader& r, const Strs& o)
{
    const std::string& k = o[0];
    if (k == "u")
    {
        int n = std::stoi(o[1]);
        return std::to_string(n <= 32 ? r.readBits(static_cast<uint8_t>(n)) : r.readBits64(static_cast<uint8_t>(n)));
    }
    if (k == "U") return std::to_string(r.readBits64(static_cast<uint8_t>(std::stoi(o[1]))));
    if (k == "s")
    {
        int n = std::stoi(o[1]);
        return std::to_string(n <= 32 ? r.readSignedBits(static_cast<uint8_t>(n)) :
                r.readSignedBits64(static_cast<uint8_t>(n)));
    }
    if (k == "S") return std::to_string(r.readSignedBits64(static_cast<uint8_t>(std::stoi(o[1]))));
    if (k == "vi16") return std::to_string(r.readVarInt16());
    if (k == "vi32") return std::to_string(r.readVarInt32());
    if (k == "vi64") return std::to_string(r.readVarInt64());
    if (k == "vi") return std::to_string(r.readVarInt());
    if (k == "vu16") return std::to_string(r.readVarUInt16());
    if (k == "vu32") return std::to_string(r.readVarUInt32());
    if (k == "vu64") return std::to_string(r.readVarUInt64());
    if (k == "vu") return std::to_string(r.readVarUInt());
    if (k == "vs") return std::to_string(r.readVarSize());
    if (k == "f16") return num(bitsOf(static_cast<float>(r.readFloat16())), 8);
    if (k == "f32") return num(bitsOf(r.readFloat32()), 8);
    if (k == "f64") return num(bitsOf(r.readFloat64()), 16);
    if (k == "str")
    {
        auto s = r.readString();
        return "x" + hex(s.data(), s.size());
    }
    if (k == "by")
    {
        auto s = r.readBytes();
        return "x" + hex(s.data(), s.size());
    }
    if (k == "bb")
    {
        auto s = r.readBitBuffer();
        return std::to_string(s.getBitSize()) + "x" + hex(s.getBuffer(), s.getByteSize());
    }
    if (k == "b") return r.readBool() ? "1" : "0";
    if (k == "al")
    {
        r.alignTo(toU(o[1]));
        return "";
    }
    if (k == "sp")
    {
        r.setBitPosition(toU(o[1]));
        return "";
    }
    throw std::logic_error("op " + k);
}

static std::string sizeOp(const Strs& o)
{
    const std::string& k = o[0];
    if (k == "vi16") return std::to_string(bitSizeOfVarInt16(static_cast<int16_t>(toS(o[1]))));
    if (k == "vi32") return std::to_string(bitSizeOfVarInt32(static_cast<int32_t>(toS(o[1]))));
    if (k == "vi64") return std::to_string(bitSizeOfVarInt64(toS(o[1])));
    if (k == "vi") return std::to_string(bitSizeOfVarInt(toS(o[1])));
    if (k == "vu16") return std::to_string(bitSizeOfVarUInt16(static_cast<uint16_t>(toU(o[1]))));
    if (k == "vu32") return std::to_string(bitSizeOfVarUInt32(static_cast<uint32_t>(toU(o[1]))));
    if (k == "vu64") return std::to_string(bitSizeOfVarUInt64(toU(o[1])));
    if (k == "vu") return std::to_string(bitSizeOfVarUInt(toU(o[1])));
    if (k == "vs") return std::to_string(bitSizeOfVarSize(static_cast<uint32_t>(toU(o[1]))));
    if (k == "str")
    {
        auto b = unhex(o[1]);
        return std::to_string(bitSizeOfString(StringView(reinterpret_cast<const char*>(b.data()), b.size())));
    }
    if (k == "by") return std::to_string(bitSizeOfBytes(unhex(o[1])));
    if (k == "bb") return std::to_string(bitSizeOfBitBuffer(BitBuffer(unhex(o[2]), toU(o[1]))));
    if (k == "al") return std::to_string(alignTo(toU(o[1]), toU(o[2])));
    throw std::logic_error("size op " + k);
}

static std::string exec(const Strs& a)
{
    std::string out;
    if (a[0] == "W")
    {
        // initial buffer content, number of bits, operations; guard bytes behind the buffer are checked by ASan
        auto init = unhex(a[1]);
        std::unique_ptr<uint8_t[]> buf(new uint8_t[init.size()]);
        std::copy(init.begin(), init.end(), buf.get());
        BitStreamWriter w(Span<uint8_t>(buf.get(), init.size()), toU(a[2]));
        std::string err;
        for (size_t i = 3; i < a.size(); ++i)
        {
            try
            {
                writeOp(w, split(a[i], ':'));
                out += std::to_string(w.getBitPosition()) + ",";
            }
            catch (const CppRuntimeException&)
            {
                err = "E" + std::to_string(i - 3) + "|" + std::to_string(w.getBitPosition());
                break;
            }
        }
        // a writer without a buffer only counts
        if (err.empty())
        {
            BitStreamWriter c(nullptr, 0);
            for (size_t i = 3; i < a.size(); ++i)
                writeOp(c, split(a[i], ':'));
            if (c.getBitPosition() != w.getBitPosition())
                return "NOBUF|" + std::to_string(c.getBitPosition());
        }
        return (err.empty() ? std::string("OK") : err) + "|" + out + "|" + hex(buf.get(), init.size());
    }
    if (a[0] == "R")
    {
        auto init = unhex(a[1]);
        std::unique_ptr<uint8_t[]> buf(new uint8_t[init.size()]);
        std::copy(init.begin(), init.end(), buf.get());
        size_t nbits = toU(a[2]);
        std::unique_ptr<BitStreamReader> r;
        BitBuffer bb;
        if (a[3] == "0")
            r.reset(new BitStreamReader(Span<const uint8_t>(buf.get(), init.size()), nbits));
        else if (a[3] == "1")
        {
            bb = BitBuffer(Span<const uint8_t>(buf.get(), init.size()), nbits);
            r.reset(new BitStreamReader(bb));
        }
        else
            r.reset(new BitStreamReader(buf.get(), nbits, BitsTag()));
        for (size_t i = 4; i < a.size(); ++i)
        {
            try
            {
                out += readOp(*r, split(a[i], ':')) + "@" + std::to_string(r->getBitPosition()) + ",";
            }
            catch (const CppRuntimeException&)
            {
                return "E" + std::to_string(i - 4) + "|" + out;
            }
        }
        return "OK|" + out;
    }
    if (a[0] == "Z")
    {
        try
        {
            return "OK|" + sizeOp(split(a[1], ':'));
        }
        catch (const CppRuntimeException&)
        {
            return "E";
        }
    }
    if (a[0] == "H16")      // range of half floats
    {
        for (uint64_t i = toU(a[1]); i < toU(a[2]); ++i)
        {
            float f = convertUInt16ToFloat(static_cast<uint16_t>(i));
            out += num(bitsOf(f), 8) + num(convertFloatToUInt16(f), 4);
        }
        return "OK|" + out;
    }
    if (a[0] == "F")        // single floats to half, single
    {
        for (size_t i = 1; i < a.size(); ++i)
        {
            float f = f32Of(static_cast<uint32_t>(std::stoull(a[i], nullptr, 16)));
            out += num(convertFloatToUInt16(f), 4) + num(convertFloatToUInt32(f), 8) +
                    num(bitsOf(convertUInt32ToFloat(convertFloatToUInt32(f))), 8) + ",";
        }
        return "OK|" + out;
    }
    if (a[0] == "D")
    {
        for (size_t i = 1; i < a.size(); ++i)
        {
            double f = f64Of(std::stoull(a[i], nullptr, 16));
            out += num(convertDoubleToUInt64(f), 16) + num(bitsOf(convertUInt64ToDouble(convertDoubleToUInt64(f))), 16) +
                    ",";
        }
        return "OK|" + out;
    }
    if (a[0] == "Q")        // bit buffers
    {
        std::vector<BitBuffer> bs;
        for (size_t i = 1; i + 1 < a.size(); i += 2)
        {
            auto b = unhex(a[i + 1]);
            try
            {
                switch (i % 3)
                {
                case 0: bs.push_back(BitBuffer(Span<const uint8_t>(b), toU(a[i]))); break;
                case 1: bs.push_back(BitBuffer(std::move(b), toU(a[i]))); break;
                default: bs.push_back(BitBuffer(BitBuffer(b, toU(a[i])), std::allocator<uint8_t>()));
                }
            }
            catch (const CppRuntimeException&)
            {
                return "E" + std::to_string(i / 2);
            }
        }
        std::string eq, hs, lt, data;
        for (auto& x : bs)
        {
            for (auto& y : bs)
            {
                eq += (x == y) ? '1' : '0';
                hs += (x.hashCode() == y.hashCode()) ? '1' : '0';
                lt += (x < y) ? '1' : '0';
            }
            data += std::to_string(x.getBitSize()) + ":" + std::to_string(x.getByteSize()) + ":" +
                    hex(x.getBuffer(), x.getByteSize()) + ",";
        }
        return "OK|" + eq + "|" + hs + "|" + data + "|" + lt;
    }
    return "?";
}

int main()
{
    std::string line;
    while (std::getline(std::cin, line))
    {
        std::string r;
        try
        {
            r = exec(split(line, '\t'));
        }
        catch (const CppRuntimeException& e)
        {
            r = std::string("ERR|") + e.what();
        }
        catch (const std::exception& e)
        {
            r = std::string("EXC|") + e.what();
        }
        std::cout << r << std::endl;
    }
    return 0;
}
