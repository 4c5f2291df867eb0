// Driver for generated C++ code: reads commands from stdin, writes one result line per command.
#ifndef DRV_HPP
#define DRV_HPP
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/Enums.h"
#include "zserio/SerializeUtil.h"

#ifdef DRV_THREADS
#include <atomic>
#include <thread>
#endif
#ifdef DRV_JSON
#include <sstream>
#include "zserio/DebugStringUtil.h"
#include "zserio/JsonWriter.h"
#include "zserio/Walker.h"
#endif

#if __has_include("zserio/pmr/PolymorphicAllocator.h")
#include "zserio/pmr/MemoryResource.h"
#endif

#ifdef DRV_PMR
// Polymorphic allocators: everything which belongs to an object must come from its own resource.
#include "zserio/pmr/PolymorphicAllocator.h"
#include "zserio/pmr/NewDeleteResource.h"
struct CountingResource : public zserio::pmr::MemoryResource
{
    size_t live = 0, allocs = 0;
    bool refuse = false;
    long failIn = 0; // number of the allocation which fails
    std::map<void*, size_t> blocks;
    void* doAllocate(size_t n, size_t al) override
    {
        if (refuse)
        {
            fprintf(stderr, "allocation of %zu bytes from the default resource\n", n);
            abort();
        }
        if (failIn > 0 && --failIn == 0) throw std::bad_alloc();
        void* p = zserio::pmr::getNewDeleteResource()->allocate(n, al);
        blocks[p] = n;
        live += n; allocs++;
        return p;
    }
    void doDeallocate(void* p, size_t n, size_t al) override
    {
        auto it = blocks.find(p);
        if (it == blocks.end() || it->second != n)
        {
            fprintf(stderr, "deallocation of %zu bytes which do not belong to this resource\n", n);
            abort();
        }
        blocks.erase(it);
        live -= n;
        zserio::pmr::getNewDeleteResource()->deallocate(p, n, al);
    }
    bool doIsEqual(const zserio::pmr::MemoryResource& o) const noexcept override { return this == &o; }
};
#endif

struct Tok
{
    std::vector<std::string> t;
    size_t i = 0;
    explicit Tok(const std::string& s)
    {
        size_t p = 0;
        while (p < s.size())
        {
            size_t e = s.find(' ', p);
            if (e == std::string::npos) e = s.size();
            if (e > p) t.push_back(s.substr(p, e - p));
            p = e + 1;
        }
    }
    const std::string& peek() { return t.at(i); }
    const std::string& next() { return t.at(i++); }
    void head()     // '{' Type '(' ... ')'
    {
        if (peek() == "{") next();
        next();
        if (peek() == "(")
        {
            while (next() != ")") {}
        }
    }
};

struct NotApplicable : std::runtime_error { using std::runtime_error::runtime_error; };

inline std::string hex(const uint8_t* p, size_t n)
{
    static const char* d = "0123456789abcdef";
    std::string s;
    for (size_t i = 0; i < n; ++i) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
    return s;
}
inline std::vector<uint8_t> unhex(const std::string& s)
{
    std::vector<uint8_t> v;
    for (size_t i = 0; i + 1 < s.size(); i += 2) v.push_back(static_cast<uint8_t>(std::stoi(s.substr(i, 2), nullptr, 16)));
    return v;
}

template <typename T> void build(Tok& t, T& o);

#ifdef DRV_PARSING
static bool parsingInfos = false;
template <typename T>
void parsingInfo(std::string& s, const T& o)
{
    if (parsingInfos)
        s += "@" + std::to_string(o.parsingInfo().getBitPosition()) + ":" + std::to_string(o.parsingInfo().getBitSize()) + " ";
}
#else
template <typename T> void parsingInfo(std::string&, const T&) {}
#endif
template <typename T> void dump(std::string& s, const T& o);
template <typename T> struct Funcs { static void run(std::string&, T&) {} };

// ---- parsing of one value

inline void parse(Tok& t, bool& v) { v = t.next() == "b1"; }
template <typename T>
typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type parseInt(const std::string& s, T& v)
{
    if (s[1] == '-')
    {
        if (!std::is_signed<T>::value) throw NotApplicable("range");
        __int128 x = -static_cast<__int128>(std::stoull(s.substr(2)));
        v = static_cast<T>(x);
        if (static_cast<__int128>(v) != x) throw NotApplicable("range");
    }
    else
    {
        if (s.size() > 21) throw NotApplicable("range");
        __int128 x = 0;
        for (size_t i = 1; i < s.size(); ++i) x = x * 10 + (s[i] - '0');
        v = static_cast<T>(x);
        if (static_cast<__int128>(v) != x) throw NotApplicable("range");
    }
}
template <typename T>
typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type parse(Tok& t, T& v)
{
    parseInt(t.next(), v);
}
template <typename T>
typename std::enable_if<std::is_floating_point<T>::value>::type parse(Tok& t, T& v)
{
    std::string s = t.next();
    if (s == "dnan") { v = static_cast<T>(NAN); return; }
    uint64_t b = std::stoull(s.substr(1), nullptr, 16);
    double d;
    memcpy(&d, &b, 8);
    v = static_cast<T>(d);
}
template <typename T>
typename std::enable_if<std::is_enum<T>::value>::type parse(Tok& t, T& v)
{
    typename std::underlying_type<T>::type u;
    parseInt(t.next(), u);
    v = static_cast<T>(u);
}
template <typename A>
void parse(Tok& t, std::basic_string<char, std::char_traits<char>, A>& v)
{
    auto b = unhex(t.next().substr(1));
    v.assign(b.begin(), b.end());
}
template <typename A>
void parse(Tok& t, zserio::BasicBitBuffer<A>& v)
{
    std::string s = t.next();
    size_t c = s.find(':');
    auto b = unhex(s.substr(c + 1));
    size_t n = std::stoul(s.substr(1, c - 1));
    v = zserio::BasicBitBuffer<A>(b.data(), n, v.get_allocator());
}
// bitmasks
template <typename T>
auto parse(Tok& t, T& v) -> typename std::enable_if<std::is_class<T>::value, decltype(typename T::underlying_type(), void())>::type
{
    typename T::underlying_type u;
    parseInt(t.next(), u);
    v = T(u);
}
template <typename T> struct IsVec : std::false_type {};
template <typename T, typename A> struct IsVec<std::vector<T, A>> : std::true_type {};
template <typename T, typename = void> struct IsMask : std::false_type {};
template <typename T> struct IsMask<T, decltype(typename T::underlying_type(), void())> : std::true_type {};
template <typename T> struct IsStr : std::false_type {};
template <typename A> struct IsStr<std::basic_string<char, std::char_traits<char>, A>> : std::true_type {};
template <typename T> struct IsBuf : std::false_type {};
template <typename A> struct IsBuf<zserio::BasicBitBuffer<A>> : std::true_type {};
template <typename T> struct IsComp
{
    static constexpr bool value = std::is_class<T>::value && !IsVec<T>::value && !IsMask<T>::value && !IsStr<T>::value &&
            !IsBuf<T>::value;
};
template <typename T>
typename std::enable_if<IsComp<T>::value>::type parse(Tok& t, T& v) { build(t, v); }
template <typename V> void assignBytes(V&, const std::vector<uint8_t>&) { throw std::logic_error("no bytes"); }
template <typename A> void assignBytes(std::vector<uint8_t, A>& v, const std::vector<uint8_t>& b) { v.assign(b.begin(), b.end()); }
template <typename T, typename A>
void parse(Tok& t, std::vector<T, A>& v)
{
    if (t.peek()[0] == 'y')
    {
        assignBytes(v, unhex(t.next().substr(1)));
        return;
    }
    if (t.next() != "[") throw std::logic_error("array expected");
    while (t.peek() != "]")
    {
        T e{};
        parse(t, e);
        v.push_back(std::move(e));
    }
    t.next();
}
template <typename A>
void parse(Tok& t, std::vector<bool, A>& v)
{
    if (t.next() != "[") throw std::logic_error("array expected");
    while (t.peek() != "]") { bool e; parse(t, e); v.push_back(e); }
    t.next();
}

// ---- output of one value

inline void put(std::string& s, bool v) { s += v ? "b1 " : "b0 "; }
template <typename T>
typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type put(std::string& s, T v)
{
    s += "i" + std::to_string(v) + " ";
}
template <typename T>
typename std::enable_if<std::is_floating_point<T>::value>::type put(std::string& s, T v)
{
    double d = v;
    if (d != d) { s += "dnan "; return; }
    uint64_t b;
    memcpy(&b, &d, 8);
    char x[32];
    snprintf(x, sizeof x, "d%016llx ", static_cast<unsigned long long>(b));
    s += x;
}
template <typename T>
typename std::enable_if<std::is_enum<T>::value>::type put(std::string& s, T v)
{
    s += "e" + std::to_string(static_cast<typename std::underlying_type<T>::type>(v)) + " ";
}
template <typename A>
void put(std::string& s, const std::basic_string<char, std::char_traits<char>, A>& v)
{
    s += "s" + hex(reinterpret_cast<const uint8_t*>(v.data()), v.size()) + " ";
}
inline void put(std::string& s, zserio::StringView v)
{
    s += "s" + hex(reinterpret_cast<const uint8_t*>(v.data()), v.size()) + " ";
}
template <typename A>
void put(std::string& s, const zserio::BasicBitBuffer<A>& v)
{
    size_t n = v.getBitSize();
    std::vector<uint8_t> b(v.getBuffer(), v.getBuffer() + (n + 7) / 8);
    if (n % 8) b.back() &= static_cast<uint8_t>(0xff00 >> (n % 8));
    s += "x" + std::to_string(n) + ":" + hex(b.data(), b.size()) + " ";
}
template <typename T>
typename std::enable_if<IsMask<T>::value && std::is_class<T>::value>::type put(std::string& s, const T& v)
{
    s += "m" + std::to_string(v.getValue()) + " ";
}
template <typename T>
typename std::enable_if<IsComp<T>::value && !std::is_same<T, zserio::StringView>::value>::type put(std::string& s, const T& v)
{
    dump(s, v);
    s += " ";
}
template <typename T, typename A>
void put(std::string& s, const std::vector<T, A>& v)
{
    s += "[ ";
    for (const auto& e : v) put(s, e);
    s += "] ";
}
template <typename A>
void put(std::string& s, const std::vector<bool, A>& v)
{
    s += "[ ";
    for (bool e : v) put(s, e);
    s += "] ";
}

// a 'bytes' value is a vector of uint8 like an array of uint8: the generated call is told by the descriptor
template <typename V>
void putBytes(std::string& s, const V& v) { s += "y" + hex(v.data(), v.size()) + " "; }
template <typename V>
void putBytesArray(std::string& s, const V& v)
{
    s += "[ ";
    for (const auto& e : v) putBytes(s, e);
    s += "] ";
}

// ---- optional members

template <typename T> auto initChildren(T& o, int) -> decltype(o.initializeChildren(), void()) { o.initializeChildren(); }
template <typename T> void initChildren(T&, long) {}
template <typename T> auto initOffsets(T& o, size_t p, int) -> decltype(o.initializeOffsets(p)) { return o.initializeOffsets(p); }
template <typename T> size_t initOffsets(T& o, size_t p, long) { return o.bitSizeOf(p); }

using Args = std::vector<std::string>;
using Fn = std::function<std::string(const Args&)>;
using Table = std::map<std::string, Fn>;

inline std::string bitsOf(const std::vector<uint8_t>& data, size_t pos, size_t end)
{
    std::vector<uint8_t> o((end - pos + 7) / 8);
    for (size_t i = pos; i < end; ++i)
        if (data[i / 8] >> (7 - i % 8) & 1) o[(i - pos) / 8] |= static_cast<uint8_t>(1 << (7 - (i - pos) % 8));
    return std::to_string(end - pos) + ":" + hex(o.data(), o.size());
}

// exact heap block, so that any access beyond is seen by the address sanitizer
struct Exact
{
    std::unique_ptr<uint8_t[]> p;
    size_t n;
    explicit Exact(const std::vector<uint8_t>& v) : p(new uint8_t[v.size()]), n(v.size()) { if (n) memcpy(p.get(), v.data(), n); }
};

template <typename T> std::string text(const T& o) { std::string s; dump(s, o); return s; }

template <typename T>
std::string copies(const T& o, const std::string& d)
{
    // copies and moves are equal and independent
    std::string f;
    T c(o);
    f += c == o ? '1' : '0';
#ifdef DRV_READONLY
    T a(c);
#else
    T a;
#endif
    a = c;
    f += a == o && text(a) == d ? '1' : '0';
    T m(std::move(c));
    f += m == o && text(m) == d ? '1' : '0';
    a = std::move(m);
    f += a == o && text(a) == d ? '1' : '0';
    f += a.hashCode() == o.hashCode() ? '1' : '0';
    f += !(a < o) && !(o < a) ? '1' : '0';
    return f;
}

template <typename T>
std::string cmdDec(const Args& a)
{
    size_t n = std::stoul(a[2]);
    Exact e(unhex(a[3]));
    zserio::BitStreamReader in(e.p.get(), n, zserio::BitsTag());
    T o(in);
    std::string r = std::to_string(in.getBitPosition()) + "|";
    size_t size = 0;
    for (size_t p : {0, 1, 3, 8, 61})
    {
        size_t s = o.bitSizeOf(p);
        if (p == 0) size = s;
        r += std::to_string(s) + (p == 61 ? "|" : ",");
    }
#ifdef DRV_READONLY
    static_cast<void>(size);
    r += "-|";
#else
    try
    {
        std::vector<uint8_t> out((size + 7) / 8);
        Exact x(out);
        zserio::BitStreamWriter w(x.p.get(), size, zserio::BitsTag());
        o.write(w);
        r += bitsOf(std::vector<uint8_t>(x.p.get(), x.p.get() + x.n), 0, w.getBitPosition()) + "|";
    }
    catch (const zserio::CppRuntimeException&)
    {
        r += "!CppRuntimeException|";
    }
#endif
    zserio::BitStreamReader in2(e.p.get(), n, zserio::BitsTag());
    T o2(in2);
    r += "eq";
    r += o == o2 ? '1' : '0';
    r += o.hashCode() == o2.hashCode() ? '1' : '0';
    r += o == o ? '1' : '0';
    std::string d = text(o);
    r += copies(o, d);
    return r + "|" + d;
}

#ifndef DRV_READONLY
template <typename T>
std::string cmdBld(const Args& a)
{
    size_t pos = std::stoul(a[2]);
    Tok t(a[3]);
    T o;
    build(t, o);
    initChildren(o, 0);
    size_t end = initOffsets(o, pos, 0);
    size_t size = o.bitSizeOf(pos);
    std::vector<uint8_t> out((pos + size + 7) / 8);
    Exact x(out);
    memset(x.p.get(), 0, x.n);
    zserio::BitStreamWriter w(x.p.get(), pos + size, zserio::BitsTag());
    w.setBitPosition(pos);
    o.write(w);
    std::string r = std::to_string(end) + "|" + std::to_string(size) + "|";
    r += bitsOf(std::vector<uint8_t>(x.p.get(), x.p.get() + x.n), pos, w.getBitPosition()) + "|eq";
    zserio::BitStreamReader in(x.p.get(), w.getBitPosition(), zserio::BitsTag());
    in.setBitPosition(pos);
    T o2(in);
    r += o == o2 ? '1' : '0';
    r += o.hashCode() == o2.hashCode() ? '1' : '0';
    r += o2 == o ? '1' : '0';
    std::string d = text(o2);
    r += copies(o, d);
    return r + "|" + d;
}

template <typename T>
std::string cmdRaw(const Args& a)
{
    size_t pos = std::stoul(a[2]);
    Tok t(a[3]);
    T o;
    build(t, o);
    initChildren(o, 0);
    size_t size = o.bitSizeOf(pos);
    std::vector<uint8_t> out((pos + size + 7) / 8);
    Exact x(out);
    memset(x.p.get(), 0, x.n);
    zserio::BitStreamWriter w(x.p.get(), pos + size, zserio::BitsTag());
    w.setBitPosition(pos);
    o.write(w);
    return bitsOf(std::vector<uint8_t>(x.p.get(), x.p.get() + x.n), pos, w.getBitPosition());
}

#endif

template <typename T>
std::string cmdFun(const Args& a)
{
    Exact e(unhex(a[3]));
    zserio::BitStreamReader in(e.p.get(), std::stoul(a[2]), zserio::BitsTag());
    T o(in);
    std::string s;
    Funcs<T>::run(s, o);
    return s;
}

#ifdef DRV_PARSING
// dump in which all compounds have the position and size of their parsing information, after a start at some position
template <typename T>
std::string cmdPi(const Args& a)
{
    size_t n = std::stoul(a[2]), pos = std::stoul(a[3]);
    Exact e(unhex(a[4]));
    zserio::BitStreamReader in(e.p.get(), n, zserio::BitsTag());
    in.setBitPosition(pos);
    T o(in);
    T c(o);
    std::string r;
    parsingInfos = true;
    dump(r, o);
    std::string k;
    dump(k, c);
    parsingInfos = false;
    return r + "|" + (r == k ? "copy1" : "copy0");
}
#endif

// object of an argument: a dump, or "D<bits>:<hex>" of a stream
template <typename T>
void object(std::vector<T>& os, const std::string& a)
{
    if (a[0] == 'D')
    {
        size_t c = a.find(':');
        Exact e(unhex(a.substr(c + 1)));
        zserio::BitStreamReader in(e.p.get(), std::stoul(a.substr(1, c - 1)), zserio::BitsTag());
        os.emplace_back(in);
        return;
    }
#ifndef DRV_READONLY
    Tok t(a);
    os.emplace_back();
    build(t, os.back());
    initChildren(os.back(), 0);
    initOffsets(os.back(), 0, 0);
#endif
}

// objects of the arguments are compared with each other
template <typename T>
std::string cmdCmp(const Args& a)
{
    std::vector<T> os;
    os.reserve(a.size());
    for (size_t i = 2; i < a.size(); ++i) object(os, a[i]);
    std::string eq, hs, lt;
    std::vector<uint32_t> h;
    for (auto& o : os) h.push_back(o.hashCode());
    for (size_t i = 0; i < os.size(); ++i)
        for (size_t k = 0; k < os.size(); ++k)
        {
            eq += os[i] == os[k] ? '1' : '0';
            hs += h[i] == h[k] ? '1' : '0';
            lt += os[i] < os[k] ? '1' : '0';
        }
    return eq + "|" + hs + "|" + lt;
}

#ifdef DRV_JSON
template <typename T>
std::string cmdJw(const Args& a)
{
    std::vector<T> os;
    os.reserve(1);
    object(os, a[2]);
    T& o = os[0];
    std::string s;
    if (a.size() > 4 && a[4] == "N")
    {
        std::ostringstream st;
        zserio::JsonWriter w(st);
        w.setEnumerableFormat(zserio::JsonWriter::EnumerableFormat::NUMBER);
        zserio::Walker(w).walk(o.reflectable());
        s = st.str();
    }
    else if (a.size() > 3 && a[3] != "-") s = zserio::toJsonString(o, static_cast<uint8_t>(std::stoi(a[3]))).c_str();
    else
    {
        std::ostringstream st;
        zserio::toJsonStream(o, st);
        s = st.str();
    }
    return hex(reinterpret_cast<const uint8_t*>(s.data()), s.size());
}

template <typename T>
std::string cmdJr(const Args& a)
{
    auto b = unhex(a[2]);
    std::string s(b.begin(), b.end());
    T o = zserio::fromJsonString<T>(zserio::string<>(s.begin(), s.end()));
    initChildren(o, 0);
    initOffsets(o, 0, 0);
    size_t size = o.bitSizeOf(0);
    std::vector<uint8_t> out((size + 7) / 8);
    zserio::BitStreamWriter w(out.data(), size, zserio::BitsTag());
    o.write(w);
    return bitsOf(out, 0, w.getBitPosition()) + "|" + text(o);
}
#endif

#ifdef DRV_TYPES
#include "types/types.hpp"
#endif
#ifdef DRV_FILES
#include "files/files.hpp"
#endif
#ifdef DRV_WALK
#include "walk/walk.hpp"
#endif
#ifdef DRV_COPIES
#include "copies/copies.hpp"
#endif

template <typename T>
void addAll(Table& t, const std::string& name)
{
    t["DEC " + name] = cmdDec<T>;
#ifndef DRV_READONLY
    t["BLD " + name] = cmdBld<T>;
    t["RAW " + name] = cmdRaw<T>;
#endif
#ifdef DRV_PARSING
    t["PI " + name] = cmdPi<T>;
#endif
    t["FUN " + name] = cmdFun<T>;
    t["CMP " + name] = cmdCmp<T>;
#ifdef DRV_JSON
    t["JW " + name] = cmdJw<T>;
    t["JR " + name] = cmdJr<T>;
#endif
#ifdef DRV_TYPES
    t["TI " + name] = cmdTi<T>;
    t["RF " + name] = cmdRf<T>;
#endif
#ifdef DRV_FILES
    t["FI " + name] = cmdFi<T>;
#endif
#ifdef DRV_WALK
    t["WK " + name] = cmdWk<T>;
    t["TC " + name] = cmdTc<T>;
#endif
#ifdef DRV_COPIES
    t["HI " + name] = cmdHi<T>;
#endif
#ifdef DRV_EXTRA
    DRV_EXTRA
#endif
}

inline Args split(const std::string& line, char c)
{
    Args a;
    size_t p = 0;
    for (;;)
    {
        size_t e = line.find(c, p);
        a.push_back(line.substr(p, e == std::string::npos ? e : e - p));
        if (e == std::string::npos) break;
        p = e + 1;
    }
    return a;
}

inline std::string execute(const Table& t, const Args& a)
{
    std::string r;
    try
    {
        auto it = t.find(a[0] + " " + (a.size() > 1 ? a[1] : ""));
        if (it == t.end()) throw std::logic_error("no command " + a[0] + " " + a[1]);
        r = "OK|" + it->second(a);
    }
    catch (const NotApplicable& e) { r = "NA|" + std::string(e.what()); }
    catch (const zserio::CppRuntimeException& e) { r = "ERR|CppRuntimeException|1|" + std::string(e.what()); }
    catch (const std::bad_alloc& e) { r = "ERR|bad_alloc|0|"; }
    catch (const std::length_error& e) { r = "ERR|length_error|0|"; }
    catch (const std::exception& e) { r = std::string("ERR|") + typeid(e).name() + "|0|" + e.what(); }
    for (auto& c : r) if (c == '\n') c = ' ';
    return r;
}

#ifdef DRV_THREADS
// MT <threads> <rounds> <commands>: all threads run all commands, each in its own order; different results are told
inline std::string concurrently(const Table& t, const Args& a)
{
    const size_t n = std::stoul(a[1]), rounds = std::stoul(a[2]);
    std::vector<Args> cmds;
    for (auto& c : split(a[3], '\x1f')) cmds.push_back(split(c, '\x1e'));
    std::vector<std::vector<std::string>> first(n, std::vector<std::string>(cmds.size()));
    std::vector<std::string> bad(n);
    std::atomic<size_t> ready(0);
    std::vector<std::thread> threads;
    for (size_t i = 0; i < n; ++i)
        threads.emplace_back([&, i]
        {
            // all start at the same time, so that what is initialized on first use is initialized concurrently
            ++ready;
            while (ready < n) std::this_thread::yield();
            for (size_t r = 0; r < rounds; ++r)
                for (size_t k = 0; k < cmds.size(); ++k)
                {
                    const size_t c = r == 0 && i % 2 == 0 ? k : (k * (2 * i + 1) + r + i) % cmds.size();
                    std::string x = execute(t, cmds[c]);
                    std::string& f = first[i][c];
                    if (f.empty()) f = x;
                    else if (f != x && bad[i].empty()) bad[i] = "thread changed its mind: " + f + " <> " + x;
                }
            for (size_t k = 0; k < cmds.size(); ++k)
                if (first[i][k].empty()) first[i][k] = execute(t, cmds[k]);
        });
    for (auto& x : threads) x.join();
    std::string out;
    for (size_t k = 0; k < cmds.size(); ++k)
    {
        for (size_t i = 0; i < n; ++i)
        {
            if (!bad[i].empty()) return "BAD|" + bad[i];
            if (first[i][k] != first[0][k]) return "BAD|threads disagree: " + first[0][k] + " <> " + first[i][k];
        }
        out += (k ? "\x1f" : "") + first[0][k];
    }
    return "OK|" + out;
}

// one object which several threads only look at
template <typename T>
std::string cmdSh(const Args& a)
{
    const size_t n = std::stoul(a[2]), rounds = std::stoul(a[3]);
    std::vector<T> os;
    os.reserve(2);
    object(os, a[4]);
    object(os, a[4]);
    const T& o = os[0];
    const T& o2 = os[1];
    std::vector<std::string> res(n);
    std::vector<std::thread> threads;
    std::atomic<size_t> ready(0);
    for (size_t i = 0; i < n; ++i)
        threads.emplace_back([&, i]
        {
            ++ready;
            while (ready < n) std::this_thread::yield();
            for (size_t r = 0; r < rounds; ++r)
            {
                std::string x[6];
                for (size_t q = 0; q < 6; ++q)
                    switch ((q + i + r) % 6)
                    {
                    case 0: x[0] = std::to_string(o.bitSizeOf(r % 2 ? 3 : 0)) + std::to_string(o.bitSizeOf(0)); x[0] = std::to_string(o.bitSizeOf(0)); break;
                    case 1: x[1] = o == o2 && !(o < o2) && !(o2 < o) && o.hashCode() == o2.hashCode() ? "eq1" : "eq0"; break;
                    case 2: x[2] = text(o); break;
                    case 3:
                    {
                        const size_t size = o.bitSizeOf(0);
                        std::vector<uint8_t> out((size + 7) / 8 + 8);
                        zserio::BitStreamWriter w(out.data(), out.size());
                        o.write(w);
                        x[3] = bitsOf(out, 0, w.getBitPosition());
                        break;
                    }
                    case 4: { T c(o); x[4] = c == o && text(c) == text(o) ? "c1" : "c0"; break; }
                    case 5:
                    {
                        auto ref = o.reflectable();
                        zserio::DefaultWalkObserver obs;
                        zserio::Walker(obs).walk(ref);
                        std::ostringstream st;
                        try { zserio::toJsonStream(o, st); x[5] = std::to_string(std::hash<std::string>()(st.str())); }
                        catch (const zserio::CppRuntimeException& e) { x[5] = "json"; }
                        break;
                    }
                    }
                std::string s = x[0] + "|" + x[3] + "|" + x[1] + x[4] + "|" + x[5] + "|" + x[2];
                if (res[i].empty()) res[i] = s;
                else if (res[i] != s) res[i] = "changed: " + res[i] + " <> " + s;
            }
        });
    for (auto& x : threads) x.join();
    for (size_t i = 1; i < n; ++i)
        if (res[i] != res[0]) return "threads disagree: " + res[0] + " <> " + res[i];
    return res[0];
}
#endif

template <typename T>
void add(Table& t, const std::string& name)
{
    addAll<T>(t, name);
#ifdef DRV_THREADS
    t["SH " + name] = cmdSh<T>;
#endif
}

inline int loop(Table& t)
{
    std::string line;
    while (std::getline(std::cin, line))
    {
        Args a = split(line, '\t');
#ifdef DRV_THREADS
        if (a[0] == "MT")
        {
            std::cout << concurrently(t, a) << std::endl;
            continue;
        }
#endif
        std::cout << execute(t, a) << std::endl;
    }
    return 0;
}
#endif
