// Serialization utilities: bit buffers, bytes, files and JSON files, also files which can't be written.
#ifndef DRV_FILES_HPP
#define DRV_FILES_HPP
#include <fstream>
#include <sstream>
#include "zserio/DebugStringUtil.h"
#include "zserio/FileUtil.h"
#include "zserio/SerializeUtil.h"

namespace files
{
using alloc = std::allocator<uint8_t>;

template <typename F>
std::string failure(F f)
{
    try { f(); }
    catch (const zserio::CppRuntimeException&) { return "known"; }
    catch (const std::exception& e) { return std::string("unknown:") + typeid(e).name(); }
    return "silent";
}

inline std::string slurp(const std::string& name)
{
    std::ifstream f(name.c_str(), std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    std::string x = s.str();
    return hex(reinterpret_cast<const uint8_t*>(x.data()), x.size());
}
}

// FI <type> <directory> <stream>
template <typename T>
std::string cmdFi(const Args& a)
{
    std::vector<T> os;
    os.reserve(1);
    object(os, a[3]);
    T& o = os[0];
    const std::string f = a[2] + "/file.bin";
    std::string r, flags;
    auto same = [&](const T& x) { flags += x == o && text(x) == text(o) ? '1' : '0'; };
    const auto b = zserio::serialize(o);
    r += std::to_string(b.getBitSize()) + ":" + hex(b.getBuffer(), b.getByteSize()) + "|";
    same(zserio::deserialize<T>(b));
    const auto bytes = zserio::serializeToBytes(o);
    r += hex(bytes.data(), bytes.size()) + "|";
    same(zserio::deserializeFromBytes<T>(bytes));
    // what was in the file before does not matter
    {
        std::ofstream junk(f.c_str(), std::ios::binary);
        for (int i = 0; i < 5000; ++i) junk << "junk";
    }
    zserio::serializeToFile(o, f);
    r += files::slurp(f) + "|";
    same(zserio::deserializeFromFile<T>(f));
    for (size_t n : {0, 1, 7, 100000})
    {
        same(zserio::deserialize<T>(b, zserio::ArrayPreallocation(n)));
        same(zserio::deserializeFromBytes<T>(bytes, zserio::ArrayPreallocation(n)));
        same(zserio::deserializeFromFile<T>(f, zserio::ArrayPreallocation(n)));
    }
    const std::string j = a[2] + "/file.json";
    const std::string text = zserio::toJsonString(o, static_cast<uint8_t>(4));
    zserio::toJsonFile(o, j);
    flags += files::slurp(j) == hex(reinterpret_cast<const uint8_t*>(text.data()), text.size()) ? '1' : '0';
    std::string back = files::failure([&] { T x = zserio::fromJsonFile<T>(j); initChildren(x, 0); if (!(x == o)) throw std::logic_error("differs"); });
    std::string back2 = files::failure([&] { T x = zserio::fromJsonString<T>(zserio::string<>(text.c_str())); initChildren(x, 0); if (!(x == o)) throw std::logic_error("differs"); });
    flags += back == back2 ? '1' : '0';
    r += flags + "|";
    for (const std::string& p : {a[2] + "/no/such", a[2], std::string("/dev/full")})
    {
        r += files::failure([&] { zserio::serializeToFile(o, p); }) + ",";
        r += files::failure([&] { zserio::toJsonFile(o, p); }) + ",";
    }
    for (const std::string& p : {a[2] + "/no/such", a[2]})
    {
        r += files::failure([&] { zserio::deserializeFromFile<T>(p); }) + ",";
        r += files::failure([&] { zserio::fromJsonFile<T>(p); }) + ",";
    }
    return r;
}
#endif
