// Walker, walk filters and tree creator of the C++ runtime.
#ifndef DRV_WALK_HPP
#define DRV_WALK_HPP
#include <set>
#include <sstream>
#include "types/types.hpp"
#include "zserio/Walker.h"
#include "zserio/ZserioTreeCreator.h"

namespace walk
{
using types::str;
using Out = std::vector<std::string>;
using P = zserio::IReflectableConstPtr;
using F = zserio::FieldInfo;

inline std::string idx(size_t i) { return i == zserio::WALKER_NOT_ELEMENT ? "-" : std::to_string(i); }

inline std::string tok(const P& p)
{
    if (!p) return "n";
    std::string s = types::leaf(p);
    s.pop_back();
    return s;
}

struct Observer : public zserio::IWalkObserver
{
    explicit Observer(Out& o) : out(o) {}
    Out& out;
    static std::string type(const P& p) { return str(p->getTypeInfo().getSchemaName()); }
    static std::string name(const F& f) { return str(f.schemaName); }
    void beginRoot(const P& p) override { out.push_back("R" + type(p)); }
    void endRoot(const P& p) override { out.push_back("r" + type(p)); }
    void beginArray(const P& p, const F& f) override { out.push_back("A" + name(f) + ":" + std::to_string(p->size())); }
    void endArray(const P& p, const F& f) override { out.push_back("a" + name(f) + ":" + std::to_string(p->size())); }
    void beginCompound(const P& p, const F& f, size_t i) override { out.push_back("C" + name(f) + ":" + idx(i) + ":" + type(p)); }
    void endCompound(const P& p, const F& f, size_t i) override { out.push_back("c" + name(f) + ":" + idx(i) + ":" + type(p)); }
    void visitValue(const P& p, const F& f, size_t i) override { out.push_back("V" + name(f) + ":" + idx(i) + ":" + tok(p)); }
};

struct Custom : public zserio::IWalkFilter
{
    Custom(const std::string& s, Out& o) : out(o)
    {
        std::istringstream is(s);
        std::string x;
        while (std::getline(is, x, ',')) if (!x.empty()) no.insert(std::stoul(x));
    }
    Out& out;
    std::set<size_t> no;
    size_t n = 0;
    bool decide(const char* w, const F& f, size_t i)
    {
        out.push_back(std::string("?") + w + str(f.schemaName) + ":" + idx(i));
        return no.count(n++) == 0;
    }
    bool beforeArray(const P&, const F& f) override { return decide("A", f, zserio::WALKER_NOT_ELEMENT); }
    bool afterArray(const P&, const F& f) override { return decide("a", f, zserio::WALKER_NOT_ELEMENT); }
    bool beforeCompound(const P&, const F& f, size_t i) override { return decide("C", f, i); }
    bool afterCompound(const P&, const F& f, size_t i) override { return decide("c", f, i); }
    bool beforeValue(const P&, const F& f, size_t i) override { return decide("V", f, i); }
    bool afterValue(const P&, const F& f, size_t i) override { return decide("v", f, i); }
};

inline std::string text(const std::string& hexed)
{
    auto b = unhex(hexed);
    return std::string(b.begin(), b.end());
}

inline std::unique_ptr<zserio::IWalkFilter> one(const std::string& s, Out& out)
{
    std::string r = s.substr(1);
    using U = std::unique_ptr<zserio::IWalkFilter>;
    switch (s[0])
    {
    case 'D': return U(new zserio::DepthWalkFilter(std::stoul(r)));
    case 'L': return U(new zserio::ArrayLengthWalkFilter(std::stoul(r)));
    case 'X': return U(new zserio::RegexWalkFilter(text(r).c_str()));
    case 'N': return U(new zserio::DefaultWalkFilter());
    default: return U(new Custom(r, out));
    }
}

inline std::string join(const Out& o)
{
    std::string s;
    for (const auto& x : o) s += (s.empty() ? "" : " ") + x;
    return s;
}

inline std::string run(const P& p, const std::string& spec)
{
    Out out;
    Observer ob(out);
    if (spec == "-")
    {
        zserio::Walker w(ob);
        w.walk(p);
        return join(out);
    }
    if (spec[0] != '&')
    {
        auto f = one(spec, out);
        zserio::Walker w(ob, *f);
        w.walk(p);
        return join(out);
    }
    std::vector<std::unique_ptr<zserio::IWalkFilter>> fs;
    zserio::AndWalkFilter::WalkFilters refs;
    std::istringstream is(spec.substr(1));
    std::string x;
    while (std::getline(is, x, '&'))
        if (!x.empty()) fs.push_back(one(x, out));
    for (auto& f : fs) refs.push_back(std::ref(*f));
    zserio::AndWalkFilter f(refs);
    zserio::Walker w(ob, f);
    w.walk(p);
    return join(out);
}

struct Set
{
    zserio::ZserioTreeCreator& c;
    std::string name;
    template <typename V>
    void operator()(V&& v)
    {
        if (name.empty()) c.addValueElement(std::forward<V>(v));
        else c.setValue(zserio::string<>(name.c_str()), std::forward<V>(v));
    }
};

inline void give(Set s, const std::string& t, bool other)
{
    std::string r = t.substr(1);
    switch (t[0])
    {
    case 'n': s.c.setValue(zserio::string<>(s.name.c_str()), nullptr); return;
    case 'i': case 'e':
        if (r[0] == '-') s(static_cast<int64_t>(std::stoll(r)));
        else if (other && r.size() < 19) s(static_cast<int64_t>(std::stoll(r)));
        else s(static_cast<uint64_t>(std::stoull(r)));
        return;
    case 'm': s(static_cast<uint64_t>(std::stoull(r))); return;
    case 'b': s(r == "1"); return;
    case 'd':
    {
        double d = std::numeric_limits<double>::quiet_NaN();
        if (r != "nan")
        {
            uint64_t u = std::stoull(r, nullptr, 16);
            std::memcpy(&d, &u, 8);
        }
        s(d);
        return;
    }
    case 's':
    {
        std::string v = text(r);
        if (other) s(zserio::StringView(v.data(), v.size()));
        else s(zserio::string<>(v.data(), v.size()));
        return;
    }
    case 'y': { auto b = unhex(r); s(zserio::vector<uint8_t>(b.begin(), b.end())); return; }
    case 'x':
    {
        size_t k = r.find(':');
        auto b = unhex(r.substr(k + 1));
        s(zserio::BitBuffer(zserio::vector<uint8_t>(b.begin(), b.end()), std::stoul(r.substr(0, k))));
        return;
    }
    }
    throw std::logic_error("value " + t);
}

inline std::string op(zserio::ZserioTreeCreator& c, const std::vector<std::string>& p, bool other)
{
    auto name = [&]() { return zserio::string<>(p[1].c_str()); };
    switch (p[0][0])
    {
    case 'R': c.beginRoot(); break;
    case 'r':
    {
        auto o = c.endRoot();
        o->initializeChildren();
        size_t n = o->initializeOffsets(0);
        std::vector<uint8_t> buf((n + 7) / 8);
        zserio::BitStreamWriter w(buf.data(), n, zserio::BitsTag());
        o->write(w);
        return std::to_string(w.getBitPosition()) + ":" + hex(buf.data(), buf.size());
    }
    case 'A': c.beginArray(name()); break;
    case 'a': c.endArray(); break;
    case 'C': c.beginCompound(name()); break;
    case 'c': c.endCompound(); break;
    case 'V': give(Set{c, p[1]}, p[2], other); break;
    case 'E': c.beginCompoundElement(); break;
    case 'e': c.endCompoundElement(); break;
    case 'v': give(Set{c, ""}, p[1], other); break;
    case 'T': return str(c.getFieldType(name()).getSchemaName());
    case 't': return str(c.getElementType().getSchemaName());
    }
    return ".";
}

inline std::string create(const zserio::ITypeInfo& info, const std::string& script)
{
    zserio::ZserioTreeCreator c(info);
    Out out;
    std::istringstream is(script);
    std::string x;
    bool other = false;
    while (std::getline(is, x, ' '))
    {
        std::vector<std::string> p;
        std::istringstream ps(x);
        std::string y;
        while (std::getline(ps, y, '=')) p.push_back(y);
        other = !other;
        try { out.push_back(op(c, p, other)); }
        catch (const zserio::CppRuntimeException&) { out.push_back("x"); }
    }
    return join(out);
}
} // namespace walk

template <typename T>
std::string cmdWk(const Args& a)
{
    std::vector<T> os;
    os.reserve(1);
    object(os, a[2]);
    const T& o = os[0];
    return walk::run(o.reflectable(), a[3]);
}

template <typename T>
std::string cmdTc(const Args& a) { return walk::create(T::typeInfo(), a[2]); }
#endif
