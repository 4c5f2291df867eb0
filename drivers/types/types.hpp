// Type information and reflection of generated C++ code.
#ifndef DRV_TYPES_HPP
#define DRV_TYPES_HPP
#include <algorithm>
#include <set>
#include <sstream>
#include "zserio/ITypeInfo.h"
#include "zserio/Reflectable.h"
#include "zserio/ReflectableUtil.h"
#include "zserio/TypeInfo.h"
#include "zserio/TypeInfoUtil.h"

namespace types
{
using Info = zserio::ITypeInfo;

inline std::string str(zserio::StringView v) { return std::string(v.data(), v.size()); }

inline const char* kind(zserio::SchemaType t)
{
#define K(n) if (t == zserio::SchemaType::n) return #n;
    K(BOOL) K(INT8) K(INT16) K(INT32) K(INT64) K(UINT8) K(UINT16) K(UINT32) K(UINT64) K(VARINT16) K(VARINT32)
    K(VARINT64) K(VARINT) K(VARUINT16) K(VARUINT32) K(VARUINT64) K(VARUINT) K(VARSIZE) K(FIXED_SIGNED_BITFIELD)
    K(FIXED_UNSIGNED_BITFIELD) K(DYNAMIC_SIGNED_BITFIELD) K(DYNAMIC_UNSIGNED_BITFIELD) K(FLOAT16) K(FLOAT32)
    K(FLOAT64) K(BYTES) K(STRING) K(EXTERN) K(ENUM) K(BITMASK) K(STRUCT) K(CHOICE) K(UNION) K(SQL_TABLE)
    K(SQL_DATABASE) K(SERVICE) K(PUBSUB)
#undef K
    return "?";
}

inline bool builtin(const Info& i) { return i.getSchemaType() < zserio::SchemaType::ENUM; }

inline std::string ref(const Info& i)
{
    std::string s = str(i.getSchemaName()) + "/" + kind(i.getSchemaType());
    if (builtin(i))
    {
        try { s += "/" + std::to_string(i.getBitSize()); }
        catch (const zserio::CppRuntimeException&) { s += "/-"; }
    }
    return s;
}

struct Walk
{
    std::set<std::string> seen, lines;

    void items(std::ostringstream& o, zserio::Span<const zserio::ItemInfo> is, bool sign)
    {
        for (const auto& i : is)
        {
            o << " " << str(i.schemaName) << "=";
            if (sign) o << static_cast<int64_t>(i.value);
            else o << i.value;
            o << (i.isDeprecated ? "D" : "") << (i.isRemoved ? "R" : "");
        }
    }

    std::string use(const Info& i)
    {
        visit(i);
        return ref(i);
    }

    void visit(const Info& i)
    {
        if (builtin(i) || !seen.insert(str(i.getSchemaName())).second) return;
        std::ostringstream o;
        zserio::SchemaType k = i.getSchemaType();
        o << kind(k) << " " << str(i.getSchemaName());
        if (k == zserio::SchemaType::ENUM || k == zserio::SchemaType::BITMASK)
        {
            const Info& u = i.getUnderlyingType();
            o << " " << ref(u) << " n" << i.getUnderlyingTypeArguments().size();
            bool sign = u.getCppType() < zserio::CppType::UINT8;
            items(o, k == zserio::SchemaType::ENUM ? i.getEnumItems() : i.getBitmaskValues(), sign);
        }
        else if (zserio::TypeInfoUtil::isCompound(k))
        {
            if (!i.getTemplateName().empty())
            {
                o << " <" << str(i.getTemplateName());
                for (const auto& a : i.getTemplateArguments()) o << " " << use(a.typeInfo);
                o << ">";
            }
            for (const auto& p : i.getParameters()) o << " P" << str(p.schemaName) << ":" << use(p.typeInfo);
            for (const auto& f : i.getFields())
            {
                o << " F" << str(f.schemaName) << ":" << use(f.typeInfo) << ":n" << f.typeArguments.size();
                if (f.isExtended) o << ",ext";
                if (!f.alignment.empty()) o << ",align";
                if (!f.offset.empty()) o << ",offset";
                if (!f.initializer.empty()) o << ",init";
                if (f.isOptional) o << ",optional";
                if (!f.optionalCondition.empty()) o << ",if";
                if (!f.constraint.empty()) o << ",constraint";
                if (f.isArray) o << ",array";
                if (!f.arrayLength.empty()) o << ",length";
                if (f.isPacked) o << ",packed";
                if (f.isImplicit) o << ",implicit";
                for (const auto& a : f.typeArguments) if (a.empty()) o << ",emptyargument";
            }
            for (const auto& f : i.getFunctions())
                o << " U" << str(f.schemaName) << ":" << use(f.typeInfo) << (f.functionResult.empty() ? ",empty" : "");
            if (k == zserio::SchemaType::CHOICE)
            {
                o << " on" << (i.getSelector().empty() ? ",empty" : "");
                for (const auto& c : i.getCases())
                    o << " C" << c.caseExpressions.size() << ":" << (c.field ? str(c.field->schemaName) : "-");
            }
        }
        else if (k == zserio::SchemaType::SQL_TABLE)
        {
            if (!i.getTemplateName().empty()) o << " <" << str(i.getTemplateName()) << ">";
            o << " {" << str(i.getSqlConstraint()) << "} {" << str(i.getVirtualTableUsing()) << "} "
              << (i.isWithoutRowId() ? "norowid" : "rowid");
            for (const auto& c : i.getColumns())
                o << " F" << str(c.schemaName) << ":" << use(c.typeInfo) << ":n" << c.typeArguments.size() << ","
                  << str(c.sqlTypeName) << ",{" << str(c.sqlConstraint) << "}" << (c.isVirtual ? ",virtual" : "");
        }
        else if (k == zserio::SchemaType::SQL_DATABASE)
            for (const auto& t : i.getTables()) o << " T" << str(t.schemaName) << ":" << use(t.typeInfo);
        else if (k == zserio::SchemaType::PUBSUB)
            for (const auto& m : i.getMessages())
                o << " M" << str(m.schemaName) << ":" << use(m.typeInfo) << "," << (m.isPublished ? "p" : "")
                  << (m.isSubscribed ? "s" : "") << ",{" << str(m.topic) << "}";
        else if (k == zserio::SchemaType::SERVICE)
            for (const auto& m : i.getMethods())
                o << " M" << str(m.schemaName) << ":" << use(m.responseTypeInfo) << "," << use(m.requestTypeInfo);
        lines.insert(o.str());
    }
};

inline std::string all(const Info& i)
{
    Walk w;
    w.visit(i);
    std::string s;
    for (const auto& l : w.lines) s += (s.empty() ? "" : "; ") + l;
    return s;
}

// ---------------------------------------------------------------- reflection

using CPtr = zserio::IReflectableConstPtr;
using Ptr = zserio::IReflectablePtr;
using Any = zserio::AnyHolder<>;

inline void fail(const std::string& what) { throw std::logic_error("reflection: " + what); }

inline std::string hexDouble(double d)
{
    if (d != d) return "dnan ";
    uint64_t u;
    std::memcpy(&u, &d, 8);
    char b[32];
    snprintf(b, sizeof b, "d%016llx ", static_cast<unsigned long long>(u));
    return b;
}

/** Text of one value which is not a compound; checks that all conversions agree. */
template <typename P>
std::string leaf(const P& p)
{
    const Info& i = p->getTypeInfo();
    zserio::CppType t = i.getCppType();
    char pre = 'i';
    if (t == zserio::CppType::ENUM || t == zserio::CppType::BITMASK)
    {
        pre = t == zserio::CppType::ENUM ? 'e' : 'm';
        t = i.getUnderlyingType().getCppType();
    }
    bool isInt = true, sign = false;
    int64_t s = 0;
    uint64_t u = 0;
    switch (t)
    {
    case zserio::CppType::BOOL:
        if (p->getAnyValue().template get<bool>() != p->getBool()) fail("getAnyValue of bool");
        if (p->toUInt() != (p->getBool() ? 1U : 0U) || p->toDouble() != (p->getBool() ? 1.0 : 0.0)) fail("conversion of bool");
        return p->getBool() ? "b1 " : "b0 ";
#define I(T, G) { auto v = p->G(); if (pre == 'i' && p->getAnyValue().template get<T>() != v) fail("getAnyValue of " #T); s = v; sign = true; break; }
    case zserio::CppType::INT8: I(int8_t, getInt8)
    case zserio::CppType::INT16: I(int16_t, getInt16)
    case zserio::CppType::INT32: I(int32_t, getInt32)
    case zserio::CppType::INT64: I(int64_t, getInt64)
#undef I
#define I(T, G) { auto v = p->G(); if (pre == 'i' && p->getAnyValue().template get<T>() != v) fail("getAnyValue of " #T); u = v; break; }
    case zserio::CppType::UINT8: I(uint8_t, getUInt8)
    case zserio::CppType::UINT16: I(uint16_t, getUInt16)
    case zserio::CppType::UINT32: I(uint32_t, getUInt32)
    case zserio::CppType::UINT64: I(uint64_t, getUInt64)
#undef I
    case zserio::CppType::FLOAT:
    {
        float f = p->getFloat();
        if (f == f && p->toDouble() != static_cast<double>(f)) fail("toDouble of float");
        return hexDouble(f);
    }
    case zserio::CppType::DOUBLE:
    {
        double f = p->getDouble();
        if (f == f && p->toDouble() != f) fail("toDouble of double");
        return hexDouble(f);
    }
    case zserio::CppType::STRING:
    {
        std::string v = str(p->getStringView());
        if (v != p->toString().c_str() && v.find('\0') == std::string::npos) fail("toString of string");
        std::string o;
        put(o, p->toString());
        return o;
    }
    case zserio::CppType::BYTES:
    {
        auto b = p->getBytes();
        return "y" + hex(b.data(), b.size()) + " ";
    }
    case zserio::CppType::BIT_BUFFER:
    {
        std::string o;
        put(o, p->getBitBuffer());
        return o;
    }
    default:
        isInt = false;
    }
    if (!isInt) fail("no leaf: " + ref(i));
    std::string text = sign ? std::to_string(s) : std::to_string(u);
    if (sign)
    {
        if (p->toInt() != s) fail("toInt of " + text);
        if (p->toDouble() != static_cast<double>(s)) fail("toDouble of " + text);
    }
    else
    {
        if (p->toUInt() != u) fail("toUInt of " + text);
        if (p->toDouble() != static_cast<double>(u)) fail("toDouble of " + text);
    }
    if (pre == 'i' && p->toString() != zserio::string<>(text.c_str())) fail("toString of " + text);
    if (pre == 'e')
    {
        std::string n = "?";
        for (const auto& it : i.getEnumItems())
            if (it.value == (sign ? static_cast<uint64_t>(s) : u)) { n = str(it.schemaName); break; }
        if (p->toString() != zserio::string<>(n.c_str())) fail("toString of enum " + n);
    }
    return pre + text + " ";
}

struct Stat { size_t leaves = 0, finds = 0, functions = 0, params = 0; };

template <typename P>
std::string elem(const P& root, const P& p, const std::string& path, Stat& st);

/** Dump of a compound by its fields of the type info; paths without arrays must be found from the root. */
template <typename P>
std::string comp(const P& root, const P& p, const std::string& path, Stat& st)
{
    const Info& i = p->getTypeInfo();
    std::string o = "{ " + str(i.getSchemaName()) + " ";
    bool choice = i.getSchemaType() != zserio::SchemaType::STRUCT;
    std::string tag = choice ? str(p->getChoice()) : "";
    for (const auto& q : i.getParameters())
    {
        auto v = p->getParameter(q.schemaName);
        if (!v) fail("no parameter " + str(q.schemaName));
        st.params++;
        if (ref(v->getTypeInfo()) != ref(q.typeInfo)) fail("type of parameter " + str(q.schemaName));
    }
    for (const auto& f : i.getFields())
    {
        std::string n = str(f.schemaName), sub = path.empty() ? n : path + "." + n;
        if (choice && n != tag) continue;
        auto v = p->getField(f.schemaName);
        if (path != "#" )
        {
            auto w = root->find(zserio::StringView(sub.data(), sub.size()));
            if ((w == nullptr) != (v == nullptr)) fail("find of " + sub);
            if (w && (w->isArray() != v->isArray() || ref(w->getTypeInfo()) != ref(v->getTypeInfo())))
                fail("find returned another field: " + sub);
            if (w && !w->isArray() && !zserio::TypeInfoUtil::isCompound(w->getTypeInfo().getSchemaType()) && leaf(w) != leaf(v))
                fail("find returned another value: " + sub);
            st.finds++;
        }
        if (!v)
        {
            if (f.isExtended && !f.isOptional) break;
            if (!f.isOptional) fail("no field " + n);
            o += n + " n ";
            continue;
        }
        if (v->isArray() != f.isArray) fail("isArray of " + n);
        if (ref(v->getTypeInfo()) != ref(f.typeInfo)) fail("type info of " + n + ": " + ref(v->getTypeInfo()) + ", " + ref(f.typeInfo));
        o += n + " ";
        if (f.isArray)
        {
            o += "[ ";
            for (size_t k = 0; k < v->size(); k++)
            {
                P e = v->at(k);
                P e2 = (*v)[k];
                if (!e || !e2) fail("no element of " + n);
                o += elem(root, e, "#", st);
            }
            o += "] ";
            bool bad = false;
            try { v->at(v->size()); }
            catch (const zserio::CppRuntimeException&) { bad = true; }
            if (!bad) fail("element after the last one of " + n);
        }
        else o += elem(root, v, path == "#" ? path : sub, st);
    }
    bool bad = false;
    try { p->getField(zserio::makeStringView("noSuchField")); }
    catch (const zserio::CppRuntimeException&) { bad = true; }
    if (!bad || p->find(zserio::makeStringView("noSuchField.x"))) fail("a field which does not exist");
    return o + "} ";
}

template <typename P>
std::string elem(const P& root, const P& p, const std::string& path, Stat& st)
{
    if (zserio::TypeInfoUtil::isCompound(p->getTypeInfo().getSchemaType())) return comp<P>(root, p, path, st);
    st.leaves++;
    return leaf(p);
}

/** Sets all simple fields to their own values by reflection. */
inline void reset(const Ptr& p, size_t& n)
{
    const Info& i = p->getTypeInfo();
    bool choice = i.getSchemaType() != zserio::SchemaType::STRUCT;
    std::string tag = choice ? str(p->getChoice()) : "";
    for (const auto& f : i.getFields())
    {
        if (choice && str(f.schemaName) != tag) continue;
        if (f.isExtended) break;
        auto v = p->getField(f.schemaName);
        if (!v)
        {
            if (f.optionalCondition.empty() && !f.isArray && builtin(f.typeInfo) &&
                f.typeInfo.getCppType() < zserio::CppType::BYTES)
            {
                // made present and absent again
                if (!p->createField(f.schemaName)) fail("createField of " + str(f.schemaName));
                if (!p->getField(f.schemaName)) fail("field after createField: " + str(f.schemaName));
                p->setField(f.schemaName, Any(nullptr));
                if (p->getField(f.schemaName)) fail("field after it was reset: " + str(f.schemaName));
                n++;
            }
            continue;
        }
        bool comp = zserio::TypeInfoUtil::isCompound(f.typeInfo.getSchemaType());
        if (f.isArray)
        {
            for (size_t k = 0; k < v->size(); k++)
            {
                auto e = v->at(k);
                if (comp) reset(e, n);
                else if (f.typeInfo.getCppType() < zserio::CppType::BYTES)
                {
                    v->setAt(e->getAnyValue(), k);
                    n++;
                }
            }
            if (!comp && f.typeInfo.getCppType() < zserio::CppType::BYTES && v->size() > 0)
            {
                size_t size = v->size();
                auto last = v->at(size - 1)->getAnyValue();
                v->resize(size - 1);
                v->append(last);
                if (v->size() != size) fail("size after append");
                n++;
            }
        }
        else if (comp) reset(v, n);
        else if (f.typeInfo.getCppType() < zserio::CppType::BYTES || f.typeInfo.getCppType() == zserio::CppType::ENUM ||
                 f.typeInfo.getCppType() == zserio::CppType::BITMASK)
        {
            auto any = v->getAnyValue();
            p->setField(f.schemaName, any);
            n++;
        }
    }
}
} // namespace types

template <typename T>
std::string cmdTi(const Args&) { return types::all(T::typeInfo()); }

template <typename T>
std::string cmdRf(const Args& a)
{
    std::vector<T> os;
    os.reserve(1);
    object(os, a[2]);
    T& o = os[0];
    types::Stat st;
    const T& co = o;
    types::CPtr c = co.reflectable();
    types::Ptr p = o.reflectable();
    std::string r = types::comp<types::CPtr>(c, c, "", st);
    std::string r2 = types::comp<types::Ptr>(p, p, "", st);
    if (r != r2) types::fail("const and other reflection differ");
    if (c->bitSizeOf(3) != o.bitSizeOf(3)) types::fail("bitSizeOf");
    // the functions
    std::string fs;
    for (const auto& f : T::typeInfo().getFunctions())
    {
        auto v = c->callFunction(f.schemaName);
        if (!v) types::fail("no function " + types::str(f.schemaName));
        st.functions++;
        fs += (fs.empty() ? "" : " ") + types::str(f.schemaName) + "=";
        std::string x = zserio::TypeInfoUtil::isCompound(v->getTypeInfo().getSchemaType()) ? "object " : types::leaf(v);
        x.pop_back();
        fs += x;
    }
    T copy(o);
    initChildren(copy, 0);
    types::CPtr q = static_cast<const T&>(copy).reflectable();
    if (!zserio::ReflectableUtil::equal<>(c, q)) types::fail("an object does not equal its copy");
    size_t sets = 0;
    types::reset(p, sets);
    initChildren(o, 0);
    std::vector<uint8_t> out((o.bitSizeOf(0) + 7) / 8);
    size_t size = o.bitSizeOf(0);
    zserio::BitStreamWriter w(out.data(), size, zserio::BitsTag());
    p->write(w);
    r.pop_back();
    return r + "|" + fs + "|" + bitsOf(out, 0, w.getBitPosition()) + "|" + std::to_string(st.leaves) + " " +
           std::to_string(st.finds) + " " + std::to_string(st.functions) + " " + std::to_string(st.params) + " " +
           std::to_string(sets);
}
#endif
