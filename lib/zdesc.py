"""Descriptor of a schema for the drivers, and the C++ driver source."""
from zmodel import *


def kind(t):
    t = t.base()
    if t.is_compound:
        return "c", "%s.%s" % (t.pkg, t.name)
    for c, k in ((Bool, "b"), (Str, "s"), (Bytes, "y"), (Extern, "x"), (Float, "d")):
        if isinstance(t, c):
            return k, "-"
    if isinstance(t, Enum):
        return "e", "%s.%s" % (t.pkg, t.name)
    if isinstance(t, Bitmask):
        return "m", "%s.%s" % (t.pkg, t.name)
    return "i", "-"


def descriptor(schema):
    out = []
    for c in schema.compounds():
        out.append("C %s.%s %s" % (c.pkg, c.name, c.kind))
        for t, n in c.params:
            out.append("P %s %s %s" % ((n,) + kind(t)))
        for f in c.fields:
            if isinstance(f.type, Nothing):
                continue
            fl = ("o" if f.optional is not None else "") + ("x" if f.extend else "") + ("a" if f.array else "")
            out.append("F %s %s %s %s" % ((f.name, fl or "-") + kind(f.type)))
        for rt, n, e in c.funcs:
            out.append("U %s %s %s" % ((n,) + kind(rt)))
    return "\n".join(out) + "\n"


def cap(n):
    return n[0].upper() + n[1:]


def cname(full):
    return "::" + full.replace(".", "::")


def putter(f):
    if not isinstance(f.type.base(), Bytes):
        return "put"
    return "putBytesArray" if f.array else "putBytes"


def cpp_driver(schema, only=None):
    """C++ source with build/dump functions of all compounds and the command table of the roots."""
    o = []
    comps = schema.compounds()
    for c in comps:
        o.append('#include "%s/%s.h"' % (c.pkg.replace(".", "/"), c.name))
    o.append('#include "drv.hpp"')
    for c in comps:
        n = cname("%s.%s" % (c.pkg, c.name))
        o.append("template <> void build<%s>(Tok& t, %s& o);" % (n, n))
        o.append("template <> void dump<%s>(std::string& s, const %s& o);" % (n, n))
    for c in comps:
        n = cname("%s.%s" % (c.pkg, c.name))
        fs = [f for f in c.fields if not isinstance(f.type, Nothing)]
        o.append("#ifndef DRV_READONLY\ntemplate <> void build<%s>(Tok& t, %s& o)\n{\n    t.head();\n    for (;;)\n    {\n"
                 "        std::string n = t.next();\n        if (n == \"}\") return;" % (n, n))
        for f in fs:
            o.append('        if (n == "%s") { if (t.peek() == "n") { t.next(); %scontinue; } '
                     'typename std::decay<decltype(o.get%s())>::type v; parse(t, v); o.set%s(std::move(v)); continue; }'
                     % (f.name, "o.reset%s(); " % cap(f.name) if f.optional is not None else "",
                        cap(f.name), cap(f.name)))
        o.append('        throw std::logic_error("no field " + n);\n    }\n}\n#endif')
        o.append("template <> void dump<%s>(std::string& s, const %s& o)\n{\n    s += \"{ %s.%s \"; parsingInfo(s, o);"
                 % (n, n, c.pkg, c.name))
        if c.kind == "struct":
            for f in fs:
                pre = ""
                if f.extend:
                    pre = "if (!o.is%sPresent()) { s += \"}\"; return; } " % cap(f.name)
                body = "%s(s, o.get%s());" % (putter(f), cap(f.name))
                if f.optional is not None:
                    body = "if (o.is%sUsed()) %s else s += \"n \";" % (cap(f.name), body)
                o.append('    %ss += "%s "; %s' % (pre, f.name, body))
        else:
            o.append("    switch (o.choiceTag())\n    {")
            for f in fs:
                o.append('    case %s::CHOICE_%s: s += "%s "; %s(s, o.get%s()); break;'
                         % (n, f.name, f.name, putter(f), cap(f.name)))
            o.append("    default: break;\n    }")
        o.append('    s += "}";\n}')
    roots = schema.roots if only is None else only
    for c in roots:
        n = cname("%s.%s" % (c.pkg, c.name))
        if c.funcs:
            o.append("template <> struct Funcs<%s> { static void run(std::string& s, %s& o) {" % (n, n))
            for rt, fn, e in c.funcs:
                o.append('    if (!s.empty()) s += " "; s += "%s="; { std::string x; put(x, o.func%s()); x.pop_back(); s += x; }'
                         % (fn, cap(fn)))
            o.append("} };")
    o.append("int main(int argc, char** argv)\n{\n    Table t;")
    for c in roots:
        n = cname("%s.%s" % (c.pkg, c.name))
        o.append('    add<%s>(t, "%s.%s");' % (n, c.pkg, c.name))
    o.append("    return loop(t);\n}")
    return "\n".join(o) + "\n"
