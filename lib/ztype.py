"""What the type information of generated code has to say about a schema, and about one object."""
import re

import zrpc
import zsql
from zmodel import *

SIMPLE = {"uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64, "int8": 8, "int16": 16, "int32": 32, "int64": 64}


def ref(t, lang):
    """schema name / schema type / bit size of fixed builtin types (the name only in Python)"""
    t = t.base() if t is not None else BYTES
    if isinstance(t, (Enum, Bitmask, Compound)):
        n = "%s.%s" % (t.pkg, t.name)
        k = t.kind.upper() if isinstance(t, Compound) else type(t).__name__.upper()
        return n if lang == "py" else "%s/%s" % (n, k)
    if isinstance(t, DynBit):
        n, k, b = ("int<>", "DYNAMIC_SIGNED_BITFIELD", "-") if t.signed else ("bit<>", "DYNAMIC_UNSIGNED_BITFIELD", "-")
    elif isinstance(t, Int):
        c = t.code
        if ":" in c:
            n, k, b = c, "FIXED_%s_BITFIELD" % ("UNSIGNED" if c[0] == "b" else "SIGNED"), c.split(":")[1]
        else:
            n, k, b = c, c.upper(), SIMPLE.get(c, "-")
    elif isinstance(t, Float):
        n, k, b = "float%d" % t.bits, "FLOAT%d" % t.bits, t.bits
    elif isinstance(t, Bool):
        n, k, b = "bool", "BOOL", 1
    else:
        n = {Str: "string", Bytes: "bytes", Extern: "extern"}[type(t)]
        k, b = n.upper(), "-"
    return n.replace("<>", "") if lang == "py" else "%s/%s/%s" % (n, k, b)


def normalized(schema, text, lang):
    """Python names subtypes of builtin types, the other languages resolve them: both describe the type."""
    if lang == "py":
        for ds in schema.packages.values():
            for d in ds:
                if isinstance(d, Subtype):
                    text = re.sub(r"(?<=[ :,])%s\.%s(?=[ :,>;]|$)" % (re.escape(d.pkg), d.name), ref(d, lang), text)
    return text


class Walk:
    def __init__(self, lang):
        self.lang, self.seen, self.lines = lang, set(), set()

    def use(self, t):
        self.visit(t)
        return ref(t, self.lang)

    def visit(self, t):
        py = self.lang == "py"
        t = t.base() if isinstance(t, Type) else t
        if not isinstance(t, (Enum, Bitmask, Compound, zsql.Table, zsql.Db, zrpc.Service, zrpc.Pubsub)):
            return
        n = "%s.%s" % (t.pkg, t.name)
        if n in self.seen:
            return
        self.seen.add(n)
        if isinstance(t, (Enum, Bitmask)):
            u = t.under.base()
            s = "%s %s %s n%d" % (type(t).__name__.upper(), n, ref(u, self.lang), isinstance(u, DynBit))
            for i in t.items:
                s += " %s=%d" % (i[0], i[1])
                if isinstance(t, Enum):
                    s += {"": "", "deprecated": "D", "removed": "R"}[i[2]]
        elif isinstance(t, zsql.Table):
            s = "SQL_TABLE %s {%s} {%s} %s" % (n, t.constraint, t.using or "", "norowid" if t.norowid else "rowid")
            for c in t.cols:
                s += " F%s:%s:n%d,%s,{%s}%s" % (c.name, self.use(c.type), len(c.args), c.sqltype(), c.constraint,
                                                ",virtual" if c.virtual else "")
        elif isinstance(t, zsql.Db):
            s = "SQL_DATABASE " + n
            for name, tab in t.tables:
                self.visit(tab)
                s += " T%s:%s%s" % (name, tab.full, "" if py else "/SQL_TABLE")
        elif isinstance(t, zrpc.Service):
            s = "SERVICE " + n
            for m, q, r in t.methods:
                s += " M%s:%s,%s" % (m, self.use(r), self.use(q))
        elif isinstance(t, zrpc.Pubsub):
            s = "PUBSUB " + n
            for m, x, k, topic, _ in t.messages:
                s += " M%s:%s,%s,{%s}" % (m, self.use(x), {"p": "p", "s": "s", "b": "ps"}[k], topic)
        else:
            s = self.compound(t, n)
        self.lines.add(s)

    def compound(self, t, n):
        py, cpp = self.lang == "py", self.lang == "cpp"
        k = t.kind.upper()
        s = "%s %s" % ("COMPOUND" if py and k == "STRUCT" else k, n)
        if t.template:
            s += " <%s%s>" % (t.pkg + "." + t.template[0].name, "".join(" " + self.use(a) for a in t.template[1]))
        for pt, pn in t.params:
            s += " P%s:%s" % (pn, self.use(pt))
        for f in t.fields:
            if isinstance(f.type, Nothing):
                continue
            b = f.type.base()
            na = len(f.args) if b.is_compound else int(isinstance(b, DynBit))
            s += " F%s:%s:n%d" % (f.name, self.use(b), na)
            if f.extend:
                s += ",ext"
            if f.align:
                s += ",align" + ("" if cpp else str(f.align))
            if f.offset is not None:
                s += ",offset"
            if f.init is not None:
                s += ",init" + ("" if cpp else tok_simple(b, f.init[1]))
            if f.optional is not None:
                s += ",optional" + (",if" if f.optional is not True else "")
            if f.constraint is not None:
                s += ",constraint"
            if f.array:
                s += ",array"
                if f.array == "fixed":
                    s += ",length"
                if self.packed(f):
                    s += ",packed"
                if f.array == "implicit":
                    s += ",implicit"
        for rt, fn, e in t.funcs:
            s += " U%s:%s" % (fn, self.use(rt))
        if t.kind == "choice":
            s += " on"
            groups = t.fields
            for f in sorted(groups, key=lambda f: f.cases is None):
                name = "-" if isinstance(f.type, Nothing) else f.name
                cs = f.cases or []
                s += " C%s:%s" % (len(cs) if cpp else ",".join(str(int(v)) for _, v in cs), name)
        return s

    def packed(self, f):
        return f.packed


def expected(t, lang):
    w = Walk(lang)
    w.visit(t)
    return "; ".join(sorted(w.lines))


def num(v):
    return str(int(v))


def arg_tok(t, v):
    t = t.base()
    return "o" if t.is_compound else tok_simple(t, v)


def evaluated(v, lang):
    out = []

    def walk(v):
        t = v.t
        out.append("{")
        out.append("%s.%s" % (t.pkg, t.name))
        ctx = Ctx(v)
        if t.kind == "choice" and lang == "py":
            out.append("on" + num(t.on.ev(ctx)))
        ext = 0
        for f in t.fields:
            if isinstance(f.type, Nothing) or t.kind != "struct" and f.name != v.sel:
                continue
            if f.extend:
                ext += 1
                if ext > v.ext:
                    break
            x = v.f.get(f.name)
            out.append(f.name)
            if f.optional is not None and f.optional is not True:
                out.append("if" + num(f.optional.ev(ctx)))
            if x is None:
                out.append("n")
                continue
            if f.constraint is not None:
                out.append("c" + num(f.constraint.ev(ctx)))
            if f.array == "fixed":
                out.append("l" + num(f.length.ev(ctx)))
            b = f.type.base()
            for k, e in enumerate(x if f.array else [x]):
                c = Ctx(v, k if f.array else None)
                if f.offset is not None:
                    out.append("o" + num(f.offset.ev(c)))
                if isinstance(b, DynBit):
                    out.append("ai%d" % b.expr.ev(c))
                elif b.is_compound:
                    for (pt, _), a in zip(b.params, f.args):
                        out.append("a" + arg_tok(pt, a.ev(c)))
                    walk(e)
        for rt, fn, e in t.funcs:
            out.append("%s=%s" % (fn, arg_tok(rt, e.ev(ctx))))
        out.append("}")
    walk(v)
    return " ".join(out)


def decls(schema):
    return [d for n in schema.order for d in schema.packages[n] if isinstance(d, (zsql.Table, zsql.Db, zrpc.Service, zrpc.Pubsub))]


def cpp_driver(real, schema, only=None):
    """The usual driver with the type info of tables, databases, services and pubsubs."""
    s = real(schema, only)
    inc, add = "", ""
    for d in decls(schema):
        n = "%s.%s" % (d.pkg, d.name)
        inc += '#include "%s/%s.h"\n' % (d.pkg.replace(".", "/"), d.name)
        add += '    t["TI %s"] = [](const Args&) { return types::all(::%s::typeInfo()); };\n' % (n, n.replace(".", "::"))
    return inc + s.replace("    return loop(t);", add + "    return loop(t);")


class Reflected(Dump):
    """Reflection does not tell an optional field which is not set from an extended one which is not there."""

    def val(self, v):
        n = v.t.num_extended()
        if v.ext == n or v.t.kind != "struct":
            return Dump.val(self, v)
        Dump.val(self, v)
        self.out.pop()
        i = 0
        for f in v.t.fields:
            i += f.extend
            if f.extend and i > v.ext:
                if f.optional is None:
                    break
                self.out += [f.name, "n"]
        self.out.append("}")


def reflected(v):
    d = Reflected()
    d.val(v)
    return " ".join(d.out)
