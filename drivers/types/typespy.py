"""Type information of generated Python code (commands of pydrv.py)."""
import enum
import struct

import zserio
from zserio.typeinfo import MemberAttribute as M
from zserio.typeinfo import TypeAttribute as T



def compound(i):
    return T.FIELDS in i.attributes


def ref(i):
    return i.schema_name


def num(v):
    if isinstance(v, enum.Enum) or hasattr(v, "value"):
        v = v.value
    return str(int(v))


def generic(v):
    if v is None:
        return "n"
    if isinstance(v, bool):
        return "b1" if v else "b0"
    if isinstance(v, int):
        return "i%d" % v
    if isinstance(v, float):
        return "dnan" if v != v else "d" + struct.pack(">d", v).hex()
    if isinstance(v, str):
        return "s" + v.encode("utf-8", "surrogatepass").hex()
    if isinstance(v, enum.Enum):
        return "e%d" % v.value
    if hasattr(v, "value"):
        return "m%d" % v.value
    return "o"


class Walk:
    def __init__(self):
        self.seen, self.lines = set(), set()

    def use(self, i):
        self.visit(i)
        return ref(i)

    def visit(self, i):
        a = i.attributes
        if not a or i.schema_name in self.seen:
            return
        self.seen.add(i.schema_name)
        o = i.schema_name
        for k in (T.ENUM_ITEMS, T.BITMASK_VALUES):
            if k in a:
                u = a[T.UNDERLYING_TYPE]
                o = "%s %s %s n%d" % (k.name.split("_")[0], o, ref(u), len(a.get(T.UNDERLYING_TYPE_ARGUMENTS, [])))
                for it in a[k]:
                    o += " %s=%s%s%s" % (it.schema_name, num(it.py_item), "D" if it.is_deprecated else "",
                                         "R" if it.is_removed else "")
        if T.FIELDS in a:
            kind = "CHOICE" if T.CASES in a else "UNION" if T.SELECTOR in a else "COMPOUND"
            o = "%s %s" % (kind, o)
            o += self.template(a)
            for p in a.get(T.PARAMETERS, []):
                o += " P%s:%s" % (p.schema_name, self.use(p.type_info))
            for f in a[T.FIELDS]:
                o += " F" + self.field(i, f)
            for f in a.get(T.FUNCTIONS, []):
                o += " U%s:%s" % (f.schema_name, self.use(f.type_info))
                if not callable(getattr(i.py_type, f.attributes[M.FUNCTION_NAME])):
                    o += ",nofunction"
            if T.CASES in a:
                o += " on"
                for c in a[T.CASES]:
                    o += " C%s:%s" % (",".join(num(x()) for x in c.case_expressions),
                                      c.field.schema_name if c.field else "-")
        if T.COLUMNS in a:
            o = "SQL_TABLE %s%s {%s} {%s} %s" % (o, self.template(a, False), a.get(T.SQL_CONSTRAINT, ""),
                                                 a.get(T.VIRTUAL_TABLE_USING, ""),
                                                 "norowid" if T.WITHOUT_ROWID in a else "rowid")
            for c in a[T.COLUMNS]:
                m = c.attributes
                o += " F%s:%s:n%d,%s,{%s}%s" % (c.schema_name, self.use(c.type_info), len(m.get(M.TYPE_ARGUMENTS, [])),
                                                m[M.SQL_TYPE_NAME], m.get(M.SQL_CONSTRAINT, ""),
                                                ",virtual" if M.VIRTUAL in m else "")
        if T.TABLES in a:
            o = "SQL_DATABASE " + o
            for t in a[T.TABLES]:
                o += " T%s:%s" % (t.schema_name, self.use(t.type_info))
                if not hasattr(i.py_type, t.attributes[M.PROPERTY_NAME]):
                    o += ",noproperty"
        if T.MESSAGES in a:
            o = "PUBSUB " + o
            for m in a[T.MESSAGES]:
                x = m.attributes
                o += " M%s:%s,%s%s,{%s}" % (m.schema_name, self.use(m.type_info), "p" if M.PUBLISH in x else "",
                                            "s" if M.SUBSCRIBE in x else "", x[M.TOPIC])
                for k in (M.PUBLISH, M.SUBSCRIBE):
                    if k in x and not callable(getattr(i.py_type, x[k])):
                        o += ",nofunction"
        if T.METHODS in a:
            o = "SERVICE " + o
            for m in a[T.METHODS]:
                o += " M%s:%s,%s" % (m.schema_name, self.use(m.type_info), self.use(m.attributes[M.REQUEST_TYPE]))
                if not callable(getattr(i.py_type.Client, m.attributes[M.CLIENT_METHOD_NAME])):
                    o += ",nofunction"
        self.lines.add(o)

    def template(self, a, args=True):
        if T.TEMPLATE_NAME not in a:
            return ""
        return " <%s%s>" % (a[T.TEMPLATE_NAME],
                            "".join(" " + self.use(x) for x in a[T.TEMPLATE_ARGUMENTS]) if args else "")

    def field(self, i, f):
        m = f.attributes
        s = "%s:%s:n%d" % (f.schema_name, self.use(f.type_info), len(m.get(M.TYPE_ARGUMENTS, [])))
        if M.EXTENDED in m:
            s += ",ext"
        if M.ALIGN in m:
            s += ",align%d" % m[M.ALIGN]()
        if M.OFFSET in m:
            s += ",offset"
        if M.INITIALIZER in m:
            v = m[M.INITIALIZER]()
            s += ",init" + generic(float(v) if f.type_info.py_type is float else v)
        if M.OPTIONAL in m:
            s += ",optional"
            if m[M.OPTIONAL] is not None:
                s += ",if"
            for k in (M.IS_USED_INDICATOR_NAME, M.IS_SET_INDICATOR_NAME):
                if not callable(getattr(i.py_type, m[k])):
                    s += ",nofunction"
        if M.CONSTRAINT in m:
            s += ",constraint"
        if M.ARRAY_LENGTH in m:
            s += ",array"
            if m[M.ARRAY_LENGTH] is not None:
                s += ",length"
        if M.PACKED in m:
            s += ",packed"
        if M.IMPLICIT in m:
            s += ",implicit"
        if not hasattr(i.py_type, m[M.PROPERTY_NAME]):
            s += ",noproperty"
        return s


def cmd_ti(a):
    w = Walk()
    w.visit(D.load(a[0]).type_info())
    return ["; ".join(sorted(w.lines))]


def visit(o, i, out):
    at = i.attributes
    out.append("{")
    out.append(i.schema_name)
    if i.py_type is not type(o):
        out.append("!type")
    union = T.SELECTOR in at and T.CASES not in at
    if T.CASES in at:
        out.append("on" + num(at[T.SELECTOR](o)))
    tag = o.choice_tag if T.SELECTOR in at else None
    done = False
    for n, f in enumerate(at[T.FIELDS]):
        m = f.attributes
        if tag is not None and not selected(i, o, n, tag):
            continue
        done = True
        v = getattr(o, m[M.PROPERTY_NAME])
        if M.EXTENDED in m and not getattr(o, "is_%s_present" % m[M.PROPERTY_NAME])():
            break
        out.append(f.schema_name)
        if m.get(M.OPTIONAL) is not None:
            out.append("if" + num(m[M.OPTIONAL](o)))
        if M.OPTIONAL in m and getattr(o, m[M.IS_USED_INDICATOR_NAME])() != (v is not None):
            out.append("!used")
        if v is None:
            out.append("n")
            continue
        if M.CONSTRAINT in m:
            out.append("c" + num(m[M.CONSTRAINT](o)))
        arr = M.ARRAY_LENGTH in m
        if arr and m[M.ARRAY_LENGTH] is not None:
            out.append("l" + num(m[M.ARRAY_LENGTH](o)))
        for k, e in enumerate(v if arr else [v]):
            idx = k if arr else None
            if M.OFFSET in m:
                out.append("o" + num(m[M.OFFSET](o, idx)))
            for x in m.get(M.TYPE_ARGUMENTS, []):
                out.append("a" + generic(x(o, idx)))
            if compound(f.type_info):
                visit(e, f.type_info, out)
            elif not isinstance(e, f.type_info.py_type) and not (f.type_info.py_type is bytes and isinstance(e, (bytearray, memoryview))):
                out.append("!type " + f.type_info.schema_name)
    for f in at.get(T.FUNCTIONS, []):
        x, y = f.attributes[M.FUNCTION_RESULT](o), getattr(o, f.attributes[M.FUNCTION_NAME])()
        out.append("%s=%s" % (f.schema_name, generic(x)))
        if generic(x) != generic(y):
            out.append("!result")
    out.append("}")


def selected(i, o, n, tag):
    """The tag is the number of the field: it must be the one with the constant of its name."""
    return i.attributes[T.FIELDS][n].schema_name == o_tag_name(type(o), tag)


def o_tag_name(cls, tag):
    for k, v in vars(cls).items():
        if k.startswith("CHOICE_") and v == tag and k != "UNDEFINED_CHOICE":
            for f in cls.type_info().attributes[T.FIELDS]:
                if "CHOICE_" + f.attributes[M.PROPERTY_NAME].upper() == k:
                    return f.schema_name
    return None


def cmd_to(a):
    t = D.TYPES[a[0]]
    o = D.object_of(t, a[1])
    out = []
    visit(o, t.cls.type_info(), out)
    return [" ".join(out)]


CMDS = {"TI": cmd_ti, "TO": cmd_to}
