"""Walker, walk filters and tree creator of the Python runtime."""
import enum
import struct

import zserio
from zserio.exception import PythonRuntimeException
from zserio.typeinfo import TypeAttribute as T, MemberAttribute as M




def tok(v):
    if v is None:
        return "n"
    if isinstance(v, bool):
        return "b1" if v else "b0"
    if isinstance(v, int):
        return "i%d" % v
    if isinstance(v, float):
        return "dnan" if v != v else "d" + struct.pack(">d", v).hex()
    if isinstance(v, str):
        return "s" + v.encode("utf-8", "surrogatepass").hex()
    if isinstance(v, (bytes, bytearray, memoryview)):
        return "y" + bytes(v).hex()
    if isinstance(v, zserio.BitBuffer):
        return "x%d:%s" % (v.bitsize, D.tok("x", v).split(":")[1])
    if isinstance(v, enum.Enum):
        return "e%d" % v.value
    if hasattr(v, "value"):
        return "m%d" % v.value
    return "o"


def idx(i):
    return "-" if i is None else str(i)


class Observer(zserio.WalkObserver):
    def __init__(self, out):
        self.out = out

    def begin_root(self, o):
        self.out.append("R" + type(o).type_info().schema_name)

    def end_root(self, o):
        self.out.append("r" + type(o).type_info().schema_name)

    def begin_array(self, a, m):
        self.out.append("A%s:%d" % (m.schema_name, len(a)))

    def end_array(self, a, m):
        self.out.append("a%s:%d" % (m.schema_name, len(a)))

    def begin_compound(self, o, m, i=None):
        self.out.append("C%s:%s:%s" % (m.schema_name, idx(i), type(o).type_info().schema_name))

    def end_compound(self, o, m, i=None):
        self.out.append("c%s:%s:%s" % (m.schema_name, idx(i), type(o).type_info().schema_name))

    def visit_value(self, v, m, i=None):
        self.out.append("V%s:%s:%s" % (m.schema_name, idx(i), tok(v)))


class Custom(zserio.WalkFilter):
    def __init__(self, no, out):
        self.no, self.out, self.n = no, out, 0

    def decide(self, what, m, i):
        self.out.append("?%s%s:%s" % (what, m.schema_name, idx(i)))
        self.n += 1
        return self.n - 1 not in self.no

    def before_array(self, a, m):
        return self.decide("A", m, None)

    def after_array(self, a, m):
        return self.decide("a", m, None)

    def before_compound(self, o, m, i=None):
        return self.decide("C", m, i)

    def after_compound(self, o, m, i=None):
        return self.decide("c", m, i)

    def before_value(self, v, m, i=None):
        return self.decide("V", m, i)

    def after_value(self, v, m, i=None):
        return self.decide("v", m, i)


def one(spec, out):
    k, r = spec[0], spec[1:]
    if k == "D":
        return zserio.DepthWalkFilter(int(r))
    if k == "L":
        return zserio.ArrayLengthWalkFilter(int(r))
    if k == "X":
        return zserio.RegexWalkFilter(bytes.fromhex(r).decode())
    if k == "N":
        return zserio.walker.DefaultWalkFilter()
    return Custom(set(int(x) for x in r.split(",") if x), out)


def cmd_wk(a):
    o = D.object_of(D.TYPES[a[0]], a[1])
    out = []
    if a[2] == "-":
        w = zserio.Walker(Observer(out))
    elif a[2].startswith("&"):
        w = zserio.Walker(Observer(out), zserio.AndWalkFilter([one(s, out) for s in a[2][1:].split("&") if s]))
    else:
        w = zserio.Walker(Observer(out), one(a[2], out))
    w.walk(o)
    return [" ".join(out)]


def value(i, t):
    k, r = t[0], t[1:]
    if k == "n":
        return None
    if k == "i":
        return int(r)
    if k == "b":
        return r == "1"
    if k == "d":
        return float("nan") if r == "nan" else struct.unpack(">d", bytes.fromhex(r))[0]
    if k == "s":
        return bytes.fromhex(r).decode("utf-8", "surrogatepass")
    if k == "y":
        return bytearray.fromhex(r)
    if k == "x":
        n, h = r.split(":")
        return zserio.BitBuffer(bytes.fromhex(h), int(n))
    if k == "e":
        return i.py_type(int(r))
    return i.py_type.from_value(int(r))


def cmd_tc(a):
    t = D.TYPES[a[0]]
    c = zserio.ZserioTreeCreator(t.cls.type_info())
    out = []
    for s in a[1].split(" "):
        p = s.split("=")
        try:
            k = p[0]
            if k == "R":
                c.begin_root()
            elif k == "r":
                o = c.end_root()
                w = zserio.BitStreamWriter()
                o.initialize_offsets(0)
                o.write(w)
                out.append("%d:%s" % (w.bitposition, w.byte_array.hex()))
                continue
            elif k == "A":
                c.begin_array(p[1])
            elif k == "a":
                c.end_array()
            elif k == "C":
                c.begin_compound(p[1])
            elif k == "c":
                c.end_compound()
            elif k == "V":
                i = None
                if p[2][0] in "em":
                    i = c.get_field_type(p[1])
                c.set_value(p[1], value(i, p[2]))
            elif k == "E":
                c.begin_compound_element()
            elif k == "e":
                c.end_compound_element()
            elif k == "v":
                i = None
                if p[1][0] in "em":
                    i = c.get_element_type()
                c.add_value_element(value(i, p[1]))
            elif k == "T":
                out.append(c.get_field_type(p[1]).schema_name)
                continue
            elif k == "t":
                out.append(c.get_element_type().schema_name)
                continue
            out.append(".")
        except PythonRuntimeException:
            out.append("x")
    return [" ".join(out)]


CMDS = {"WK": cmd_wk, "TC": cmd_tc}
