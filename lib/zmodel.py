"""Independent reference model of zserio: schema IR, .zs printer, encoder, decoder, layout and default values.

Written from doc/ZserioEncodingGuide.md and doc/ZserioLanguageOverview.md; it shares no code with /repo.
"""
import struct


class Reject(Exception):
    """The data violates the schema (the model's verdict)."""


class Unsure(Exception):
    """The model does not define the outcome (e.g. text which is no UTF-8)."""


# ------------------------------------------------------------------ bits

class BitW:
    def __init__(self, pos=0):
        self.v = 0
        self.n = 0
        self.base = pos          # position in the stream of the first bit
        self.chunks = []

    @property
    def pos(self):
        return self.base + self.n

    def put(self, value, nbits):
        if nbits == 0:
            return
        assert 0 <= value < (1 << nbits), (value, nbits)
        self.v = (self.v << nbits) | value
        self.n += nbits

    def align(self, a):
        if a:
            r = (-self.pos) % a
            if r:
                self.put(0, r)

    def bits(self):
        return self.n, self.v


class BitR:
    def __init__(self, nbits, value, limit=None):
        self.n = nbits
        self.v = value
        self.p = 0

    def get(self, nbits):
        if self.p + nbits > self.n:
            raise Reject("end of stream")
        self.p += nbits
        return (self.v >> (self.n - self.p)) & ((1 << nbits) - 1)

    def align(self, a):
        if a:
            r = (-self.p) % a
            if self.p + r > self.n:
                raise Reject("end of stream in padding")
            self.p += r


def to_bytes(nbits, value):
    pad = (-nbits) % 8
    return (value << pad).to_bytes((nbits + pad) // 8, "big")


def from_bytes(data, nbits=None):
    v = int.from_bytes(data, "big")
    n = len(data) * 8
    if nbits is not None:
        v >>= n - nbits
        n = nbits
    return n, v


# ------------------------------------------------------------------ types

class Type:
    is_compound = False
    packable = False

    def base(self):
        return self


# (first byte value bits, max bytes, signed, last byte has 8 bits)
VARS = {
    "varint16": (True, [6, 14], 2), "varint32": (True, [6, 13, 20, 28], 4),
    "varint64": (True, [6, 13, 20, 27, 34, 41, 48, 56], 8),
    "varint": (True, [6, 13, 20, 27, 34, 41, 48, 55, 63], 9),
    "varuint16": (False, [7, 15], 2), "varuint32": (False, [7, 14, 21, 29], 4),
    "varuint64": (False, [7, 14, 21, 28, 35, 42, 49, 57], 8),
    "varuint": (False, [7, 14, 21, 28, 35, 42, 49, 56, 64], 9),
    "varsize": (False, [7, 14, 21, 28, 36], 5),
}
VARSIZE_MAX = (1 << 31) - 1


class Int(Type):
    packable = True
    _cache = {}

    def __init__(self, code):
        self.code = code
        self.var = code in VARS
        if self.var:
            self.signed = VARS[code][0]
            nb = VARS[code][1][-1]
            if code == "varsize":
                self.lo, self.hi = 0, VARSIZE_MAX
            elif code == "varint":
                self.lo, self.hi = -(1 << 63), (1 << 63) - 1
            elif self.signed:
                self.lo, self.hi = -((1 << nb) - 1), (1 << nb) - 1
            else:
                self.lo, self.hi = 0, (1 << nb) - 1
            self.bits = None
        else:
            if ":" in code:
                k, n = code.split(":")
                self.signed = k == "int"
                self.bits = int(n)
            else:
                self.signed = not code.startswith("u")
                self.bits = int(code.lstrip("uint"))
            if self.signed:
                self.lo, self.hi = -(1 << (self.bits - 1)), (1 << (self.bits - 1)) - 1
            else:
                self.lo, self.hi = 0, (1 << self.bits) - 1

    def zs(self):
        return self.code

    def size(self, v):
        if not self.var:
            return self.bits
        return 8 * self.nbytes(v)

    def nbytes(self, v):
        if self.code == "varint" and v == -(1 << 63):
            return 1
        a = abs(v)
        for i, nb in enumerate(VARS[self.code][1]):
            if a < (1 << nb):
                return i + 1
        raise Reject("out of range")

    def check(self, v):
        if not (self.lo <= v <= self.hi):
            raise Reject("out of range %s: %d" % (self.code, v))

    def write(self, w, v):
        self.check(v)
        if not self.var:
            w.put(v & ((1 << self.bits) - 1), self.bits)
            return
        signed, limits, maxb = VARS[self.code]
        if self.code == "varint" and v == -(1 << 63):
            w.put(0x80, 8)
            return
        n = self.nbytes(v)
        a = abs(v)
        # build from the last byte to the first
        out = []
        rest = a
        for i in range(n - 1, -1, -1):
            last = i == maxb - 1
            if i == 0:
                nb = 6 if signed else 7
                byte = rest & ((1 << nb) - 1)
                if n > 1:
                    byte |= 1 << nb
                if signed and v < 0:
                    byte |= 0x80
                rest >>= nb
            else:
                nb = 8 if last else 7
                byte = rest & ((1 << nb) - 1)
                if not last and i < n - 1:
                    byte |= 0x80
                rest >>= nb
            out.append(byte)
        assert rest == 0
        for b in reversed(out):
            w.put(b, 8)

    def read(self, r):
        if not self.var:
            v = r.get(self.bits)
            if self.signed and v >> (self.bits - 1):
                v -= 1 << self.bits
            return v
        signed, limits, maxb = VARS[self.code]
        b = r.get(8)
        nb = 6 if signed else 7
        neg = signed and b & 0x80
        v = b & ((1 << nb) - 1)
        more = b & (1 << nb)
        i = 1
        while more:
            b = r.get(8)
            if i == maxb - 1:
                v = v << 8 | b
                more = 0
            else:
                v = v << 7 | (b & 0x7f)
                more = b & 0x80
            i += 1
        if self.code == "varsize" and v > VARSIZE_MAX:
            raise Reject("varsize")
        if neg:
            if v == 0:
                # one byte 0x80 is INT64_MIN for varint; longer encodings of -0 are not written by anyone
                if self.code == "varint" and i == 1:
                    return -(1 << 63)
                return 0
            v = -v
        return v


class DynBit(Type):
    """bit<expr> / int<expr>"""
    packable = True

    def __init__(self, signed, expr, maxbits=64):
        self.signed = signed
        self.expr = expr

    def zs(self):
        return "%s<%s>" % ("int" if self.signed else "bit", self.expr.zs())

    def inst(self, ctx):
        n = self.expr.ev(ctx)
        if n < 1 or n > 64:
            raise Unsure("dynamic bit field length %d" % n)
        return Int("%s:%d" % ("int" if self.signed else "bit", n))


class Bool(Type):
    def zs(self):
        return "bool"

    def write(self, w, v):
        w.put(1 if v else 0, 1)

    def read(self, r):
        return bool(r.get(1))


class Str(Type):
    def zs(self):
        return "string"

    def write(self, w, v):
        b = v.encode("utf-8", "surrogatepass")
        VARSIZE.write(w, len(b))
        w.put(int.from_bytes(b, "big"), 8 * len(b))

    def read(self, r):
        n = VARSIZE.read(r)
        b = r.get(8 * n).to_bytes(n, "big") if n else b""
        try:
            return b.decode("utf-8")
        except UnicodeDecodeError:
            raise Unsure("no UTF-8")


class Bytes(Type):
    def zs(self):
        return "bytes"

    def write(self, w, v):
        VARSIZE.write(w, len(v))
        w.put(int.from_bytes(v, "big"), 8 * len(v))

    def read(self, r):
        n = VARSIZE.read(r)
        return r.get(8 * n).to_bytes(n, "big") if n else b""


class Extern(Type):
    """value: (number of bits, integer)"""

    def zs(self):
        return "extern"

    def write(self, w, v):
        VARSIZE.write(w, v[0])
        w.put(v[1], v[0])

    def read(self, r):
        n = VARSIZE.read(r)
        return (n, r.get(n))


def f16_from_bits(b):
    return struct.unpack(">e", b.to_bytes(2, "big"))[0]


class Float(Type):
    """Values are held as the bit pattern in the width of the type (so that NaNs are exact)."""

    def __init__(self, bits):
        self.bits = bits

    def zs(self):
        return "float%d" % self.bits

    def write(self, w, v):
        w.put(v, self.bits)

    def read(self, r):
        return r.get(self.bits)

    def to_double(self, v):
        return struct.unpack({16: ">e", 32: ">f", 64: ">d"}[self.bits], v.to_bytes(self.bits // 8, "big"))[0]

    def from_double(self, d):
        return int.from_bytes(struct.pack({16: ">e", 32: ">f", 64: ">d"}[self.bits], d), "big")

    def is_nan(self, v):
        d = self.to_double(v)
        return d != d


class Enum(Type):
    packable = True

    def __init__(self, pkg, name, basetype, items):
        self.pkg, self.name, self.under = pkg, name, basetype
        self.items = items      # [(name, value, annotation '' | 'removed' | 'deprecated', explicit)]
        self.values = {i[1] for i in items}
        self.removed = {i[1] for i in items if i[2] == "removed"}

    def zs(self):
        return self.name

    def decl(self):
        o = []
        for i in self.items:
            n, v, a, explicit = i
            txt = getattr(i, "txt", None) or "%d" % v
            o.append("    %s%s%s" % ("@" + a + " " if a else "", n, " = " + txt if explicit else ""))
        return "enum %s %s\n{\n%s\n};\n" % (self.under.zs(), self.name, ",\n".join(o))

    def check(self, v):
        if v not in self.values or v in self.removed:
            raise Reject("enum")

    def write(self, w, v):
        self.check(v)
        self.under.write(w, v)

    def read(self, r):
        v = self.under.read(r)
        if v not in self.values:
            raise Reject("enum")
        return v


class Bitmask(Type):
    packable = True

    def __init__(self, pkg, name, basetype, items):
        self.pkg, self.name, self.under, self.items = pkg, name, basetype, items  # items (name, value, explicit)

    def zs(self):
        return self.name

    def decl(self):
        o = ["    %s%s" % (n, " = %d" % v if e else "") for n, v, e in self.items]
        return "bitmask %s %s\n{\n%s\n};\n" % (self.under.zs(), self.name, ",\n".join(o))

    def write(self, w, v):
        self.under.write(w, v)

    def read(self, r):
        return self.under.read(r)


class Subtype(Type):
    def __init__(self, pkg, name, target):
        self.pkg, self.name, self.target = pkg, name, target

    def zs(self):
        return self.name

    def decl(self):
        return "subtype %s %s;\n" % (self.target.zs(), self.name)

    def base(self):
        return self.target.base()


class TParam(Type):
    packable = True

    def __init__(self, name):
        self.name = name

    def zs(self):
        return self.name


VARSIZE = Int("varsize")
BOOL, STR, BYTES, EXTERN = Bool(), Str(), Bytes(), Extern()


class Field:
    def __init__(self, name, type, args=(), array=None, length=None, packed=False, optional=None, align=None,
                 offset=None, init=None, constraint=None, extend=False, doc=None, cases=None):
        self.name, self.type, self.args = name, type, list(args)
        self.array = array          # None | 'auto' | 'fixed' | 'implicit'
        self.length = length        # expression for 'fixed'
        self.packed = packed
        self.optional = optional    # None | True ('optional' keyword) | expression
        self.align = align
        self.offset = offset        # Path expression, possibly ending in an Index
        self.init = init            # (zs text, value)
        self.constraint = constraint
        self.extend = extend
        self.cases = cases          # for choices: list of (zs text, value), None for default
        self.used_as_offset = False
        self.role = None            # generator hint
        self.doc = doc

    def zs(self, indent="    "):
        s = indent
        if self.doc:
            s = "".join(indent + l + "\n" for l in self.doc.split("\n")) + indent
        if self.align:
            s += "align(%d):\n%s" % (self.align, indent)
        if self.offset is not None:
            s += "%s:\n%s" % (self.offset.zs(), indent)
        if self.extend:
            s += "extend "
        if self.optional is True:
            s += "optional "
        if self.packed:
            s += "packed "
        if self.array == "implicit":
            s += "implicit "
        s += self.type.zs()
        if self.args:
            s += "(%s)" % ", ".join(a.zs() for a in self.args)
        s += " " + self.name
        if self.array:
            s += "[%s]" % (self.length.zs() if self.array == "fixed" else "")
        if self.init is not None:
            s += " = " + self.init[0]
        if self.optional is not None and self.optional is not True:
            s += " if " + self.optional.zs()
        if self.constraint is not None:
            s += " : " + self.constraint.zs()
        return s + ";"

    def elem(self):
        return self.type.base()

    def packable(self, seen=()):
        if self.used_as_offset or self.array == "implicit":
            return False
        return type_packable(self.type.base(), seen)


def type_packable(t, seen=()):
    if t.is_compound:
        if t.kind == "union":
            return bool(t.fields)
        for f in t.fields:
            ft = f.type.base()
            if ft is t or ft in seen:
                continue
            if f.packable(tuple(seen) + (t,)):
                return True
        return False
    return t.packable


class Compound(Type):
    is_compound = True

    def __init__(self, kind, pkg, name, params=(), fields=(), funcs=(), on=None, template=None, doc=None):
        self.kind, self.pkg, self.name = kind, pkg, name
        self.params = list(params)      # [(type, name)]
        self.fields = list(fields)
        self.funcs = list(funcs)        # [(return type, name, expression)]
        self.on = on                    # choice selector
        self.template = template        # None | (template compound, [argument types], explicit name or None)
        self.tparams = []               # names, for template definitions
        self.doc = doc

    def zs(self):
        if self.template and not self.template[2]:
            return "%s<%s>" % (self.template[0].name, ", ".join(a.zs() for a in self.template[1]))
        return self.name

    def field(self, name):
        for f in self.fields:
            if f.name == name:
                return f
        return None

    def decl(self):
        if self.template:
            if self.template[2]:
                return "instantiate %s<%s> %s;\n" % (self.template[0].name,
                                                     ", ".join(a.zs() for a in self.template[1]), self.name)
            return ""
        s = (self.doc + "\n") if self.doc else ""
        s += {"struct": "struct", "choice": "choice", "union": "union"}[self.kind] + " " + self.name
        if self.tparams:
            s += "<%s>" % ", ".join(self.tparams)
        if self.params:
            s += "(%s)" % ", ".join("%s %s" % (t.zs(), n) for t, n in self.params)
        if self.kind == "choice":
            s += " on " + self.on.zs()
        s += "\n{\n"
        for f in self.fields:
            if self.kind == "choice":
                if f.cases is None:
                    s += "    default:\n"
                else:
                    for txt, _ in f.cases:
                        s += "    case %s:\n" % txt
                if isinstance(f.type, Nothing):
                    s += "        ;\n"
                    continue
                s += f.zs("        ") + "\n"
            else:
                s += f.zs() + "\n"
        for rt, n, e in self.funcs:
            s += "\n    function %s %s()\n    {\n        return %s;\n    }\n" % (rt.zs(), n, e.zs())
        return s + "};\n"

    def num_extended(self):
        return sum(1 for f in self.fields if f.extend)


class Nothing(Type):
    def zs(self):
        return ""


NOTHING = Nothing()


# ------------------------------------------------------------------ values

class Val:
    """Value of a compound: fields by name (missing = absent optional / not selected / not present extended)."""
    __slots__ = ("t", "params", "f", "ext", "sel", "parent", "info")

    def __init__(self, t, params=(), f=None, ext=None, sel=None):
        self.t, self.params = t, list(params)
        self.f = {} if f is None else f
        self.ext = t.num_extended() if ext is None else ext   # number of present extended fields
        self.sel = sel                                        # selected field name (choice, union)

    def __eq__(self, o):
        return (isinstance(o, Val) and self.t is o.t and self.params == o.params and self.ext == o.ext and
                self.sel == o.sel and self.f == o.f)

    __hash__ = None

    def __repr__(self):
        return "%s(%s|%s)" % (self.t.name, self.params, self.f)


class Ctx:
    def __init__(self, val, index=None):
        self.val, self.index = val, index


# ------------------------------------------------------------------ expressions

class E:
    def __init__(self, txt, fn, deps=()):
        self._txt, self._fn, self.deps = txt, fn, deps

    def zs(self):
        return self._txt

    def ev(self, ctx):
        return self._fn(ctx)

    def __repr__(self):
        return "E(%s)" % self._txt


def spell(v):
    """A literal in one of its forms."""
    if not 0 <= v <= 0x7fffffff:
        return str(v)
    k = v % 7
    if k in (0, 2) and v or "0" in "%o" % v and v // 8 % 2 == 0 and v:
        return "0%o" % v
    if k == 1 and v > 1:
        return "0x%x" % v if v % 2 else "0X%X" % v
    if k == 3 and v < 256:
        return "{:b}b".format(v)
    return str(v)


def lit(v):
    if isinstance(v, bool):
        return E("true" if v else "false", lambda c: v)
    return E(spell(v) if isinstance(v, int) else str(v), lambda c: v)


class Missing(Exception):
    pass


def lookup(val, name):
    for (t, n), pv in zip(val.t.params, val.params):
        if n == name:
            return pv
    if name in val.f:
        return val.f[name]
    f = val.t.field(name)
    if f is None:
        raise KeyError(name)
    raise Missing(name)


class Path(E):
    """field or parameter path a.b.c[, [@index]]"""

    def __init__(self, names, index=False):
        self.names, self.index = list(names), index

    def zs(self):
        return ".".join(self.names) + ("[@index]" if self.index else "")

    def ev(self, ctx):
        v = ctx.val
        for n in self.names:
            v = lookup(v, n)
        if self.index:
            v = v[ctx.index]
        return v

    def set(self, ctx, value):
        v = ctx.val
        for n in self.names[:-1]:
            v = lookup(v, n)
        n = self.names[-1]
        if self.index:
            v.f[n][ctx.index] = value
        else:
            v.f[n] = value

    def target(self, comp):
        """The field which is referenced."""
        t = comp
        f = None
        for n in self.names:
            f = t.field(n)
            if f is None:
                t = dict((pn, pt) for pt, pn in t.params)[n].base()
            else:
                t = f.type.base()
        return f


# ------------------------------------------------------------------ packing

class Delta:
    def __init__(self):
        self.n = 0
        self.first = 0
        self.total = 0
        self.maxbits = 0
        self.packed = False
        self.prev = None
        self.state = "init"

    def init(self, t, v):
        self.n += 1
        sz = t.size(v)
        self.total += sz
        if self.prev is None:
            self.first = sz
        elif self.maxbits <= 62:
            self.packed = True
            d = abs(v - self.prev)
            self.maxbits = max(self.maxbits, d.bit_length())
            if self.maxbits > 62:
                self.packed = False
        self.prev = v

    def finish(self):
        if self.packed:
            db = self.maxbits + (1 if self.maxbits else 0)
            if 1 + 6 + self.first + (self.n - 1) * db >= 1 + self.total:
                self.packed = False
        self.state = "ready"
        self.prev = None

    def write(self, w, t, v):
        if self.state == "init":
            self.finish()
            w.put(1 if self.packed else 0, 1)
            if self.packed:
                w.put(self.maxbits, 6)
            t.write(w, v)
        elif not self.packed:
            t.write(w, v)
        elif self.maxbits:
            t.check(v)
            d = v - self.prev
            w.put(d & ((1 << (self.maxbits + 1)) - 1), self.maxbits + 1)
        self.prev = v

    def read(self, r, t):
        if self.state == "init":
            self.packed = bool(r.get(1))
            if self.packed:
                self.maxbits = r.get(6)
            self.state = "ready"
            v = t.read(r)
        elif not self.packed:
            v = t.read(r)
        elif self.maxbits:
            n = self.maxbits + 1
            d = r.get(n)
            if d >> (n - 1):
                d -= 1 << n
            v = self.prev + d
            if not t.lo <= v <= t.hi:
                # arithmetic beyond the element type: what is delivered is not defined
                raise Unsure("delta overflow")
        else:
            v = self.prev
        self.prev = v
        return v


class PackCtx:
    """Contexts of one element type inside of one packed array."""

    def __init__(self):
        self.tag = Delta()
        self.sub = {}

    def delta(self, name):
        return self.sub.setdefault(name, Delta())

    def child(self, name, f, parent):
        """Context of the compound field f; a directly recursive field shares the context of its parent."""
        if f.elem() is parent:
            return self
        return self.sub.setdefault(name, PackCtx())


def leaf_int(t, ctx):
    """Integer type which stores the value of the simple packable type."""
    if isinstance(t, (Enum, Bitmask)):
        return leaf_int(t.under, ctx)
    if isinstance(t, DynBit):
        return t.inst(ctx)
    return t


class _Chk(Int):
    """Integer type with a check of the schema type around (enum)."""


# ------------------------------------------------------------------ encoder

MAX_ELEMS = 1 << 17


class Encoder:
    """One pass over a value. mode 'layout' assigns offsets, mode 'write' checks everything and writes."""

    def __init__(self, pos=0, layout=False, check=True):
        self.w = BitW(pos)
        self.layout = layout
        self.check = check

    def simple(self, t, v, ctx):
        t = t.base()
        if isinstance(t, DynBit):
            t = t.inst(ctx)
        t.write(self.w, v)

    def compound(self, v, pc=None):
        start = self.w.pos
        self.content(v, pc)
        v.info = (start, self.w.pos - start)

    def content(self, v, pc=None):
        t = v.t
        w = self.w
        if t.kind == "struct":
            ctx = Ctx(v)
            ext = 0
            for f in t.fields:
                if f.extend:
                    if ext >= v.ext:
                        break
                    ext += 1
                    w.align(8)
                self.field(v, f, ctx, pc)
        elif t.kind == "union":
            if v.sel is None:
                raise Reject("union: nothing selected")
            tag = [f.name for f in t.fields].index(v.sel)
            if pc is not None:
                pc.tag.write(w, VARSIZE, tag)
            else:
                VARSIZE.write(w, tag)
            self.field(v, t.fields[tag], Ctx(v), pc)
        else:
            f = select_case(v)
            if f is None:
                raise Reject("no match in choice")
            if not isinstance(f.type, Nothing):
                if f.name not in v.f:
                    raise Reject("choice: field not set")
                self.field(v, f, Ctx(v), pc)

    def present(self, v, f, ctx):
        if f.optional is None:
            return True
        if f.optional is True:
            return f.name in v.f and v.f[f.name] is not None
        return bool(f.optional.ev(ctx))

    def field(self, v, f, ctx, pc):
        w = self.w
        pres = self.present(v, f, ctx)
        if f.optional is True:
            w.put(1 if pres else 0, 1)
        if not pres:
            return
        x = v.f[f.name]
        if f.align:
            w.align(f.align)
        idx_off = f.offset is not None and f.offset.index
        if f.offset is not None and not idx_off:
            w.align(8)
            self.offset(f, ctx)
        if not self.layout and self.check and f.constraint is not None:
            if not f.constraint.ev(ctx):
                raise Reject("constraint")
        if f.array:
            self.array(v, f, x, ctx, pc, idx_off)
        else:
            self.element(f, x, ctx, pc, f.name)

    def offset(self, f, ctx):
        if self.w.pos % 8:
            raise AssertionError
        b = self.w.pos // 8
        if self.layout:
            tf = f.offset.target(ctx.val.t)
            tf.type.base().check(b)
            f.offset.set(ctx, b)
        else:
            if self.check and f.offset.ev(ctx) != b:
                raise Reject("offset")

    def element(self, f, x, ctx, pc, key):
        t = f.elem()
        if t.is_compound:
            if pc is not None and f.packable():
                self.compound(x, pc.child(key, f, ctx.val.t) if key is not None else pc)
            else:
                self.compound(x, None)
        elif pc is not None and f.packable():
            d = pc.delta(key)
            if isinstance(t, Enum):
                t.check(x)
            d.write(self.w, leaf_int(t, ctx), x)
        else:
            self.simple(t, x, ctx)

    def array(self, v, f, xs, ctx, pc, idx_off):
        w = self.w
        t = f.elem()
        if f.array == "fixed":
            if len(xs) != f.length.ev(ctx):
                raise Reject("array length")
        elif f.array == "auto":
            VARSIZE.write(w, len(xs))
        packed = (f.packed or pc is not None) and f.packable()
        if packed and xs:
            if t.is_compound:
                apc = PackCtx()
                for x in xs:
                    init_pack(x, apc)
            else:
                d = Delta()
                for i, x in enumerate(xs):
                    d.init(leaf_int(t, Ctx(ctx.val, i)), x)
        for i, x in enumerate(xs):
            ictx = Ctx(ctx.val, i)
            if idx_off:
                w.align(8)
                self.offset(f, ictx)
            if packed:
                if t.is_compound:
                    self.compound(x, apc)
                else:
                    if isinstance(t, Enum):
                        t.check(x)
                    d.write(w, leaf_int(t, ictx), x)
            elif t.is_compound:
                self.compound(x, None)
            else:
                self.simple(t, x, ictx)


def init_pack(v, pc):
    """First pass of a packed array: collects the deltas of one element."""
    t = v.t
    ctx = Ctx(v)
    enc = Encoder()
    if t.kind == "union":
        if v.sel is None:
            raise Reject("union")
        tag = [f.name for f in t.fields].index(v.sel)
        pc.tag.init(VARSIZE, tag)
        fields = [t.fields[tag]]
    elif t.kind == "choice":
        f = select_case(v)
        if f is None:
            raise Reject("no match in choice")
        fields = [] if isinstance(f.type, Nothing) else [f]
    else:
        fields = t.fields
    ext = 0
    for f in fields:
        if f.extend:
            if ext >= v.ext:
                break
            ext += 1
        if f.array or not f.packable():
            continue
        if not enc.present(v, f, ctx):
            continue
        x = v.f[f.name]
        if f.elem().is_compound:
            init_pack(x, pc.child(f.name, f, t))
        else:
            pc.delta(f.name).init(leaf_int(f.elem(), ctx), x)


def select_case(v):
    s = v.t.on.ev(Ctx(v))
    default = None
    for f in v.t.fields:
        if f.cases is None:
            default = f
        elif any(cv == s for _, cv in f.cases):
            return f
    return default


def has_offsets(t, seen=None):
    seen = seen if seen is not None else set()
    if t in seen:
        return False
    seen.add(t)
    for f in t.fields:
        if f.offset is not None:
            return True
        b = f.type.base()
        if b.is_compound and has_offsets(b, seen):
            return True
    return False


def layout(v, pos=0):
    """Initializes all offsets for serialization at the given position; returns the end position."""
    e = Encoder(pos, layout=True)
    e.compound(v)
    return e.w.pos


def encode(v, pos=0, check=True):
    e = Encoder(pos, check=check)
    e.compound(v)
    return e.w.bits()


# ------------------------------------------------------------------ decoder

class Decoder:
    def __init__(self, nbits, value):
        self.r = BitR(nbits, value)
        self.work = 0

    def simple(self, t, ctx):
        t = t.base()
        if isinstance(t, DynBit):
            t = t.inst(ctx)
        return t.read(self.r)

    def compound(self, t, params, pc=None):
        v = Val(t, params, ext=0)
        ctx = Ctx(v)
        r = self.r
        if t.kind == "struct":
            for f in t.fields:
                if f.extend:
                    if (r.p + 7) // 8 * 8 >= r.n:
                        break
                    v.ext += 1
                    r.align(8)
                self.field(v, f, ctx, pc)
            if v.ext < t.num_extended():
                # values of the fields which are not present are the defaults
                pass
        elif t.kind == "union":
            tag = pc.tag.read(r, VARSIZE) if pc is not None else VARSIZE.read(r)
            if tag >= len(t.fields):
                raise Reject("union tag")
            v.sel = t.fields[tag].name
            self.field(v, t.fields[tag], ctx, pc)
        else:
            f = select_case(v)
            if f is None:
                raise Reject("no match in choice")
            if not isinstance(f.type, Nothing):
                v.sel = f.name
                self.field(v, f, ctx, pc)
        return v

    def field(self, v, f, ctx, pc):
        r = self.r
        if f.optional is True:
            if not r.get(1):
                return
        elif f.optional is not None:
            try:
                if not f.optional.ev(ctx):
                    return
            except Missing:
                raise Unsure("optional clause refers to an absent field")
        if f.align:
            r.align(f.align)
        idx_off = f.offset is not None and f.offset.index
        if f.offset is not None and not idx_off:
            r.align(8)
            self.offset(f, ctx)
        if f.array:
            v.f[f.name] = self.array(v, f, ctx, pc, idx_off)
        else:
            v.f[f.name] = self.element(f, ctx, pc)
        if f.constraint is not None and not f.constraint.ev(ctx):
            raise Reject("constraint")

    def offset(self, f, ctx):
        if f.offset.ev(ctx) * 8 != self.r.p:
            raise Reject("offset")

    def args(self, f, ctx):
        return [a.ev(ctx) for a in f.args]

    def element(self, f, ctx, pc):
        t = f.elem()
        if t.is_compound:
            return self.compound(t, self.args(f, ctx),
                                 pc.child(f.name, f, ctx.val.t) if pc is not None and f.packable() else None)
        if pc is not None and f.packable():
            return self.leaf(pc.delta(f.name), t, ctx)
        return self.simple(t, ctx)

    def leaf(self, d, t, ctx):
        x = d.read(self.r, leaf_int(t, ctx))
        if isinstance(t, Enum) and x not in t.values:
            raise Reject("enum")
        return x

    def array(self, v, f, ctx, pc, idx_off):
        r = self.r
        t = f.elem()
        if f.array == "fixed":
            n = f.length.ev(ctx)
            if n < 0:
                raise Unsure("negative array length")
        elif f.array == "auto":
            n = VARSIZE.read(r)
        else:
            it = t
            n = (r.n - r.p) // leaf_int(it, ctx).bits if not isinstance(t, (Bool, Float)) else \
                (r.n - r.p) // (1 if isinstance(t, Bool) else t.bits)
        self.work += n
        if self.work > MAX_ELEMS:
            raise Unsure("too much work")
        packed = (f.packed or pc is not None) and f.packable()
        apc, d = PackCtx(), Delta()
        out = []
        v.f[f.name] = out
        for i in range(n):
            ictx = Ctx(v, i)
            if idx_off:
                r.align(8)
                try:
                    self.offset(f, ictx)
                except IndexError:
                    raise Unsure("offset array too short")
            if t.is_compound:
                out.append(self.compound(t, self.args(f, ictx), apc if packed else None))
            elif packed:
                out.append(self.leaf(d, t, ictx))
            else:
                out.append(self.simple(t, ictx))
        return out


def decode(t, params, nbits, value):
    """Returns (value, number of consumed bits)."""
    d = Decoder(nbits, value)
    v = d.compound(t, params)
    return v, d.r.p


# ------------------------------------------------------------------ neutral text

def tok_simple(t, v):
    t = t.base()
    if isinstance(t, Bool):
        return "b1" if v else "b0"
    if isinstance(t, Str):
        return "s" + v.encode("utf-8", "surrogatepass").hex()
    if isinstance(t, Bytes):
        return "y" + v.hex()
    if isinstance(t, Extern):
        return "x%d:%s" % (v[0], to_bytes(v[0], v[1]).hex())
    if isinstance(t, Float):
        d = t.to_double(v)
        if d != d:
            return "dnan"
        return "d" + struct.pack(">d", d).hex()
    if isinstance(t, Enum):
        return "e%d" % v
    if isinstance(t, Bitmask):
        return "m%d" % v
    return "i%d" % v


def default_value(f):
    """Value of a field which was never set (only what is defined: scalars)."""
    if f.init is not None:
        return f.init[1]
    return None


class Dump:
    """Value as text: `{ Type name value ... }`; with params (for builders) `{ Type ( p ... ) name value ... }`."""

    def __init__(self, with_params=False, info=False):
        self.wp, self.info = with_params, info
        self.out = []
        self.ids = {}

    def val(self, v):
        o = self.out
        o.append("{")
        o.append("%s.%s" % (v.t.pkg, v.t.name))
        if self.info:
            o.append("@%d:%d" % v.info)
        if self.wp:
            self.ids[id(v)] = len(self.ids)
            o.append("(")
            for (pt, pn), pv in zip(v.t.params, v.params):
                b = pt.base()
                if b.is_compound:
                    o.append("r%d" % self.ids[id(pv)])
                else:
                    o.append(tok_simple(b, pv))
            o.append(")")
        fields = v.t.fields
        if v.t.kind != "struct":
            fields = [f for f in fields if f.name == v.sel]
        ext = 0
        for f in fields:
            if f.extend:
                if ext >= v.ext:
                    break
                ext += 1
            o.append(f.name)
            x = v.f.get(f.name)
            if x is None:
                o.append("n")
            elif f.array:
                o.append("[")
                for e in x:
                    self.elem(f, e)
                o.append("]")
            else:
                self.elem(f, x)
        o.append("}")

    def elem(self, f, e):
        if f.elem().is_compound:
            self.val(e)
        else:
            self.out.append(tok_simple(f.elem(), e))


def dump(v, with_params=False):
    d = Dump(with_params)
    d.val(v)
    return " ".join(d.out)


def clone(v, memo=None):
    """Deep copy which keeps the references of compound parameters inside of the copied tree."""
    memo = {} if memo is None else memo

    def c(x):
        if isinstance(x, Val):
            if id(x) in memo:
                return memo[id(x)]
            n = Val(x.t, [], {}, x.ext, x.sel)
            memo[id(x)] = n
            n.params = [c(p) for p in x.params]
            for k, e in x.f.items():
                n.f[k] = c(e)
            return n
        if isinstance(x, list):
            return [c(e) for e in x]
        return x
    return c(v)


# ------------------------------------------------------------------ schema

class Schema:
    """Packages with declarations in order; packages[0] is the root file."""

    def __init__(self):
        self.packages = {}      # name -> list of declarations (anything with decl()), or raw text
        self.imports = {}       # name -> list of import lines
        self.order = []
        self.roots = []         # compounds which can be serialized on their own

    def package(self, name):
        if name not in self.packages:
            self.packages[name] = []
            self.imports[name] = []
            self.order.append(name)
        return name

    def add(self, decl):
        self.packages[decl.pkg].append(decl)
        return decl

    def compounds(self):
        r = []
        for n in self.order:
            for d in self.packages[n]:
                if isinstance(d, Compound) and not d.tparams:
                    r.append(d)
        return r

    def text(self, name):
        s = "package %s;\n\n" % name
        for i in self.imports[name]:
            s += "import %s;\n" % i
        s += "\n"
        for d in self.packages[name]:
            x = d if isinstance(d, str) else d.decl()
            if x:
                s += x + "\n"
        return s

    def write(self, root):
        import os
        for n in self.order:
            p = os.path.join(root, *n.split(".")) + ".zs"
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8") as f:
                f.write(self.text(n))

    def root_file(self):
        return self.order[0].replace(".", "/") + ".zs"


class Const(E):
    def __init__(self, pkg, type, name, txt, value):
        self.pkg, self.type, self.name, self.txt, self.value = pkg, type, name, txt, value

    def zs(self):
        return self.name

    def decl(self):
        return "const %s %s = %s;\n" % (self.type.zs(), self.name, self.txt)

    def ev(self, ctx):
        return self.value
