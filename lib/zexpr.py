"""Random expressions of the zserio language with their documented values (Java semantics, exact as long as nothing overflows).

An expression is kept only if all intermediate results of all given objects are representable in the types which C++ and
Java use for it, so its value does not depend on overflow, wrap-around or rounding.
"""
import fractions
import operator

import zmodel
from zmodel import E

# precedence of the grammar, higher binds tighter
ATOM, POST, UN, MUL, ADD, SHIFT, REL, EQ, BAND, BXOR, BOR, LAND, LOR, TERN = 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1

RANGE = {"i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}


# known finding java-biginteger-mix: Java code with such an operator in an expression of BigInteger does not compile
LEAFY = {"dot", "lengthof", "numbits", "valueof", "index", "call", "native shift"}
# known finding cpp-const-builtin: C++ constants with such an operator do not compile
NOCONST = {"numbits", "isset"}
# not evaluated by the compiler, thus refused as values of enumeration items and bitmask values
NOVALUE = {"valueof", "?: int"}


class Bad:
    """A value which is not defined by the language (or not reachable)."""


BAD = Bad()


def ctype_of(t):
    """Type of an arithmetic operand in C++ after promotion."""
    if isinstance(t, zmodel.DynBit):
        return "u64" if not t.signed else "i64"
    lo, hi = t.lo, t.hi
    if isinstance(t, zmodel.Int) and t.code == "varsize":
        return "u32"
    if lo >= 0:
        return "u64" if hi >= 2**32 else "u32" if hi >= 2**16 else "i32"
    return "i64" if hi >= 2**31 else "i32"


def jtype_of(t):
    lo, hi = t.lo, t.hi
    if isinstance(t, zmodel.Int) and t.code == "varsize":
        return "i32"
    if lo >= 0:
        return "big" if hi >= 2**63 else "i64" if hi >= 2**31 else "i32"
    return "i64" if hi >= 2**31 else "i32"


def common(a, b):
    for t in ("u64", "i64", "u32"):
        if t in (a, b):
            return t
    return "i32"


def jcommon(a, b):
    for t in ("big", "i64"):
        if t in (a, b):
            return t
    return "i32"


def fits(t, v):
    if t == "big":
        return True
    lo, hi = RANGE[t]
    return lo <= v <= hi


class X:
    """k: int, bool, float, string, or an Enum/Bitmask type. vals: value per object."""
    __slots__ = ("txt", "prec", "k", "vals", "ct", "jt", "fn", "size", "const", "ops", "fexact")

    def __init__(self, txt, prec, k, fn, ct=None, jt=None, size=1, const=False, ops=()):
        self.txt, self.prec, self.k, self.fn, self.ct, self.jt = txt, prec, k, fn, ct, jt
        self.size, self.const, self.ops = size, const, ops
        self.vals = None

    def on(self, objs):
        if self.vals is None:
            self.vals = [self.fn(o) for o in objs]
        return self.vals

    def par(self, p):
        """Text as operand of an operator which needs the precedence p."""
        return self.txt if self.prec >= p else "(%s)" % self.txt

    def e(self):
        def f(ctx):
            v = self.fn(ctx.val)
            if v is BAD:
                raise zmodel.Unsure("expression %s" % self.txt)
            return v
        return E(self.txt, f)


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def tmod(a, b):
    return a - b * tdiv(a, b)


def strict(fn):
    def f(*a):
        return BAD if any(x is BAD for x in a) else fn(*a)
    return f


def int_lit(rng, v):
    """Spelling of a literal and its types."""
    a = abs(v)
    form = rng.choice(["dec"] * 5 + ["hex", "bin", "oct", "HEX"])
    s = {"dec": "%d" % a, "hex": "0x%x" % a, "bin": bin(a)[2:] + "b", "oct": "0%o" % a if a else "0",
         "HEX": "0X%X" % a}[form]
    if form != "dec" and a > 0x7FFFFFFF:
        s, form = "%d" % a, "dec"
    if form == "bin" and a > 0xFFFF:
        s = "%d" % a
    ct = "i32" if a < 2**31 else "u32" if a < 2**32 else "u64"
    jt = "i32" if a < 2**31 else "i64"
    x = X(s, ATOM, "int", lambda o, a=a: a, ct, jt, const=True, ops=("lit " + form,))
    if v < 0:
        return neg(x)
    return x


def neg(x):
    sp = " " if x.txt.startswith(("-", "+")) else ""

    def fn(o):
        a = x.fn(o)
        if a is BAD or not fits(x.ct, -a) or not fits(x.jt, -a):
            return BAD
        return -a
    return X("-" + sp + x.par(UN), UN, "int", fn, x.ct, x.jt, x.size + 1, x.const, ("neg",) + x.ops)


def checked(ct, jt, fn, conv=True):
    """Both operands and the result have to be representable in the types of the operation."""
    def f(a, b):
        if a is BAD or b is BAD:
            return BAD
        if conv and not (fits(ct, a) and fits(ct, b)):
            return BAD
        r = fn(a, b)
        if r is BAD or not fits(ct, r) or not fits(jt, r):
            return BAD
        return r
    return f


def bin_int(op, a, b):
    ct, jt = common(a.ct, b.ct), jcommon(a.jt, b.jt)
    prec = {"+": ADD, "-": ADD, "*": MUL, "/": MUL, "%": MUL, "&": BAND, "|": BOR, "^": BXOR}[op]
    base = {"+": operator.add, "-": operator.sub, "*": operator.mul, "&": operator.and_, "|": operator.or_,
            "^": operator.xor, "/": lambda x, y: BAD if y == 0 else tdiv(x, y),
            "%": lambda x, y: BAD if y == 0 else tmod(x, y)}[op]
    f = checked(ct, jt, base)
    right = b.par(prec + 1)
    if op in "+-" and right.startswith(("-", "+")):
        right = " " + right
    return X("%s %s %s" % (a.par(prec), op, right), prec, "int", lambda o: f(a.fn(o), b.fn(o)), ct, jt,
             a.size + b.size + 1, a.const and b.const, (op,) + a.ops + b.ops)


def shift(op, a, b):
    def fn(o):
        x, y = a.fn(o), b.fn(o)
        if x is BAD or y is BAD or not 0 <= y <= (30 if a.ct in ("i32", "u32") or a.jt == "i32" else 62):
            return BAD
        r = x << y if op == "<<" else x >> y
        if op == "<<" and x < 0 and y > 29:
            return BAD
        return r if fits(a.ct, r) and fits(a.jt, r) else BAD
    ct = a.ct
    if op == "<<":
        # may be a multiplication with a 64 bit value
        ct = common(a.ct, "i32")
    return X("%s %s %s" % (a.par(SHIFT), op, b.par(SHIFT + 1)), SHIFT, "int", fn, ct, a.jt, a.size + b.size + 1,
             a.const and b.const, (op,) + (() if a.jt == "big" else ("native shift",)) + a.ops + b.ops)


def unary(op, a):
    if op == "-":
        return neg(a)
    sp = " " if a.txt.startswith(op) else ""
    if op == "+":
        return X("+" + sp + a.par(UN), UN, "int", a.fn, a.ct, a.jt, a.size + 1, a.const, ("plus",) + a.ops)
    if op == "~":
        def fn(o):
            v = a.fn(o)
            return BAD if v is BAD or not fits(a.ct, ~v) or a.jt == "big" else ~v
        return X("~" + a.par(UN), UN, "int", fn, a.ct, a.jt, a.size + 1, a.const, ("~",) + a.ops)
    f = strict(operator.not_)
    return X("!" + a.par(UN), UN, "bool", lambda o: f(a.fn(o)), size=a.size + 1, const=a.const, ops=("!",) + a.ops)


def compare(op, a, b):
    fn = {"<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge, "==": operator.eq,
          "!=": operator.ne}[op]
    prec = EQ if op in ("==", "!=") else REL
    if a.k == "int":
        ct = common(a.ct, b.ct)

        def f(x, y):
            if x is BAD or y is BAD or not (fits(ct, x) and fits(ct, y)):
                return BAD
            return fn(x, y)
    else:
        f = strict(fn)
    k = a.k if isinstance(a.k, str) else type(a.k).__name__
    jt = jcommon(a.jt, b.jt) if a.k == "int" else None
    return X("%s %s %s" % (a.par(prec), op, b.par(prec + 1)), prec, "bool", lambda o: f(a.fn(o), b.fn(o)), None, jt,
             size=a.size + b.size + 1, const=a.const and b.const, ops=("%s %s" % (k, op),) + a.ops + b.ops)


def logic(op, a, b):
    def fn(o):
        x = a.fn(o)
        if x is BAD:
            return BAD
        if x is (op == "||"):
            return x
        return b.fn(o)
    prec = LAND if op == "&&" else LOR
    return X("%s %s %s" % (a.par(prec), op, b.par(prec + 1)), prec, "bool", fn, size=a.size + b.size + 1,
             const=a.const and b.const, ops=(op,) + a.ops + b.ops)


def ternary(c, a, b):
    ct = jt = None
    if a.k == "int":
        ct, jt = common(a.ct, b.ct), jcommon(a.jt, b.jt)

    def fn(o):
        x = c.fn(o)
        if x is BAD:
            return BAD
        r = a.fn(o) if x else b.fn(o)
        if r is not BAD and ct and not (fits(ct, r) and fits(jt, r)):
            return BAD
        return r
    k = a.k if isinstance(a.k, str) else type(a.k).__name__
    return X("%s ? %s : %s" % (c.par(LOR), a.par(TERN), b.par(TERN)), TERN, a.k, fn, ct, jt,
             a.size + b.size + c.size + 1, a.const and b.const and c.const, ("?: " + k,) + a.ops + b.ops + c.ops)


def numbits(a):
    def fn(o):
        v = a.fn(o)
        if v is BAD or v < 0:
            return BAD
        return 0 if v == 0 else max(1, (v - 1).bit_length())
    return X("numbits(%s)" % a.txt, POST, "int", fn, "i32", "i32", a.size + 1, a.const, ("numbits",) + a.ops)


def valueof(a):
    t = a.k
    f = strict(lambda v: v)
    return X("valueof(%s)" % a.txt, POST, "int", lambda o: f(a.fn(o)), ctype_of(t.under), jtype_of(t.under),
             a.size + 1, a.const, ("valueof",) + a.ops)


def isset(m, x):
    f = strict(lambda a, b: a & b == b)
    return X("isset(%s, %s)" % (m.txt, x.txt), POST, "bool", lambda o: f(m.fn(o), x.fn(o)), size=m.size + x.size,
             const=m.const and x.const, ops=("isset",) + m.ops)


def mask_bin(op, a, b):
    f = strict({"&": operator.and_, "|": operator.or_, "^": operator.xor}[op])
    prec = {"&": BAND, "|": BOR, "^": BXOR}[op]
    return X("%s %s %s" % (a.par(prec), op, b.par(prec + 1)), prec, a.k, lambda o: f(a.fn(o), b.fn(o)),
             size=a.size + b.size + 1, const=a.const and b.const, ops=("mask " + op,) + a.ops + b.ops)


def mask_not(a):
    allv = (1 << a.k.under.hi.bit_length()) - 1
    f = strict(lambda v: allv & ~v)
    return X("~" + a.par(UN), UN, a.k, lambda o: f(a.fn(o)), size=a.size + 1, const=a.const, ops=("mask ~",) + a.ops)


def exact(v):
    """Small dyadic numbers are exact in all floating point types."""
    f = fractions.Fraction(v)
    return abs(f) < 4096 and f.denominator <= 64 and f.denominator & (f.denominator - 1) == 0


def bin_float(op, a, b):
    def fn(o):
        x, y = a.fn(o), b.fn(o)
        if x is BAD or y is BAD or not exact(x) or not exact(y):
            return BAD
        x, y = fractions.Fraction(x), fractions.Fraction(y)
        if op == "/":
            if y == 0:
                return BAD
            r = x / y
        else:
            r = {"+": operator.add, "-": operator.sub, "*": operator.mul}[op](x, y)
        if op == "*" and r == 0 or op == "/" and r == 0:
            return BAD      # the sign of zero
        return float(r) if exact(r) else BAD
    prec = ADD if op in "+-" else MUL
    right = b.par(prec + 1)
    if op in "+-" and right.startswith(("-", "+")):
        right = " " + right
    return X("%s %s %s" % (a.par(prec), op, right), prec, "float", fn, size=a.size + b.size + 1,
             const=a.const and b.const, ops=("float " + op,) + a.ops + b.ops)


def float_lit(rng, v):
    s = repr(float(v))
    suf = rng.choice(["", "f"])
    return X(s + suf, ATOM, "float", lambda o: float(v), const=True, ops=("lit float" + suf,))


def string_lit(rng):
    """A literal: (text, value, escapes). Escapes of bytes above 127 are not used, their meaning is not specified."""
    out, v, ops = [], [], set()
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        k = rng.choice(["plain", "plain", "simple", "u", "u", "x", "x", "o", "o4", "raw"])
        if k == "plain":
            t = "".join(rng.choice("aAfF09 'xun/%{}$*_\u00e9") for _ in range(rng.randint(1, 3)))
            out.append(t)
            v.append(t)
            continue
        if k == "raw":
            t = rng.choice(["\u20ac", "\u00df", "\u3042", "\U0001f600", "//", "/*", "@"])
            out.append(t)
            v.append(t)
            continue
        if k == "simple":
            e, c = rng.choice([("\\n", "\n"), ("\\r", "\r"), ("\\t", "\t"), ("\\f", "\f"), ("\\\\", "\\"), ('\\"', '"')])
        elif k == "u":
            n = rng.choice([0, 9, 10, 13, 0x22, 0x27, 0x5c, 0x41, 0x7f, 0x80, 0x85, 0x9f, 0xa0, 0xe4, 0xff, 0x100, 0x20ac, 0xd7ff,
                            0xe000, 0xfffd, rng.randint(1, 0x7f), rng.randint(0xa0, 0xd7ff)])
            e, c = "\\u" + rng.choice(["%04x", "%04X"]) % n, chr(n)
        elif k == "x":
            n = rng.choice([0, 9, 10, 13, 0x22, 0x27, 0x5c, 0x41, 0x7f, rng.randint(1, 0x7f)])
            e, c = "\\x" + rng.choice(["%02x", "%02X"]) % n, chr(n)
        else:
            n = rng.choice([0, 7, 10, 13, 0x22, 0x5c, rng.randint(1, 0x3f), rng.randint(1, 0x3f)])
            if k == "o4":
                n = n if n < 64 else 0x41
                n = n % 64 + rng.choice([0, 64])
                e = "\\0%03o" % n
            else:
                e = "\\0%02o" % min(n, 0x3f) if n < 64 else "\\0%03o" % n
            c = chr(n if k == "o4" else min(n, 0x3f) if n < 64 else n)
            # a digit must not follow a shorter form
            out.append(e)
            v.append(c)
            ops.add("escape " + k)
            if k == "o":
                t = rng.choice([" ", "z", "-", "9" if False else "g"])
                out.append(t)
                v.append(t)
            continue
        ops.add("escape " + k)
        out.append(e)
        v.append(c)
    return '"%s"' % "".join(out), "".join(v), ops


class Pool:
    """Grows random expressions over leaves; objs are the objects on which all of them have to be defined."""

    def __init__(self, rng, objs, leaves, limit=14):
        self.rng, self.objs, self.limit = rng, objs, limit
        self.by = {}
        self.all = []
        self.seen = set()
        self.partial = []       # defined on some objects only: operands of conditional expressions
        for x in leaves:
            self.add(x)

    def key(self, x):
        return x.k if isinstance(x.k, str) else x.k.name

    def add(self, x):
        if x.txt in self.seen or x.size > self.limit or x.jt == "big" and LEAFY.intersection(x.ops):
            return None
        v = x.on(self.objs)
        self.seen.add(x.txt)
        if any(y is BAD for y in v):
            if not all(y is BAD for y in v) and len(self.partial) < 300:
                self.partial.append(x)
            return None
        self.by.setdefault(self.key(x), []).append(x)
        self.all.append(x)
        return x

    def get(self, k):
        l = self.by.get(k)
        if not l:
            return None
        r = self.rng
        # small ones and recent ones
        if r.random() < 0.5:
            return r.choice(l[:40])
        return r.choice(l)

    def lit(self):
        r = self.rng
        v = r.choice([0, 1, 2, 3, 5, 7, 8, 10, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 1000, 32767, 65535, 65536,
                      2**31 - 1, r.randint(0, 40), r.randint(0, 3000), r.getrandbits(r.randint(1, 31))])
        if r.random() < 0.04:
            v = r.choice([2**31, 2**32 - 1, 2**32, 2**40, 2**62, 2**63 - 1])
        return int_lit(r, -v if r.random() < 0.2 else v)

    def grow(self, n):
        for _ in range(n):
            try:
                self.step()
            except (TypeError, AttributeError):
                raise

    def step(self):
        r = self.rng
        what = r.random()
        enums = [k for k in self.by if k not in ("int", "bool", "float", "string")]
        if what < 0.40:
            a, b = self.get("int"), self.get("int")
            if r.random() < 0.35:
                if r.random() < 0.5:
                    a = self.lit()
                else:
                    b = self.lit()
            op = r.choice("+++---**//%%&|^") if r.random() < 0.88 else r.choice(["<<", ">>"])
            if op in ("<<", ">>"):
                if r.random() < 0.7:
                    b = int_lit(r, r.randint(0, 20))
                if b.jt != "i32":
                    return
                # the right operand of a shift of a BigInteger has to be an int in Java
                self.add(shift(op, a, b))
            else:
                self.add(bin_int(op, a, b))
        elif what < 0.46:
            self.add(unary(r.choice("-+~"), self.get("int")))
        elif what < 0.66:
            a = self.get("int")
            b = self.lit() if r.random() < 0.4 else self.get("int")
            v = [x for x in a.on(self.objs)]
            if r.random() < 0.3 and a.jt != "big":
                # the boundary itself
                b = int_lit(r, r.choice(v) if abs(r.choice(v)) < 2**31 else 0)
            if r.random() < 0.2:
                a, b = b, a
            if a.const and b.const:
                return
            self.add(compare(r.choice(["<", "<=", ">", ">=", "==", "!="]), a, b))
        elif what < 0.78:
            a, b = self.get("bool"), self.get("bool")
            if a is None:
                return
            w = r.random()
            if w < 0.2:
                self.add(unary("!", a))
            elif w < 0.35:
                self.add(compare(r.choice(["==", "!="]), a, b))
            else:
                if self.partial and r.random() < 0.2:
                    b = r.choice(self.partial)
                    if b.k != "bool":
                        return
                self.add(logic(r.choice(["&&", "||"]), a, b))
        elif what < 0.86:
            c = self.get("bool")
            if c is None:
                return
            k = r.choice(["int", "int", "bool", "float"] + enums)
            a, b = self.get(k), self.get(k)
            p = [x for x in self.partial if self.key(x) == k]
            if p and r.random() < 0.4:
                if r.random() < 0.5:
                    a = r.choice(p)
                else:
                    b = r.choice(p)
            if a is not None and b is not None:
                self.add(ternary(c, a, b))
        elif what < 0.90:
            self.add(numbits(self.get("int")))
        elif what < 0.96 and enums:
            k = r.choice(enums)
            a, b = self.get(k), self.get(k)
            w = r.random()
            if w < 0.3:
                self.add(valueof(a))
            elif w < 0.55:
                self.add(compare(r.choice(["==", "!="]), a, b))
            elif isinstance(a.k, zmodel.Bitmask):
                if w < 0.7:
                    self.add(isset(a, b))
                elif w < 0.9:
                    self.add(mask_bin(r.choice("&|^"), a, b))
                else:
                    self.add(mask_not(a))
        else:
            a, b = self.get("float"), self.get("float")
            if a is None:
                return
            if r.random() < 0.4:
                b = float_lit(r, r.choice([0.5, 1.0, 2.0, 0.25, 4.0, 1.5, 3.0]))
            if r.random() < 0.3:
                self.add(compare(r.choice("<>"), a, b))
            else:
                self.add(bin_float(r.choice("+-*/"), a, b))


# ------------------------------------------------------------------ schemas full of expressions

INTS = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "varint16", "varint32", "varint64", "varint",
        "varuint16", "varuint32", "varuint64", "varuint", "varsize", "bit:5", "bit:31", "bit:33", "bit:63", "bit:64", "int:7",
        "int:31", "int:33", "int:63", "int:64"]


def leaf(txt, t, fn, const=False, prec=POST):
    b = t.base()
    ops = ("call",) if txt.endswith("()") else ("index",) if txt.endswith("]") else ("dot",) if "." in txt else ()
    if isinstance(b, (zmodel.Enum, zmodel.Bitmask)):
        return X(txt, prec, b, fn, const=const, ops=ops)
    if isinstance(b, zmodel.Bool):
        return X(txt, prec, "bool", fn, const=const, ops=ops)
    if isinstance(b, zmodel.Float):
        return X(txt, prec, "float", (lambda o: (lambda v: BAD if v is BAD else b.to_double(v))(fn(o))), const=const)
    if isinstance(b, zmodel.Str):
        return X(txt, prec, "string", fn, const=const)
    ct, jt = ctype_of(b), jtype_of(b)

    def checked_leaf(o):
        v = fn(o)
        return v if v is BAD or b.lo <= v <= b.hi and fits(ct, v) and fits(jt, v) else BAD
    return X(txt, prec, "int", checked_leaf, ct, jt, const=const, ops=ops)


def get(o, *path):
    for p in path:
        if o is BAD:
            return BAD
        if isinstance(p, int):
            if not isinstance(o, list) or p >= len(o):
                return BAD
            o = o[p]
        else:
            o = o.f.get(p, BAD)
            if o is None:
                return BAD
    return o


def lengthof(txt, fn):
    return X("lengthof(%s)" % txt, POST, "int", fn, "u64", "i32", ops=("lengthof",))


class Builder:
    """One schema: constants, enumerations, structures with functions, and fields which depend on expressions."""

    def __init__(self, rng, pkg, nobj, nfun, nuse, consts=16):
        import zsys
        self.r, self.pkg = rng, pkg
        self.g = zsys.start(pkg)
        self.s = self.g.schema
        self.n = 0
        self.nfun, self.nuse, self.nobj = nfun, nuse, nobj
        self.expected = {}      # function names -> X
        self.ops = {}
        self.build(consts)

    def uid(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def used(self, x):
        for o in x.ops:
            self.ops[o] = self.ops.get(o, 0) + 1

    def build(self, consts):
        r, pkg = self.r, self.pkg
        Int = zmodel.Int
        q = pkg + "q"
        self.s.package(q)
        self.s.imports[pkg] = [q + ".*"]
        self.consts = Pool(r, [None], [int_lit(r, v) for v in (0, 1, 2, 3, 7, 10, 255, 1000)] +
                           [X("true", ATOM, "bool", lambda o: True, const=True), X("false", ATOM, "bool", lambda o: False, const=True)], 8)
        cleaves = []
        for where in (q, pkg):
            for p, u in (("EU", "uint8"), ("ES", r.choice(["int16", "int32", "int:9"]))):
                e = zmodel.Enum(where, p + ("q" if where == q else ""), Int(u), self.items(Int(u), 5))
                self.s.add(e)
                self.enum_leaves(e)
            for p, u in (("MU", "uint8"), ("MW", r.choice(["uint32", "uint16", "bit:20"])), ("MX", "uint64")):
                items = [("B%d" % i, 1 << (i if i < 3 else r.randint(i, Int(u).hi.bit_length() - 1)), True)
                         for i in range(4)]
                vs = set()
                items = [i for i in items if not (i[1] in vs or vs.add(i[1]))]
                m = zmodel.Bitmask(where, p + ("q" if where == q else ""), Int(u), items)
                self.s.add(m)
                self.enum_leaves(m)
            self.consts.grow(300)
            for _ in range(consts // 2):
                cleaves += self.const(where)
                self.consts.grow(60)
        self.strs = []
        for where in (q, pkg):
            for _ in range(5):
                x = self.string(self.strs)
                n = self.uid("STR_")
                self.s.add(zmodel.Const(where, zmodel.STR, n, x.txt, x.vals[0]))
                self.used(x)
                self.strs.append(X(n if r.random() < 0.8 else "%s.%s" % (where, n), POST, "string", x.fn, const=True))
                self.strs[-1].on([None])
        self.sub()
        self.par()
        self.root()
        self.wide()

    def string(self, consts, more=3):
        """A constant string: literals, constants, and their concatenations."""
        r = self.r
        parts = []
        for _ in range(r.choice([1, 1, 2, more])):
            if consts and r.random() < 0.35:
                c = r.choice(consts)
                parts.append((c.txt, c.vals[0], ()))
            else:
                parts.append(string_lit(r))
        v = "".join(p[1] for p in parts)
        ops = {o for p in parts for o in p[2]} | ({"string +"} if len(parts) > 1 else set())
        if len(v) > 300:
            return self.string((), 1)
        x = X(" + ".join(p[0] for p in parts), ADD if len(parts) > 1 else ATOM, "string", lambda o: v, const=True,
              ops=tuple(sorted(ops)))
        x.on([None])
        return x

    def strings(self, t, pool, n):
        """Functions which return strings or their lengths."""
        r = self.r
        for i in range(n):
            x = self.string(self.strs)
            if i % 4 == 1:
                y, b = self.string(self.strs), self.pickx(pool, "bool", lambda v: len(set(v)) > 1)
                if b is not None:
                    x = X("(%s) ? %s : %s" % (b.txt, x.par(LOR), y.par(LOR)), TERN, "string",
                          lambda o, b=b, x=x, y=y: BAD if b.fn(o) is BAD else (x if b.fn(o) else y).fn(o), ops=("?: string",))
            rt = zmodel.STR
            if i % 4 == 3:
                z = r.choice(self.strs) if r.random() < 0.5 else x
                x = X("lengthof(%s)" % z.txt, POST, "int", lambda o, z=z: len(z.fn(o).encode("utf-8")), "u64", "i32",
                      ops=("lengthof string",))
                rt = zmodel.Int("uint32")
            self.used(x)
            x.on(self.objs)
            t.funcs.append((rt, self.uid("fun"), _Fn(x)))

    def items(self, t, n):
        out, used = [], set()
        for i in range(n):
            c = [x for x in self.consts.by["int"] if t.lo <= x.vals[0] <= t.hi and x.vals[0] not in used and x.size < 6
                 and not (NOCONST | NOVALUE).intersection(x.ops) and not (jtype_of(t) == "big" and LEAFY.intersection(x.ops))]
            if c and self.r.random() < 0.6:
                x = self.r.choice(c)
                v, txt = x.vals[0], x.txt
                self.used(x)
            else:
                v = next(v for v in iter(lambda: self.r.randint(max(t.lo, -200), min(t.hi, 250)), None) if v not in used)
                txt = None
            used.add(v)
            out.append((("I%d" % i, v, "", True), txt))
        return [_Item(o[0], o[1]) for o in out]

    def enum_leaves(self, t):
        for i in t.items:
            r_name = name = "%s.%s" % (t.name, i[0])
            if self.r.random() < 0.25:
                name = "%s.%s" % (t.pkg, r_name)
            self.consts.add(X(name, POST, t, lambda o, v=i[1]: v, const=True))

    def const(self, where):
        r = self.r
        k = r.choice(["int"] * 5 + ["bool", "float"] + [k for k in self.consts.by if k not in ("int", "bool", "float", "string")])
        c = self.consts.by.get(k)
        if not c:
            return []
        c = [x for x in c if not NOCONST.intersection(x.ops)]
        big = [x for x in c if x.size > 2]
        x = r.choice(big or c)
        v = x.vals[0]
        if k == "int":
            ts = [zmodel.Int(u) for u in INTS]
            ts = [t for t in ts if t.lo <= v <= t.hi and not (jtype_of(t) == "big" and LEAFY.intersection(x.ops))]
            t = r.choice(ts)
        elif k == "bool":
            t = zmodel.BOOL
        elif k == "float":
            return []
        else:
            t = x.k
        n = self.uid("CONST_")
        c = zmodel.Const(where, t, n, x.txt, v)
        self.s.add(c)
        self.used(x)
        y = leaf(n if r.random() < 0.8 else "%s.%s" % (where, n), t, lambda o: v, True)
        y.ops = tuple(y.ops) + tuple(NOVALUE.intersection(x.ops))   # it cannot be evaluated either
        return [y] if self.consts.add(y) else []

    # ---- values

    def small(self, t):
        r = self.r
        lo, hi = t.lo, t.hi
        w = r.random()
        if w < 0.72:
            return r.randint(max(lo, -1000), min(hi, 1000))
        if w < 0.9:
            v = r.choice([0, 1, 2, -1, -2, 7, 31, 32, 100, 255])
            return max(lo, min(hi, v))
        return r.choice([lo, hi, lo + 1, hi - 1])

    def value(self, t, wild):
        r = self.r
        b = t.base()
        if isinstance(b, zmodel.Int):
            if not wild:
                return r.randint(max(b.lo, -60), min(b.hi, 60))
            v = self.small(b)
            return v if b.code != "varint" or v > b.lo else 0
        if isinstance(b, zmodel.Bool):
            return r.random() < 0.5
        if isinstance(b, zmodel.Enum):
            return r.choice([i[1] for i in b.items])
        if isinstance(b, zmodel.Bitmask):
            v = 0
            for i in b.items:
                v |= i[1] * r.randint(0, 1)
            return v
        if isinstance(b, zmodel.Float):
            d = r.choice([-3.5, 0.5, 1.0, 2.0, 4.0, 1.5, 8.25, 100.0, -0.25, 7.0])
            return b.from_double(d)
        if isinstance(b, zmodel.Str):
            return r.choice(["", "a", "€uro", "abc", "\U0001F600", "x" * 40])
        raise ValueError(t)

    def sub(self):
        Int, r = zmodel.Int, self.r
        T = {d.name: d for p in self.s.order for d in self.s.packages[p] if isinstance(d, zmodel.Type)}
        self.T = T
        fs = [zmodel.Field("a", Int("int16")), zmodel.Field("b", Int("uint8")), zmodel.Field("arr", Int("uint16"), array="auto"),
              zmodel.Field("e", T["EUq"]), zmodel.Field("m", T["MU"]), zmodel.Field("o", Int("int32"), optional=True),
              zmodel.Field("s", zmodel.STR)]
        self.Sub = zmodel.Compound("struct", self.pkg, "Sub", fields=fs)
        self.s.add(self.Sub)

    def subval(self):
        r = self.r
        f = {}
        for x in self.Sub.fields:
            if x.name == "arr":
                f[x.name] = [r.randint(0, 300) for _ in range(r.randint(2, 5))]
            elif x.name == "o":
                if r.random() < 0.5:
                    f[x.name] = r.randint(-50, 50)
            else:
                f[x.name] = self.value(x.type, False)
        return zmodel.Val(self.Sub, (), f)

    def scope(self, t, pre, path):
        """Leaves for the fields of an object which is reached by a path."""
        out = []
        for f in t.fields:
            p = path + [f.name]
            n = pre + f.name
            b = f.type.base()
            if f.array:
                out.append(lengthof(n, lambda o, p=p: (lambda l: BAD if l is BAD else len(l))(get(o, *p))))
                for i in range(3):
                    if b.is_compound:
                        if i < 2:
                            out += self.scope(b, "%s[%d]." % (n, i), p + [i])
                    else:
                        out.append(leaf("%s[%d]" % (n, i), b, lambda o, p=p + [i]: get(o, *p)))
            elif b.is_compound:
                out += self.scope(b, n + ".", p)
            elif isinstance(b, zmodel.Str):
                out.append(lengthof(n, lambda o, p=p: (lambda s: BAD if s is BAD else len(s.encode("utf-8")))(get(o, *p))))
            elif isinstance(b, (zmodel.DynBit,)):
                continue
            else:
                out.append(leaf(n, f.type, lambda o, p=p: get(o, *p)))
        for rt, name, x in t.funcs:
            def call(o, p=path, x=x):
                v = get(o, *p) if p else o
                return BAD if v is BAD else x.x.fn(v)
            out.append(leaf(pre + name + "()", rt, call))
        return out

    def ret_type(self, x):
        r = self.r
        if x.k == "int":
            vs = x.vals
            ts = [zmodel.Int(u) for u in INTS]
            ts = [t for t in ts if t.lo <= min(vs) and max(vs) <= t.hi and not (jtype_of(t) == "big" and LEAFY.intersection(x.ops))]
            # a native type of Java which is wide enough, because there is no narrowing
            return r.choice(ts) if ts else None
        if x.k == "bool":
            return zmodel.BOOL
        if x.k == "float":
            return zmodel.Float(r.choice([32, 64]))
        if x.k == "string":
            return None
        return x.k

    def functions(self, t, pool, n):
        r = self.r
        cand = [x for x in pool.all if x.size > 1 and not x.const]
        done = set()
        # every operator at least once
        order = []
        want = {}
        r.shuffle(cand)
        for x in cand:
            if any(want.get(o, 0) < 2 for o in x.ops) and x.size < 12:
                order.append(x)
                for o in x.ops:
                    want[o] = want.get(o, 0) + 1
        rest = sorted(cand, key=lambda x: -len(set(x.ops)) - r.random() * 4)
        for x in order[:n * 2 // 3] + rest:
            if len(done) >= n:
                break
            if x.txt in done:
                continue
            rt = self.ret_type(x)
            if rt is None:
                continue
            done.add(x.txt)
            name = self.uid("fun")
            w = _Fn(x)
            t.funcs.append((rt, name, w))
            self.used(x)

    def par(self):
        """A parameterized structure and a choice, used by fields of the root with expressions as arguments."""
        r, Int, T = self.r, zmodel.Int, self.T
        objs = []
        params = [(Int("int32"), "p"), (Int("uint8"), "q"), (zmodel.BOOL, "t"), (T["EU"], "pe"), (T["MWq"], "pm"), (self.Sub, "ps")]
        fields = [zmodel.Field("x", Int("uint16")), zmodel.Field("y", Int("int32"))]
        P = self.Par = zmodel.Compound("struct", self.pkg, "Par", params=params, fields=fields)
        self.s.add(P)
        for _ in range(24):
            ps = [self.value(t, True) if not t.is_compound else self.subval() for t, _ in params]
            ps[0] = r.randint(-1000, 1000)
            objs.append(zmodel.Val(P, ps, {"x": r.randint(0, 500), "y": r.randint(-500, 500)}))
        leaves = [leaf(n, t, lambda o, i=i: o.params[i]) for i, (t, n) in enumerate(params) if not t.is_compound]
        for x in self.scope(self.Sub, "ps.", []):
            leaves.append(X(x.txt, x.prec, x.k, lambda o, x=x: x.fn(o.params[5]), x.ct, x.jt, ops=x.ops))
        leaves += self.scope(P, "", [])
        pool = Pool(r, objs, leaves + self.consts.all[:60], 8)
        pool.grow(500)
        self.functions(P, pool, 8)
        # dependent fields on parameters
        for k in range(4):
            self.dependent(P, pool, objs, False)
        # a choice with constant expressions as cases
        C = self.Ch = zmodel.Compound("choice", self.pkg, "Ch", params=[(Int("int16"), "p"), (Int("uint8"), "q")])
        self.s.add(C)
        cobjs = [zmodel.Val(C, [r.randint(-20, 20), r.randint(0, 40)]) for _ in range(40)]
        cl = [leaf(n, t, lambda o, i=i: o.params[i]) for i, (t, n) in enumerate(C.params)]
        cpool = Pool(r, cobjs, cl + [x for x in self.consts.all if x.k in ("int", "bool")][:30], 7)
        cpool.grow(400)
        ok = [x for x in cpool.by["int"] if 2 < len(set(x.vals)) and -2**31 < min(x.vals) and max(x.vals) < 2**31 and not x.const
              and x.jt == "i32" and x.ct in ("i32",)]
        x = r.choice(ok)
        self.used(x)
        C.on = x.e()
        common_ = sorted(set(x.vals), key=lambda v: (-x.vals.count(v), v))[:5]
        for i, v in enumerate(common_):
            cs = [c for c in self.consts.by["int"] if c.vals[0] == v and c.ct == "i32" and c.jt == "i32" and c.size < 8
                  and not NOCONST.intersection(c.ops)]
            c = r.choice(cs) if cs and r.random() < 0.7 else None
            f = zmodel.Field("c%d" % i, r.choice([Int("uint8"), Int("uint16"), zmodel.STR]))
            f.cases = [(c.txt if c else str(v), v)]
            C.fields.append(f)
        f = zmodel.Field("cd", Int("uint8"))
        f.cases = None
        C.fields.append(f)
        self.chx = x

    def wide(self):
        """Functions of integers at all powers of two."""
        r, Int = self.r, zmodel.Int
        W = self.Wide = _Templated("struct", self.pkg, "Wide", fields=[
            zmodel.Field("u", Int("uint64")), zmodel.Field("s", Int("int64")), zmodel.Field("w", Int("uint32")), zmodel.Field("b", Int("bit:53"))])
        self.s.add(W)
        self.s.roots.append(W)
        vs = sorted({v for k in range(65) for v in ((1 << k) - 1, 1 << k, (1 << k) + 1) if v < 1 << 64})
        self.extra = [zmodel.Val(W, (), {"u": v, "s": max(-(1 << 63), min((1 << 63) - 1, v if i % 2 else -v)), "w": v % (1 << 32) if v >= 1 << 32 else v,
                                         "b": v % (1 << 53) if v >= 1 << 53 else v}) for i, v in enumerate(vs)]
        leaves = [leaf(f.name, f.type, lambda o, f=f: get(o, f.name)) for f in W.fields]
        fixed = [numbits(leaves[0]), numbits(leaves[2]), numbits(leaves[3])]
        pool = Pool(r, self.extra, leaves + [x for x in self.consts.all if x.k in ("int", "bool")][:30], 6)
        pool.grow(300)
        self.functions(W, pool, 12)
        for x in fixed:
            x.on(self.extra)
            self.used(x)
            W.funcs.append((Int("uint8"), self.uid("fun"), _Fn(x)))
        for _ in range(6):
            v = r.choice([r.randint(8, 600), r.randint(8, 1 << 31), 8 ** r.randint(1, 9)])
            x = X("0%o" % v if v < 1 << 31 else str(v), ATOM, "int", lambda o, v=v: v, "i32", "i32", const=True, ops=("lit oct",))
            y = X("%s + %s" % (x.txt, "1"), ADD, "int", lambda o, v=v: v + 1, ops=("lit oct",))
            y.on(self.extra)
            W.funcs.append((Int("int64"), self.uid("fun"), _Fn(y)))
        mine, self.objs = self.objs, self.extra
        self.strings(W, pool, 6)
        self.objs = mine

    def dependent(self, t, pool, objs, init=True):
        """A field whose presence, length, width or validity is an expression; sets it in all objects."""
        r = self.r
        kind = r.choice(["if", "if", "array", "array", "bits", "constraint", "constraint", "case"])
        n = self.uid("d")
        if kind == "if":
            x = self.pickx(pool, "bool", lambda v: len(set(v)) > 1)
            if x is None:
                return
            f = zmodel.Field(n, r.choice([zmodel.Int("uint8"), zmodel.Int("uint32"), zmodel.STR, self.Sub]), optional=x.e())
            for o, v in zip(objs, x.vals):
                if v:
                    o.f[n] = self.subval() if f.type is self.Sub else self.value(f.type, True)
        elif kind == "array":
            x = self.pickx(pool, "int", lambda v: 0 <= min(v) and max(v) <= 9 and len(set(v)) > 1)
            if x is None:
                return
            et = r.choice([zmodel.Int("uint8"), zmodel.Int("varint32"), zmodel.BOOL, zmodel.Int("int:7")])
            f = zmodel.Field(n, et, array="fixed", length=x.e(), packed=r.random() < 0.3 and not isinstance(et, zmodel.Bool))
            for o, v in zip(objs, x.vals):
                o.f[n] = [self.value(et, True) for _ in range(v)]
        elif kind == "bits":
            x = self.pickx(pool, "int", lambda v: 1 <= min(v) and max(v) <= 64 and len(set(v)) > 1)
            if x is None:
                return
            sg = r.random() < 0.4
            f = zmodel.Field(n, zmodel.DynBit(sg, x.e()))
            for o, v in zip(objs, x.vals):
                o.f[n] = r.randint(-(1 << v - 1), (1 << v - 1) - 1) if sg else r.getrandbits(v)
        elif kind == "constraint":
            x = self.pickx(pool, "bool", lambda v: all(v))
            if x is None:
                return
            f = zmodel.Field(n, zmodel.Int("bit:3"), constraint=x.e())
            for o in objs:
                o.f[n] = r.randint(0, 7)
        else:
            return
        self.used(x)
        t.fields.append(f)

    def pickx(self, pool, k, ok):
        c = [x for x in pool.by.get(k, []) if not x.const and x.size > 1 and ok(x.vals)]
        if not c:
            return None
        return self.r.choice(c)

    def root(self):
        r, Int, T = self.r, zmodel.Int, self.T
        R = self.Root = zmodel.Compound("struct", self.pkg, "Root")
        base = [Int("int8"), Int("uint8"), Int("int16"), Int("uint16"), Int("int32"), Int("uint32"), Int("int64"), Int("uint64")]
        base += [Int(c) for c in r.sample(INTS[8:], 8)]
        for t in base + [zmodel.BOOL, zmodel.BOOL, zmodel.Float(16), zmodel.Float(32), zmodel.Float(64), T["EU"], T["ESq"],
                         T["ES"], T["MU"], T["MWq"], T["MX"], zmodel.STR]:
            R.fields.append(zmodel.Field(self.uid("f"), t))
        R.fields.append(zmodel.Field("ar", Int("int16"), array="auto"))
        R.fields.append(zmodel.Field("ba", zmodel.BOOL, array="auto"))
        R.fields.append(zmodel.Field("sub", self.Sub))
        R.fields.append(zmodel.Field("subs", self.Sub, array="auto"))
        R.fields.append(zmodel.Field("op", Int("uint16"), optional=True))
        R.fields.append(zmodel.Field("os", self.Sub, optional=True))
        # functions of the nested structure
        so = [self.subval() for _ in range(30)]
        spool = Pool(r, so, self.scope(self.Sub, "", []) + self.consts.all[:60], 7)
        spool.grow(400)
        self.functions(self.Sub, spool, 5)
        self.objs = []
        for i in range(self.nobj):
            f = {}
            for x in R.fields:
                if x.name == "ar":
                    f[x.name] = [r.randint(-99, 99) for _ in range(r.randint(2, 5))]
                elif x.name == "ba":
                    f[x.name] = [r.random() < 0.5 for _ in range(r.randint(1, 3))]
                elif x.name == "sub":
                    f[x.name] = self.subval()
                elif x.name == "subs":
                    f[x.name] = [self.subval() for _ in range(r.randint(2, 3))]
                elif x.name == "os":
                    if r.random() < 0.6:
                        f[x.name] = self.subval()
                elif x.name == "op":
                    if r.random() < 0.6:
                        f[x.name] = r.randint(0, 999)
                else:
                    f[x.name] = self.value(x.type, i % 2 == 1)
            self.objs.append(zmodel.Val(R, (), f))
        leaves = self.scope(R, "", [])
        leaves = [x for x in leaves if all(v is not BAD for v in x.on(self.objs))] + [x for x in leaves if any(
            v is BAD for v in x.on(self.objs))]
        cs = [x for x in self.consts.all if x.size == 1]
        cb = [x for x in self.consts.all if x.size > 1]
        pool = Pool(r, self.objs, leaves + cs + r.sample(cb, min(len(cb), 40)))
        pool.grow(6000)
        for k in range(self.nuse):
            self.dependent(R, pool, self.objs)
        # compounds which are instantiated with expressions
        for k in range(4):
            self.instance(R, pool, k)
        self.functions(R, pool, self.nfun)
        self.strings(R, pool, 24)
        self.s.add(R)
        self.s.roots = [R]

    def instance(self, R, pool, k):
        r = self.r
        xs = []
        if k < 3:
            for t, n in self.Par.params:
                if t is self.Sub:
                    xs.append("sub")
                    continue
                if isinstance(t, zmodel.Int):
                    lo, hi = (-1000, 1000) if n == "p" else (t.lo, t.hi)
                    x = self.pickx(pool, "int", lambda v: lo <= min(v) and max(v) <= hi)
                    if x is not None and n == "p":
                        pass
                else:
                    x = self.pickx(pool, "bool" if isinstance(t, zmodel.Bool) else t.name, lambda v: True)
                    if x is None and not isinstance(t, zmodel.Bool):
                        x = next((y for y in pool.by.get(t.name, [])), None)
                if x is None:
                    return
                xs.append(x)
            n = self.uid("par")
            args = [E(x, lambda c: c.val.f["sub"]) if x == "sub" else x.e() for x in xs]
            f = zmodel.Field(n, self.Par, args=args, array="auto" if k else None, packed=k == 2)
            for i, o in enumerate(self.objs):
                vs = []
                for _ in range(r.randint(1, 3) if k else 1):
                    v = self.parval([o.f["sub"] if x == "sub" else x.vals[i] for x in xs])
                    if v is None:
                        return
                    vs.append(v)
                o.f[n] = vs if k else vs[0]
        else:
            x = self.pickx(pool, "int", lambda v: -20 <= min(v) and max(v) <= 20)
            y = self.pickx(pool, "int", lambda v: 0 <= min(v) and max(v) <= 40)
            if x is None or y is None:
                return
            xs = [x, y]
            n = self.uid("ch")
            f = zmodel.Field(n, self.Ch, args=[x.e(), y.e()])
            vs = []
            for i, o in enumerate(self.objs):
                v = zmodel.Val(self.Ch, [x.vals[i], y.vals[i]])
                s = self.chx.fn(v)
                if s is BAD:
                    return
                c = next((c for c in self.Ch.fields if c.cases and c.cases[0][1] == s), self.Ch.fields[-1])
                v.sel = c.name
                v.f[c.name] = self.value(c.type, True)
                vs.append(v)
            for o, v in zip(self.objs, vs):
                o.f[n] = v
        for x in xs:
            if x != "sub":
                self.used(x)
        R.fields.append(f)

    def parval(self, params):
        """Fields of Par for given parameters, its expressions have to be defined for them."""
        r = self.r
        for _ in range(20):
            v = zmodel.Val(self.Par, params, {"x": r.randint(0, 500), "y": r.randint(-500, 500)})
            try:
                for f in self.Par.fields[2:]:
                    ctx = zmodel.Ctx(v)
                    if f.optional is not None:
                        if f.optional.ev(ctx):
                            v.f[f.name] = self.subval() if f.type is self.Sub else self.value(f.type, True)
                    elif f.array:
                        n = f.length.ev(ctx)
                        if not 0 <= n <= 300:
                            raise zmodel.Unsure("length")
                        v.f[f.name] = [self.value(f.type, True) for _ in range(n)]
                    elif isinstance(f.type, zmodel.DynBit):
                        n = f.type.expr.ev(ctx)
                        if not 1 <= n <= 64:
                            raise zmodel.Unsure("width")
                        v.f[f.name] = (r.randint(-(1 << n - 1), (1 << n - 1) - 1) if f.type.signed else r.getrandbits(n))
                    else:
                        v.f[f.name] = r.randint(0, 7)
                        if not f.constraint.ev(ctx):
                            raise zmodel.Unsure("constraint")
                for rt, n, fn in self.Par.funcs:
                    z = fn.x.fn(v)
                    if z is BAD or isinstance(rt, zmodel.Int) and not rt.lo <= z <= rt.hi:
                        raise zmodel.Unsure("function")
                return v
            except zmodel.Unsure:
                continue
        return None


class _Templated(zmodel.Compound):
    """The same structure, but an instantiation of a template."""

    def decl(self):
        s = super().decl()
        assert s.count("struct Wide\n") == 1 and s.count("uint64 u;") == 1
        return s.replace("struct Wide\n", "struct WideT<T>\n").replace("uint64 u;", "T u;") + "\ninstantiate WideT<uint64> Wide;\n"


class _Fn:
    """Expression of a function."""

    def __init__(self, x):
        self.x = x

    def zs(self):
        return self.x.txt

    def ev(self, ctx):
        return self.x.fn(ctx.val)


class _Item(tuple):
    """An enumeration item whose value is spelled as expression."""

    def __new__(cls, item, txt):
        o = tuple.__new__(cls, item)
        o.txt = txt
        return o
