"""The documented JSON form of zserio values (ZserioJsonGuide): checking of texts and writing of variants."""
import json
import re

import zmodel


class Bad(Exception):
    pass


def load(text):
    """Python's own JSON parser (it also takes NaN and Infinity); objects become lists of pairs."""
    return json.loads(text, object_pairs_hook=lambda p: ("obj", p))


def names(t, value):
    """(or-ed values which match, all bits are covered)"""
    out, seen = [], 0
    for n, v, _ in t.items:
        if (v and value & v == v) or (v == 0 and value == 0):
            out.append(n)
            seen |= v
    return out, seen == value and bool(out)


def need(ok, where, what, got):
    if not ok:
        raise Bad("%s: %s expected, %s found" % (where, what, str(got)[:200]))


def pairs(j, where):
    need(isinstance(j, tuple) and j[0] == "obj", where, "an object", j)
    return j[1]


def leaf(t, v, j, where, number):
    t = t.base()
    if isinstance(t, zmodel.Compound):
        return compound(v, j, where, number)
    if isinstance(t, zmodel.Bool):
        need(isinstance(j, bool) and j == v, where, v, j)
    elif isinstance(t, zmodel.Float):
        need(isinstance(j, (int, float)) and not isinstance(j, bool), where, "a number", j)
        d = t.to_double(v)
        if d != d:
            need(j != j, where, "NaN", j)
        else:
            try:
                w = t.from_double(j)
            except OverflowError:
                w = None
            need(j == j and w == v, where, "%r of %s" % (d, t.zs()), repr(j))
    elif isinstance(t, zmodel.Str):
        need(isinstance(j, str) and j == v, where, repr(v), repr(j))
    elif isinstance(t, zmodel.Bytes):
        p = pairs(j, where)
        need([k for k, _ in p] == ["buffer"] and p[0][1] == list(v), where, list(v), p)
    elif isinstance(t, zmodel.Extern):
        p = pairs(j, where)
        need([k for k, _ in p] == ["buffer", "bitSize"], where, "buffer and bitSize", p)
        n, b = v
        need(p[1][1] == n, where, "bitSize %d" % n, p[1][1])
        exp = list(zmodel.to_bytes(n, b))
        got = list(p[0][1])
        if n % 8 and len(got) == len(exp):
            got[-1] &= 0xff00 >> n % 8 & 0xff
        need(got == exp and all(type(x) is int for x in p[0][1]), where, exp, got)
    elif isinstance(t, zmodel.Enum) and not number:
        need(j == next(i[0] for i in t.items if i[1] == v), where, "item of %d" % v, j)
    elif isinstance(t, zmodel.Bitmask) and not number:
        n, full = names(t, v)
        need(isinstance(j, str), where, "a string", j)
        if full:
            need(j == " | ".join(n), where, " | ".join(n), j)
        elif n:
            need(re.fullmatch(r"%d /\* (partial match: )?%s \*/" % (v, re.escape(" | ".join(n))), j), where,
                 "%d with comment %s" % (v, n), j)
        else:
            need(j == "%d /* no match */" % v, where, "%d without match" % v, j)
    else:
        need(type(j) is int and j == v, where, v, j)


def field(f, v, j, where, number):
    if v is None:
        need(j is None, where, "null", j)
    elif f.array:
        need(isinstance(j, list) and len(j) == len(v), where, "%d elements" % len(v), j)
        for i, (a, b) in enumerate(zip(v, j)):
            leaf(f.type, a, b, "%s[%d]" % (where, i), number)
    else:
        leaf(f.type, v, j, where, number)


def compound(v, j, where, number):
    p = pairs(j, where)
    if v.t.kind == "struct":
        fs = v.t.fields
        ext = 0
        need([k for k, _ in p] == [f.name for f in fs], where, "the fields %s" % [f.name for f in fs],
             [k for k, _ in p])
        for f, (_, x) in zip(fs, p):
            if f.extend:
                ext += 1
                if ext > v.ext:
                    # what is written for a field which is not there is not specified
                    continue
            field(f, v.f.get(f.name), x, "%s.%s" % (where, f.name), number)
        return
    f = v.t.field(v.sel) if v.sel is not None else None
    if f is None or isinstance(f.type, zmodel.Nothing):
        need(p == [], where, "an empty object", p)
        return
    need([k for k, _ in p] == [f.name], where, "the field " + f.name, p)
    field(f, v.f.get(f.name), p[0][1], "%s.%s" % (where, f.name), number)


def check(v, text, number=False):
    """Error text if the JSON text is not the documented form of the value."""
    try:
        j = load(text)
    except ValueError as e:
        return "no valid JSON: %s" % e
    try:
        compound(v, j, "$", number)
    except Bad as e:
        return str(e)
    return None


# ------------------------------------------------------------------ variants

class Writer:
    """Writes one of the accepted JSON texts of a value."""

    def __init__(self, rng):
        self.rng = rng
        self.style = rng.choice(["compact", "indent", "spaces"])
        self.number = rng.random() < 0.4
        self.escape = rng.random() < 0.4
        self.exp = rng.random() < 0.4
        self.drop = rng.random() < 0.4
        self.empty = False

    def ws(self):
        if self.style == "compact":
            return ""
        if self.style == "indent":
            return self.rng.choice(["\n", "\n    ", " "])
        return "".join(self.rng.choice(" \n\t\r") for _ in range(self.rng.choice([0, 1, 1, 3])))

    def seq(self, a, z, items):
        s = a
        for i, x in enumerate(items):
            s += ("," if i else "") + self.ws() + x + self.ws()
        return s + z

    def obj(self, items):
        return self.seq("{", "}", ["%s%s:%s%s" % (json.dumps(k), self.ws(), self.ws(), x) for k, x in items])

    def string(self, s):
        o = '"'
        for c in s:
            if c in '"\\':
                o += "\\" + c
            elif c < " ":
                short = {"\b": "b", "\f": "f", "\n": "n", "\r": "r", "\t": "t"}.get(c)
                o += "\\" + short if short and self.rng.random() < 0.5 else "\\u%04x" % ord(c)
            elif self.escape and c < "\u0100" and self.rng.random() < 0.3:
                h = "%04x" % ord(c)
                o += "\\u" + (h if self.rng.random() < 0.5 else h.upper())
            else:
                o += c
        return o + '"'

    def leaf(self, t, v):
        t = t.base()
        r = self.rng
        if isinstance(t, zmodel.Compound):
            return self.compound(v)
        if isinstance(t, zmodel.Bool):
            return "true" if v else "false"
        if isinstance(t, zmodel.Float):
            d = t.to_double(v)
            if d != d:
                return "NaN"
            if d in (float("inf"), float("-inf")):
                return "Infinity" if d > 0 else "-Infinity"
            if self.exp:
                return r.choice(["%.17e", "%.17E", "%.20e"]) % d
            return repr(d)
        if isinstance(t, zmodel.Str):
            return self.string(v)
        if isinstance(t, zmodel.Bytes):
            return self.obj([("buffer", self.seq("[", "]", map(str, v)))])
        if isinstance(t, zmodel.Extern):
            b = bytearray(zmodel.to_bytes(*v))
            if v[0] % 8 and r.random() < 0.5:
                b[-1] |= r.randrange(256) & (0xff >> v[0] % 8)    # unused bits
            it = [("buffer", self.seq("[", "]", map(str, b))), ("bitSize", str(v[0]))]
            if r.random() < 0.3:
                it.reverse()
            return self.obj(it)
        if isinstance(t, zmodel.Enum) and not self.number:
            return '"%s"' % next(i[0] for i in t.items if i[1] == v)
        if isinstance(t, zmodel.Bitmask) and not self.number:
            n, full = names(t, v)
            if full:
                return '"%s"' % " | ".join(n)
            return '"%d /* %s */"' % (v, " | ".join(n) if n else "no match")
        return str(v)

    def field(self, f, v):
        if v is None:
            return "null"
        if f.array:
            return self.seq("[", "]", [self.leaf(f.type, x) for x in v])
        return self.leaf(f.type, v)

    def compound(self, v):
        if v.t.kind == "struct":
            out = []
            for f in v.t.fields:
                x = v.f.get(f.name)
                if x is None and self.drop and f.init is None:
                    continue
                if self.empty and f.array and f.optional is None and not x and not f.extend:
                    out.append((f.name, "null"))
                    continue
                out.append((f.name, self.field(f, x)))
            return self.obj(out)
        f = v.t.field(v.sel) if v.sel is not None else None
        if f is None or isinstance(f.type, zmodel.Nothing):
            return self.obj([])
        return self.obj([(f.name, self.field(f, v.f.get(f.name)))])


def write(rng, v, empty=False):
    w = Writer(rng)
    w.empty = empty
    return w.ws() + w.compound(v) + w.ws()
