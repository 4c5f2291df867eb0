"""Systematic schemas: every builtin type in every role (the random schemas only sample those)."""
import random

from zmodel import *
from zgen import Gen, Opts

INTS = (["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64"] + sorted(VARS) +
        ["bit:%d" % i for i in range(1, 65)] + ["int:%d" % i for i in range(1, 65)])
SOME = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64"] + sorted(VARS) + [
    "bit:1", "bit:2", "bit:5", "bit:7", "bit:9", "bit:12", "bit:31", "bit:33", "bit:62", "bit:63", "bit:64",
    "int:1", "int:2", "int:3", "int:9", "int:17", "int:33", "int:62", "int:63", "int:64"]


def start(pkg, seed=0):
    g = Gen(random.Random(seed), Opts(), pkg)
    g.schema.package(pkg)
    return g


def struct(g, name, fields, **kw):
    c = Compound("struct", g.pkg, name, fields=fields, **kw)
    g.schema.add(c)
    return c


def others(g):
    """One enum and bitmask per kind of underlying type, and the builtin types which are no integers."""
    out = []
    for i, u in enumerate(["bit:3", "uint8", "int:5", "int32", "uint64", "int64", "varint", "varuint", "varuint16",
                           "varint32", "varsize"]):
        t = Int(u)
        vals = sorted({t.lo if u != "varint" else t.lo + 1, t.hi, 0, 1, max(t.lo, -1) if t.lo < 0 else 2})
        if u == "varint":
            vals = [v for v in vals if abs(v) < 1 << 62]
        e = Enum(g.pkg, "En%d" % i, t, [("I%d" % k, v, "", True) for k, v in enumerate(vals)])
        g.schema.add(e)
        out.append(e)
        if t.lo == 0:
            b = Bitmask(g.pkg, "Bm%d" % i, t, [("B0", 1, True), ("B1", 2, True), ("B2", 4, True)])
            g.schema.add(b)
            out.append(b)
    return out + [BOOL, STR, BYTES, EXTERN, Float(16), Float(32), Float(64)]


def scalars(pkg):
    g = start(pkg)
    ts = [Int(c) for c in INTS] + others(g)
    c = struct(g, "Scalars", [Field("f%d" % i, t) for i, t in enumerate(ts)])
    d = struct(g, "Optionals", [Field("f%d" % i, t, optional=True) for i, t in enumerate(ts[8:17] + ts[20:60:7] +
                                                                                       ts[-17:])])
    e = struct(g, "Extended", [Field("a", Int("bit:3"))] +
               [Field("f%d" % i, t, extend=True, optional=True if i % 3 == 2 else None)
                for i, t in enumerate(ts[:17:2] + ts[-7:])])
    u = Compound("union", pkg, "AnyOf", fields=[Field("f%d" % i, t) for i, t in enumerate(ts[:17] + ts[-17:])])
    g.schema.add(u)
    r = struct(g, "Root", [Field("s", Int("bit:1")), Field("us", u, array="auto"), Field("o", d, optional=True)])
    g.schema.roots = [c, d, e, r]
    return g


def arrays(pkg):
    g = start(pkg)
    ts = [Int(c) for c in SOME] + others(g)
    fs, fp = [], []
    for i, t in enumerate(ts):
        fs.append(Field("a%d" % i, t, array="auto"))
        if i % 3 == 0:
            fs.append(Field("b%d" % i, t, array="fixed", length=lit(i % 5)))
        if t.packable:
            fp.append(Field("p%d" % i, t, array="auto", packed=True))
            if i % 2 == 0:
                fp.append(Field("q%d" % i, t, array="fixed", length=lit(1 + i % 5), packed=True))
    roots = [struct(g, "Plain", fs), struct(g, "Packed", fp)]
    for i, t in enumerate([Int(c) for c in ("uint8", "int16", "uint32", "int64", "bit:24", "int:40", "uint64")] +
                          [Float(16), Float(32), Float(64)]):
        roots.append(struct(g, "Implicit%d" % i, [Field("x", Int("uint8")), Field("a", t, array="implicit")]))
    g.schema.roots = roots
    return g


def packed(pkg):
    """Packed arrays of compounds with every integer type, nested, in unions, choices, optionals, arrays."""
    g = start(pkg)
    ts = [Int(c) for c in SOME] + others(g)
    flat = struct(g, "Flat", [Field("f%d" % i, t) for i, t in enumerate(ts)])
    ints = [Int(c) for c in ("uint8", "int16", "uint32", "int64", "uint64", "varint", "varuint", "bit:3", "int:63",
                             "varsize")]
    inner = struct(g, "Inner", [Field("a", ints[0]), Field("b", ints[3]), Field("s", STR),
                                Field("o", ints[5], optional=True), Field("arr", ints[1], array="auto")])
    u = Compound("union", pkg, "Un", fields=[Field("u%d" % i, t) for i, t in enumerate(ints)] +
                 [Field("uin", inner), Field("ustr", STR), Field("uarr", ints[2], array="auto")])
    g.schema.add(u)
    sel = Path(["p"])
    ch = Compound("choice", pkg, "Ch", params=[(Int("uint8"), "p")], on=sel,
                  fields=[Field("c%d" % i, t, cases=[(str(i), i)]) for i, t in enumerate(ints[:6])] +
                         [Field("cin", inner, cases=[("6", 6), ("7", 7)]), Field("cdef", ints[8], cases=None)])
    g.schema.add(ch)
    tag = Field("tag", Int("uint8"))
    tag.bounds = (0, 9)
    mid = struct(g, "Mid", [tag, Field("in1", inner), Field("u", u),
                            Field("c", ch, args=[Path(["tag"])]),
                            Field("o", inner, optional=True),
                            Field("pa", Int("int32"), array="auto", packed=True),
                            Field("npa", Int("varint64"), array="auto"),
                            Field("al", Int("uint16"), align=8),
                            Field("cond", Int("varuint"), optional=E("tag > 4", lambda x: x.val.f["tag"] > 4))])
    w = Field("w", Int("uint8"))
    w.bounds = (1, 64)
    dyn = struct(g, "Dyn", [w, Field("b", DynBit(False, Path(["w"]))), Field("i", DynBit(True, Path(["w"])))])
    roots = [struct(g, "RFlat", [Field("x", flat, array="auto", packed=True)]),
             struct(g, "RMid", [Field("pre", Int("bit:3")), Field("x", mid, array="auto", packed=True),
                                Field("y", inner, array="fixed", length=lit(3), packed=True)]),
             struct(g, "RUn", [Field("x", u, array="auto", packed=True)]),
             struct(g, "RDyn", [Field("x", dyn, array="auto", packed=True)])]
    # a packed array of a bit field with dynamic width
    roots.append(struct(g, "RDynA", [w2(), Field("x", DynBit(False, Path(["w"])), array="auto", packed=True),
                                     Field("y", DynBit(True, Path(["w"])), array="auto", packed=True)]))
    g.schema.roots = roots
    return g


def w2():
    w = Field("w", Int("uint8"))
    w.bounds = (1, 64)
    return w


def offsets(pkg):
    """Offsets of every type, indexed offsets, alignments, in nested and packed places."""
    g = start(pkg)
    roots = []
    fs = []
    for i, o in enumerate(["uint32", "uint64", "uint16", "bit:24", "bit:33", "bit:20", "bit:63"]):
        of = Field("o%d" % i, Int(o))
        of.role, of.used_as_offset = "offset", True
        fs.append(of)
    for i in range(7):
        fs.append(Field("gap%d" % i, Int("bit:%d" % (i + 1))))
        fs.append(Field("v%d" % i, [Int("int16"), STR, Int("bit:3"), EXTERN, Float(32), Int("varint"), BYTES][i],
                        offset=Path(["o%d" % i]), align=[None, 8, 16, 32, 64, 3, 1][i] if i else None))
    roots.append(struct(g, "ROff", fs))
    oa = Field("oa", Int("uint32"), array="auto")
    oa.role, oa.used_as_offset = "offset", True
    body = Field("body", Int("bit:13"), array="auto", offset=Path(["oa"], True))
    body.match = ["oa"]
    ob = Field("ob", Int("bit:48"), array="fixed", length=lit(3))
    ob.role, ob.used_as_offset = "offset", True
    body2 = Field("body2", STR, array="fixed", length=lit(3), offset=Path(["ob"], True))
    oc = Field("oc", Int("uint16"), array="auto")
    oc.role, oc.used_as_offset = "offset", True
    body3 = Field("body3", Int("varint"), array="auto", packed=True, offset=Path(["oc"], True))
    body3.match = ["oc"]
    ri = struct(g, "RIdx", [Field("pre", Int("bit:5")), oa, ob, oc, body, body2, body3, Field("e", Int("uint8"))])
    roots.append(ri)
    # nested: an aligned structure with its own offsets in an array, a union and optional
    of = Field("off", Int("uint32"))
    of.role, of.used_as_offset = "offset", True
    blk = struct(g, "Blk", [of, Field("t", Int("bit:7")), Field("d", Int("uint16"), offset=Path(["off"])),
                            Field("al", Int("bit:2"), align=32)])
    u = Compound("union", pkg, "UBlk", fields=[Field("ub", blk), Field("ui", Int("bit:3")),
                                               Field("ua", blk, array="auto")])
    g.schema.add(u)
    roots.append(struct(g, "RNest", [Field("x", Int("bit:1")), Field("a", blk, array="auto"), Field("u", u),
                                     Field("o", blk, optional=True), Field("i", ri),
                                     Field("p", blk, array="auto", packed=True),
                                     Field("uu", u, array="auto", packed=True)]))
    for i, a in enumerate([1, 2, 3, 5, 7, 8, 9, 16, 31, 32, 64, 77, 128]):
        pass
    roots.append(struct(g, "RAlign", [x for i, a in enumerate([1, 2, 3, 5, 7, 8, 9, 16, 31, 32, 64, 77, 128])
                                      for x in (Field("g%d" % i, Int("bit:%d" % (1 + i % 3))),
                                                Field("a%d" % i, Int("int:5"), align=a,
                                                      optional=True if i % 4 == 3 else None))]))
    g.schema.roots = roots
    return g


def choices(pkg):
    """Choices over every kind of selector, with and without default, empty cases, covering cases."""
    g = start(pkg)
    ts = others(g)
    enums = [t for t in ts if isinstance(t, Enum)][:6]
    masks = [t for t in ts if isinstance(t, Bitmask)][:3]
    roots = []
    n = 0
    for t in [Int(x) for x in ("uint8", "int8", "uint16", "int32", "uint64", "int64", "varint", "varuint", "varint32",
                               "bit:3", "int:33", "varsize", "bit:64")] + [BOOL] + enums + masks:
        if isinstance(t, Int):
            hi = t.hi
            vals = [v for v in (0, 1, 2, 7, 100, min(hi, 0x7fffffff), hi if hi < 1 << 63 else (1 << 62)) if v <= hi]
            if t.lo < 0:
                vals += [-1, max(t.lo, -100)]
            vals = list(dict.fromkeys(vals))
            txt = [(str(v), v) for v in vals]
        elif isinstance(t, Bool):
            txt = [("true", True), ("false", False)]
        elif isinstance(t, Enum):
            txt = [(i[0], i[1]) for i in t.items]
        else:
            txt = [(i[0], i[1]) for i in t.items]
        for variant in range(3):
            n += 1
            fs = []
            rest = list(txt)
            k = 0
            first = True
            while rest:
                m = 1 if k % 2 else 2
                if variant == 2 and first and isinstance(t, (Bool,)):
                    m = 2
                cs, rest = rest[:m], rest[m:]
                if variant == 1 and not rest and not first:
                    break           # the last ones go to the default
                ft = [Int("uint16"), STR, Int("varint"), NOTHING, Int("bit:5"), BYTES][k % 6]
                fs.append(Field("c%d" % k, ft, cases=cs))
                k += 1
                first = False
            if variant == 1 and not isinstance(t, Bool):
                fs.append(Field("d", NOTHING if n % 2 else Int("int32"), cases=None))
            c = Compound("choice", pkg, "Ch%d" % n, params=[(t, "p")], on=Path(["p"]), fields=fs)
            g.schema.add(c)
            f = Field("t", t)
            f.pool = [v for _, v in txt]
            fields = [Field("x", Int("bit:1")), f, Field("c", c, args=[Path(["t"])])]
            if variant == 0:
                fields += [Field("cs", c, args=[Path(["t"])], array="auto", packed=True)]
            roots.append(struct(g, "R%d" % n, fields))
    g.schema.roots = roots
    return g


def base_types(g):
    """Types of the fields in the schemas below."""
    e = Enum(g.pkg, "Ef", Int("int:9"), [("EA", -3, "", True), ("EB", 0, "", True), ("EC", 200, "", True)])
    b = Bitmask(g.pkg, "Bf", Int("uint16"), [("BA", 1, True), ("BB", 0x8000, True)])
    g.schema.add(e)
    g.schema.add(b)
    c = struct(g, "Cf", [Field("ca", Int("bit:5")), Field("cs", STR)])
    p = struct(g, "Pf", [Field("pa", Int("int16")), Field("pb", Int("bit:3"), optional=E("q > 60", lambda x: x.val.params[0] > 60))],
               params=[(Int("uint8"), "q")])
    pl = struct(g, "Plf", [Field("la", Int("int32")), Field("lb", Int("bit:6"))])
    u = Compound("union", g.pkg, "Uf", fields=[Field("ua", Int("varint16")), Field("ub", STR), Field("uc", c)])
    h = Compound("choice", g.pkg, "Hf", params=[(Int("uint8"), "q")], on=Path(["q"]),
                 fields=[Field("ha", Int("uint16"), cases=[(str(i), i) for i in range(0, 6)]),
                         Field("hb", Int("bit:3"), cases=None)])
    for x in (u, h):
        g.schema.add(x)
    return e, b, c, p, pl, u, h


def forms(e, b, c, p, pl, u, h, plain=False):
    """Every form of a field: keyword arguments of Field; 'n' is an uint8 field or parameter with the values 0..5."""
    n = [Path(["n"])]
    i = Int
    out = [dict(type=i("uint16")), dict(type=i("bit:5")), dict(type=i("varint")), dict(type=i("int:40")), dict(type=BOOL),
           dict(type=STR), dict(type=BYTES), dict(type=EXTERN), dict(type=Float(16)), dict(type=e), dict(type=b), dict(type=c),
           dict(type=p, args=n), dict(type=u), dict(type=h, args=n),
           dict(type=i("int16"), array="auto"), dict(type=i("bit:3"), array="fixed", length=n[0]),
           dict(type=i("uint32"), array="auto", packed=True), dict(type=i("int64"), array="fixed", length=n[0], packed=True),
           dict(type=STR, array="auto"), dict(type=e, array="auto", packed=True), dict(type=b, array="fixed", length=lit(2)),
           dict(type=c, array="auto"), dict(type=p, args=n, array="fixed", length=n[0]), dict(type=h, args=n, array="auto"),
           dict(type=pl, array="auto", packed=True), dict(type=BYTES, array="auto"), dict(type=Float(64), array="auto")]
    return out


def variants(fs):
    """The forms, some of them optional."""
    cond = E("n > 2", lambda x: x.val.f["n"] > 2)
    for k, f in enumerate(fs):
        yield dict(f)
        o = dict(f)
        o["optional"] = cond if k % 2 else True
        yield o
        if f["type"].is_compound or f.get("array"):
            o = dict(f)
            o["optional"] = True if k % 2 else cond
            yield o


def fn(hi=5):
    f = Field("n", Int("uint8"))
    f.bounds = (0, hi)
    return f


def cons(pkg):
    """A constraint on every form of a field, in structures, choices and unions."""
    g = start(pkg)
    ts = base_types(g)
    roots = []

    def ok():
        return E("lim < 180", lambda x: x.val.f["lim"] < 180)

    def okp():
        return E("lim < 180", lambda x: x.val.params[0] < 180)
    for k, kw in enumerate(variants(forms(*ts))):
        roots.append(struct(g, "Rc%d" % k, [Field("lim", Int("uint8")), fn(), Field("v", constraint=ok(), **kw),
                                            Field("z", Int("bit:2"))]))
    fs = [f for f in forms(*ts)]
    un = Compound("union", pkg, "Uc", params=[(Int("uint8"), "lim"), (Int("uint8"), "n")],
                  fields=[Field("v%d" % k, constraint=okp(), **kw) for k, kw in enumerate(fs)])
    g.schema.add(un)
    ch = Compound("choice", pkg, "Hc", params=[(Int("uint8"), "lim"), (Int("uint8"), "n"), (Int("uint8"), "s")], on=Path(["s"]),
                  fields=[Field("v%d" % k, constraint=okp(), cases=[(str(k), k)] if k else None, **kw)
                          for k, kw in reversed(list(enumerate(fs)))])
    g.schema.add(ch)
    a = [Path(["lim"]), Path(["n"])]
    roots.append(struct(g, "Ru", [Field("lim", Int("uint8")), fn(), Field("u", un, args=a)]))
    for k in range(0, len(fs), 4):
        s = Field("s", Int("uint8"))
        s.bounds = (k, k + 4)
        roots.append(struct(g, "Rh%d" % k, [Field("lim", Int("uint8")), fn(), s, Field("h", ch, args=a + [Path(["s"])])]))
    g.schema.roots = roots
    return g


def offs(pkg):
    """An offset or an alignment on every form of a field."""
    g = start(pkg)
    ts = base_types(g)
    roots = []
    for k, kw in enumerate(variants(forms(*ts))):
        o = Field("off", Int(["uint32", "uint64", "bit:17", "uint16"][k % 4]))
        o.role, o.used_as_offset = "offset", True
        f = Field("v", offset=Path(["off"]), align=[None, None, 16, 64][k % 4], **kw)
        x = [Field("pre", Int("bit:%d" % (1 + k % 7))), o, fn(), f]
        if k % 2:
            x.append(Field("w", align=[8, 24, 128][k % 3], **kw))
        x.append(Field("z", Int("bit:2")))
        roots.append(struct(g, "Ro%d" % k, x))
    for k, kw in enumerate(v for v in variants(forms(*ts)) if v.get("array")):
        oa = Field("offs", Int(["uint32", "uint64", "bit:17", "uint16"][k % 4]), array="auto")
        oa.role, oa.used_as_offset = "offset", True
        f = Field("v", offset=Path(["offs"], True), **kw)
        if kw["array"] == "fixed":
            oa.array, oa.length = "fixed", kw["length"]
        else:
            f.match = ["offs"]
        roots.append(struct(g, "Ri%d" % k, [Field("pre", Int("bit:%d" % (1 + k % 7))), fn(), oa, f, Field("z", Int("bit:2"))]))
    g.schema.roots = roots
    return g


def exts(pkg):
    """Extended fields of every form after fields which end anywhere."""
    g = start(pkg)
    ts = base_types(g)
    roots = []
    vs = list(variants(forms(*ts)))
    for k, kw in enumerate(vs):
        x = [fn(), Field("b", Int("bit:%d" % (1 + k % 8))), Field("v", extend=True, **kw)]
        if k % 2:
            x.append(Field("w", extend=True, **vs[(k * 7) % len(vs)]))
        if k % 4 == 1:
            x.append(Field("y", extend=True, align=32, **vs[(k * 5 + 3) % len(vs)]))
        roots.append(struct(g, "Re%d" % k, x))
    g.schema.roots = roots
    return g


FORMS = {"cons": cons, "offs": offs, "exts": exts}
ALL = {"scalars": scalars, "arrays": arrays, "packed": packed, "offsets": offsets, "choices": choices}
EVERY = dict(ALL)
EVERY.update(FORMS)
