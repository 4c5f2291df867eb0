"""Drives generated Python code: reads commands from stdin, writes one result line per command.

Usage: pydrv.py RUNTIME_DIR BINDING_DIR|- CODE_DIR DESC_FILE
"""
import importlib
import importlib.util
import io
import json
import os
import resource
import struct
import sys

rt, binding, code, desc = sys.argv[1:5]
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
sys.path.insert(0, rt)
if binding != "-":
    sys.path.insert(0, binding)
    os.environ["ZSERIO_PYTHON_IMPLEMENTATION"] = "cpp"
else:
    os.environ["ZSERIO_PYTHON_IMPLEMENTATION"] = "python"
for c in code.split(":"):
    sys.path.insert(0, c)
import zserio  # noqa: E402
from zserio import BitStreamReader, BitStreamWriter, BitBuffer  # noqa: E402

sys.setrecursionlimit(20000)


def snake(n):
    o = ""
    for i, c in enumerate(n):
        if c.isupper() and i and (n[i - 1].islower() or n[i - 1].isdigit()):
            o += "_"
        o += c.lower()
    return o


class Type:
    def __init__(self, name, kind):
        self.name, self.kind, self.params, self.fields, self.cls_ = name, kind, [], [], None
        self.funcs = []

    @property
    def cls(self):
        if self.cls_ is None:
            self.cls_ = load(self.name)
        return self.cls_


def load(full):
    pkg, name = full.rsplit(".", 1)
    return getattr(importlib.import_module(pkg + ".api"), name)


TYPES, CLS = {}, {}


def ecls(full):
    if full not in CLS:
        CLS[full] = load(full)
    return CLS[full]


cur = None
with open(desc) as f:
    for line in f:
        p = line.split()
        if not p:
            continue
        if p[0] == "C":
            cur = TYPES[p[1]] = Type(p[1], p[2])
        elif p[0] == "P":
            cur.params.append(p[1:])
        elif p[0] == "F":
            cur.fields.append(p[1:] + [snake(p[1])])
        elif p[0] == "U":
            cur.funcs.append((p[1], snake(p[1]), p[2], p[3]))


def tok(kind, v):
    if v is None:
        return "n"
    if kind == "i":
        return "i%d" % v
    if kind == "b":
        return "b1" if v else "b0"
    if kind == "s":
        return "s" + v.encode("utf-8", "surrogatepass").hex()
    if kind == "y":
        return "y" + bytes(v).hex()
    if kind == "x":
        n = v.bitsize
        b = bytearray(v.buffer[:(n + 7) // 8])
        if n % 8:
            b[-1] &= 0xff00 >> n % 8 & 0xff
        return "x%d:%s" % (n, bytes(b).hex())
    if kind == "d":
        return "dnan" if v != v else "d" + struct.pack(">d", v).hex()
    if kind == "e":
        return "e%d" % v.value
    if kind == "m":
        return "m%d" % v.value
    raise AssertionError(kind)


def dump(t, o, out):
    out.append("{")
    out.append(t.name)
    if t.kind == "struct":
        fields = t.fields
    elif t.kind == "union":
        tag = o.choice_tag
        fields = [t.fields[tag]] if tag >= 0 else []
    else:
        tag = o.choice_tag
        fs = [f for f in t.fields]
        fields = [fs[tag]] if tag >= 0 else []
    for name, flags, kind, sub, sn in fields:
        if "x" in flags and not getattr(o, "is_%s_present" % sn)():
            break
        out.append(name)
        if "o" in flags and not getattr(o, "is_%s_used" % sn)():
            out.append("n")
            continue
        v = getattr(o, sn)
        if v is None:
            out.append("n")
        elif "a" in flags:
            out.append("[")
            for e in v:
                if kind == "c":
                    dump(TYPES[sub], e, out)
                else:
                    out.append(tok(kind, e))
            out.append("]")
        elif kind == "c":
            dump(TYPES[sub], v, out)
        else:
            out.append(tok(kind, v))
    out.append("}")


def dumps(t, o):
    out = []
    dump(t, o, out)
    return " ".join(out)


class NA(Exception):
    pass


class Build:
    def __init__(self, toks):
        self.t, self.i, self.objs, self.masks = toks, 0, [], {}

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def mask(self, cls, value):
        # parameters are compared by identity, so equal masks of one tree are one object
        key = (cls, value)
        if key not in self.masks:
            for n, c in vars(cls.Values).items():
                if isinstance(c, cls) and c.value == value:
                    self.masks[key] = c
                    break
            else:
                self.masks[key] = cls.from_value(value)
        return self.masks[key]

    def simple(self, k, sub):
        c, r = k[0], k[1:]
        if c == "i":
            return int(r)
        if c == "b":
            return r == "1"
        if c == "d":
            return float("nan") if r == "nan" else struct.unpack(">d", bytes.fromhex(r))[0]
        if c == "s":
            return bytes.fromhex(r).decode("utf-8", "surrogatepass")
        if c == "y":
            return bytearray.fromhex(r)
        if c == "x":
            n, h = r.split(":")
            return BitBuffer(bytes.fromhex(h), int(n))
        if c == "e":
            try:
                return ecls(sub)(int(r))
            except ValueError as e:
                raise NA(str(e)) from e
        if c == "m":
            try:
                return self.mask(ecls(sub), int(r))
            except zserio.PythonRuntimeException as e:
                raise NA(str(e)) from e
        if c == "n":
            return None
        if c == "r":
            return self.objs[int(r)]
        raise AssertionError(k)

    def compound(self):
        # '{' was read
        t = TYPES[self.next()]
        args = []
        if self.next() != "(":
            raise AssertionError
        while True:
            k = self.next()
            if k == ")":
                break
            args.append(self.simple(k, t.params[len(args)][2]))
        try:
            o = t.cls(*args)
        except AttributeError:
            # known limitation: a default constructed object cannot evaluate the width of a dynamic bit field
            # array which refers to a compound field; use the fields constructor instead
            o = None
        slot = len(self.objs)
        self.objs.append(o)
        kwargs = {}
        fs = {f[0]: f for f in t.fields}
        while True:
            k = self.next()
            if k == "}":
                if o is None:
                    o = self.objs[slot] = t.cls(*args, **kwargs)
                return o
            name, flags, kind, sub, sn = fs[k]
            k = self.next()
            if k == "[":
                v = []
                while True:
                    k = self.next()
                    if k == "]":
                        break
                    v.append(self.compound() if k == "{" else self.simple(k, sub))
            elif k == "{":
                v = self.compound()
            else:
                v = self.simple(k, sub)
            if v is None and "x" in flags and "o" not in flags:
                continue
            if o is None:
                kwargs[sn + "_"] = v
            else:
                setattr(o, sn, v)


def bits(w, pos=0):
    n = w.bitposition - pos
    data = w.byte_array
    v = int.from_bytes(data, "big") >> (len(data) * 8 - w.bitposition) & ((1 << n) - 1) if n else 0
    pad = -n % 8
    return "%d:%s" % (n, (v << pad).to_bytes((n + pad) // 8, "big").hex())


def reader(n, h):
    return BitStreamReader(bytes.fromhex(h), int(n))


def pwriter(pos):
    w = BitStreamWriter()
    p = pos
    while p:
        k = min(p, 64)
        w.write_bits(0, k)
        p -= k
    return w


def params(t, s):
    """Parameters of a root as tokens separated by blanks ('-': none)."""
    if s == "-":
        return []
    b = Build(s.split())
    return [b.compound() if k == "{" and b.next() else b.simple(k, t.params[i][2]) for i, k in enumerate(s.split())]


READONLY = bool(os.environ.get("DRV_READONLY"))


def cmd_dec(a):
    t = TYPES[a[0]]
    args = params(t, a[3]) if len(a) > 3 else []
    r = reader(a[1], a[2])
    o = t.cls.from_reader(r, *args)
    res = [str(r.bitposition)]
    res.append(",".join(str(o.bitsizeof(p)) for p in (0, 1, 3, 8, 61)))
    w = BitStreamWriter()
    try:
        if READONLY:
            res.append("-")
        else:
            o.write(w)
            res.append(bits(w))
    except zserio.PythonRuntimeException as e:
        res.append("!" + type(e).__name__)
    o2 = t.cls.from_reader(reader(a[1], a[2]), *args)
    res.append("eq%d%d%d" % (o == o2, hash(o) == hash(o2), o == o))
    res.append(dumps(t, o))
    return res


def cmd_bld(a):
    t = TYPES[a[0]]
    pos = int(a[1])
    b = Build(a[2].split())
    b.next()
    o = b.compound()
    end = o.initialize_offsets(pos)
    size = o.bitsizeof(pos)
    w = pwriter(pos)
    o.write(w)
    res = [str(end), str(size), bits(w, pos)]
    args = b.objs and []
    r = BitStreamReader(bytes(w.byte_array), w.bitposition)
    p = pos
    while p:
        k = min(p, 64)
        r.read_bits(k)
        p -= k
    o2 = t.cls.from_reader(r, *[getattr(o, snake(x[0])) for x in t.params])
    res.append("eq%d%d%d" % (o == o2, hash(o) == hash(o2), o2 == o))
    res.append(dumps(t, o2))
    return res


def cmd_raw(a):
    """Writes a value as it is: nothing initializes the offsets."""
    b = Build(a[2].split())
    b.next()
    o = b.compound()
    w = pwriter(int(a[1]))
    o.write(w)
    return [bits(w, int(a[1]))]


def cmd_fun(a):
    """Values of all functions of the root object."""
    t = TYPES[a[0]]
    o = t.cls.from_reader(reader(a[1], a[2]))
    return [" ".join("%s=%s" % (n, tok(k, getattr(o, s)())) for n, s, k, sub in t.funcs)]


def object_of(t, x):
    """A dump, or "D<bits>:<hex>" of a stream."""
    if x[0] == "D":
        n, h = x[1:].split(":")
        return t.cls.from_reader(reader(n, h))
    b = Build(x.split())
    b.next()
    o = b.compound()
    o.initialize_offsets(0)
    return o


def cmd_cmp(a):
    t = TYPES[a[0]]
    os_ = [object_of(t, x) for x in a[1:]]
    hs = [hash(o) for o in os_]
    return ["".join("01"[x == y] for x in os_ for y in os_), "".join("01"[x == y] for x in hs for y in hs), "-"]


def cmd_jw(a):
    t = TYPES[a[0]]
    o = object_of(t, a[1])
    if len(a) > 3 and a[3] == "N":
        w = zserio.JsonWriter(enumerable_format=zserio.json.JsonEnumerableFormat.NUMBER)
        zserio.Walker(w).walk(o)
        return [w.get_io().getvalue().encode("utf-8", "surrogatepass").hex()]
    return [zserio.to_json_string(o, indent=int(a[2]) if len(a) > 2 and a[2] != "-" else None)
            .encode("utf-8", "surrogatepass").hex()]


def cmd_jr(a):
    t = TYPES[a[0]]
    o = zserio.from_json_string(t.cls, bytes.fromhex(a[1]).decode("utf-8"))
    w = BitStreamWriter()
    o.initialize_offsets(0)
    o.write(w)
    return [bits(w), dumps(t, o)]


def cmd_imp(a):
    return ["cpp" if zserio.BitStreamReader.__module__.startswith("zserio_cpp") else "py"]


def execute(a):
    try:
        return "OK|" + "|".join(CMDS[a[0]](a[1:]))
    except NA as e:
        return "NA|%s" % str(e).replace("\n", " ")
    except MemoryError:
        return "ERR|MemoryError|0|"
    except Exception as e:          # noqa
        return "ERR|%s|%d|%s" % (type(e).__name__, isinstance(e, zserio.PythonRuntimeException),
                                 str(e).replace("\n", " ").replace("|", "/")[:300])


def in_threads(n, work):
    """Runs work(i) in n threads which start together and switch often."""
    import threading
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    res = [None] * n
    start = threading.Barrier(n)

    def one(i):
        start.wait()
        try:
            res[i] = work(i)
        except Exception as e:      # noqa
            res[i] = "failed: %s %s" % (type(e).__name__, e)
    ts = [threading.Thread(target=one, args=(i,)) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    sys.setswitchinterval(old)
    return res


def cmd_mt(a):
    """All threads run all commands, each in its own order; different results are told."""
    cmds = [c.split("\x1e") for c in a[2].split("\x1f")]
    m = len(cmds)

    def work(i):
        first = [None] * m
        for r in range(int(a[1])):
            for k in range(m):
                c = k if r == 0 and i % 2 == 0 else (k * (2 * i + 1) + r + i) % m
                x = execute(cmds[c])
                if first[c] is None:
                    first[c] = x
                elif first[c] != x:
                    return "thread changed its mind: %s <> %s" % (first[c], x)
        return [x if x is not None else execute(cmds[k]) for k, x in enumerate(first)]
    res = in_threads(int(a[0]), work)
    for r in res:
        if isinstance(r, str):
            return [r]
        for x, y in zip(r, res[0]):
            if x != y:
                return ["threads disagree: %s <> %s" % (y, x)]
    return ["\x1f".join(res[0])]


def cmd_sh(a):
    """One object which several threads only look at."""
    t = TYPES[a[0]]
    o, o2 = object_of(t, a[3]), object_of(t, a[3])

    def work(i):
        res = None
        for r in range(int(a[2])):
            x = [None] * 5
            for k in range(5):
                q = (k + i + r) % 5
                if q == 0:
                    o.bitsizeof(3 if r % 2 else 1)
                    x[0] = str(o.bitsizeof(0))
                elif q == 1:
                    x[1] = "eq1" if o == o2 and o2 == o and hash(o) == hash(o2) else "eq0"
                elif q == 2:
                    x[2] = dumps(t, o)
                elif q == 3:
                    w = BitStreamWriter()
                    o.write(w)
                    x[3] = bits(w)
                else:
                    x[4] = str(hash(zserio.to_json_string(o)))
            s = "%s|%s|%s|%s|%s" % (x[0], x[3], x[1], x[4], x[2])
            if res is None:
                res = s
            elif res != s:
                return "changed: %s <> %s" % (res, s)
        return res
    res = in_threads(int(a[1]), work)
    for r in res:
        if r != res[0]:
            return ["threads disagree: %s <> %s" % (res[0], r)]
    return [res[0]]


CMDS = {"MT": cmd_mt, "SH": cmd_sh, "DEC": cmd_dec, "BLD": cmd_bld, "JW": cmd_jw, "JR": cmd_jr, "IMP": cmd_imp, "FUN": cmd_fun, "RAW": cmd_raw,
        "CMP": cmd_cmp}
if len(sys.argv) > 5:
    # additional commands of one check
    spec = importlib.util.spec_from_file_location("extra", sys.argv[5])
    mod = importlib.util.module_from_spec(spec)
    mod.D = sys.modules[__name__]
    spec.loader.exec_module(mod)
    CMDS.update(mod.CMDS)


def main():
    out = sys.stdout
    for line in sys.stdin:
        a = line.rstrip("\n").split("\t")
        out.write(execute(a) + "\n")
        out.flush()


main()
