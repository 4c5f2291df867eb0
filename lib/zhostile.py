"""Hostile bit streams and hostile values derived from valid ones."""
import zmodel


def mutate(rng, nbits, bits, others=()):
    """Returns (nbits, bits, kind). bits is an integer with the most significant bit first."""
    k = rng.random()
    if k < 0.16 and nbits:
        n = rng.randrange(nbits)
        return n, bits >> (nbits - n), "truncated"
    if k < 0.40 and nbits:
        b = bits
        for _ in range(rng.choice([1, 1, 1, 2, 3, 8])):
            b ^= 1 << rng.randrange(nbits)
        return nbits, b, "flipped"
    if k < 0.52 and nbits >= 8:
        # a byte at a byte boundary gets a value which is special for lengths and headers
        i = rng.randrange(nbits // 8)
        sh = nbits - 8 * (i + 1)
        v = rng.choice([0, 0xff, 0x80, 0x7f, 0xc0, 0x01, 0x40, 0xfe])
        return nbits, (bits & ~(0xff << sh)) | (v << sh), "byte"
    if k < 0.60 and nbits:
        # a run of ones or zeros
        n = rng.choice([3, 5, 9, 17, 33, 70])
        p = rng.randrange(nbits)
        n = min(n, nbits - p)
        m = ((1 << n) - 1) << (nbits - p - n)
        return nbits, (bits | m) if rng.random() < 0.6 else (bits & ~m), "run"
    if k < 0.70:
        # insertion of bits
        p = rng.randrange(nbits + 1)
        n = rng.choice([1, 3, 8, 16, 40])
        hi, lo = bits >> (nbits - p), bits & ((1 << (nbits - p)) - 1)
        return nbits + n, (((hi << n) | rng.getrandbits(n)) << (nbits - p)) | lo, "inserted"
    if k < 0.80 and nbits > 8:
        # removal of bits
        n = min(rng.choice([1, 3, 8, 16, 40]), nbits - 1)
        p = rng.randrange(nbits - n)
        hi, lo = bits >> (nbits - p), bits & ((1 << (nbits - p - n)) - 1)
        return nbits - n, (hi << (nbits - p - n)) | lo, "removed"
    if k < 0.88 and others:
        # beginning of this one, end of another one
        n2, b2 = rng.choice(others)
        p = rng.randrange(nbits + 1)
        q = rng.randrange(n2 + 1)
        return p + q, ((bits >> (nbits - p)) << q) | (b2 & ((1 << q) - 1)), "spliced"
    if k < 0.94:
        n = rng.choice([0, 1, 7, 8, 24, 64, 200, 512])
        return n, rng.getrandbits(n) if n else 0, "random"
    n = rng.choice([1, 8, 13, 64, 300])
    return nbits + n, (bits << n) | rng.getrandbits(n), "extended"


# ------------------------------------------------------------------ values

def leaves(v):
    """All places of values which are written: (owner, field, index or None, packed, depth)."""
    out = []

    def walk(x, packed, depth):
        for f in x.t.fields:
            y = x.f.get(f.name)
            if y is None:
                continue
            pk = bool(packed or f.packed) and f.packable()
            if f.array:
                out.append((x, f, "array", pk, depth))
            for i, e in enumerate(y if f.array else [y]):
                if isinstance(e, zmodel.Val):
                    out.append((x, f, i if f.array else None, pk, depth))
                    walk(e, pk, depth + 1)
                else:
                    out.append((x, f, i if f.array else None, pk, depth))
    walk(v, False, 0)
    return out


def reparam(v):
    """Parameters follow the current values of the fields they are instantiated with."""
    for f in v.t.fields:
        y = v.f.get(f.name)
        if y is None or not f.elem().is_compound:
            continue
        for i, e in enumerate(y if f.array else [y]):
            ctx = zmodel.Ctx(v, i if f.array else None)
            e.params = [a.ev(ctx) for a in f.args]
            reparam(e)


def native_range(t):
    """Values which fit to the C++ type of an integer."""
    n = t.bits or {"varint16": 16, "varint32": 32, "varint64": 64, "varint": 64, "varuint16": 16, "varuint32": 32,
                   "varuint64": 64, "varuint": 64, "varsize": 32}[t.code]
    n = next(k for k in (8, 16, 32, 64) if n <= k)
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if t.signed else (0, (1 << n) - 1)


def break_value(rng, val, packed=False):
    """A copy of a value with one thing changed, most often so that it must not be written.

    Returns (value, kind, cpp) or None; cpp says whether the change can be expressed in C++.
    packed: also numbers out of the range of their type in packed arrays, which are refused with range checking code only.
    """
    v = zmodel.clone(val)
    zmodel.layout(v, 0)
    ls = leaves(v)
    kinds = {}

    def add(kind, *w):
        kinds.setdefault(kind, []).append(w)

    for x, f, i, pk, depth in ls:
        t = f.elem().base()
        if i == "array":
            if f.array == "fixed":
                add("array length", x, f)
            continue
        if f.role in ("offset",):
            add("offset", x, f, i)
        elif isinstance(t, (zmodel.Int, zmodel.DynBit)) and not pk:
            add("range", x, f, i)
        elif packed and isinstance(t, zmodel.Int) and pk:
            add("range packed", x, f, i)
        elif isinstance(t, zmodel.Enum):
            add("enum", x, f, i)
        if f.constraint is not None and not f.array:
            add("constraint", x, f)
        if f.optional is None and i is None and depth and False:
            add("missing", x, f)
        if isinstance(t, zmodel.Compound):
            if t.kind == "union":
                add("union", x, f, i)
            if not f.array and f.args:
                add("parameter", x, f)
        if f.optional is not None and f.optional is not True and not f.array and not isinstance(t, zmodel.Bool):
            add("absent", x, f)
        if f.role not in ("offset",) and not f.array and isinstance(t, (zmodel.Int, zmodel.Bool)):
            add("other", x, f, i)
    kinds = {k: w for k, w in kinds.items() if w}
    if not kinds:
        return None
    kind = rng.choice(sorted(kinds))
    if "range packed" in kinds and rng.random() < 0.15:
        kind = "range packed"
    w = rng.choice(kinds[kind])
    if kind in ("range", "range packed") and rng.random() < 0.7:
        # which C++ can hold, too
        fit = [w for w in kinds[kind] if isinstance(w[1].elem().base(), zmodel.Int) and
               native_range(w[1].elem().base()) != (w[1].elem().base().lo, w[1].elem().base().hi)]
        w = rng.choice([w for w in fit if w[1].packed and rng.random() < 0.9] or fit or [w])
    x, f = w[0], w[1]
    t = f.elem().base()
    cpp = True

    def put(i, y):
        if i is None:
            x.f[f.name] = y
        else:
            x.f[f.name][i] = y

    def get(i):
        return x.f[f.name] if i is None else x.f[f.name][i]

    if kind == "array length":
        a = x.f[f.name]
        if a and rng.random() < 0.6:
            a.pop(rng.randrange(len(a)))
        elif a:
            a.append(zmodel.clone(a[-1]) if isinstance(a[-1], zmodel.Val) else a[-1])
        else:
            return None
    elif kind == "offset":
        it = t
        y = get(w[2]) + rng.choice([1, -1, 2, 8, -get(w[2])])
        if not it.lo <= y <= it.hi or y == get(w[2]):
            return None
        put(w[2], y)
    elif kind in ("range", "range packed"):
        it = t.inst(zmodel.Ctx(x)) if isinstance(t, zmodel.DynBit) else t
        y = rng.choice([it.hi + 1, it.lo - 1, it.hi + rng.randrange(1, 300), it.hi * 2 + 1, 2 * it.lo - 1])
        lo, hi = native_range(it) if not isinstance(t, zmodel.DynBit) else (
            (-(1 << 63), (1 << 63) - 1) if it.signed else (0, (1 << 64) - 1))
        if not lo <= y <= hi and rng.random() < 0.7:
            y = rng.choice([hi, lo])
            if it.lo <= y <= it.hi:
                y = it.hi + 1
        cpp = lo <= y <= hi
        if isinstance(t, zmodel.DynBit):
            kind = "range dynamic"
        put(w[2], y)
    elif kind == "enum":
        lo, hi = native_range(t.basetype.base())
        bad = [y for y in (0, 1, 2, 77, hi, lo, max(t.values) + 1) if y not in t.values and lo <= y <= hi]
        if not bad:
            return None
        put(w[2], rng.choice(bad))
    elif kind == "constraint":
        if not isinstance(t, zmodel.Int):
            return None
        x.f[f.name] = rng.choice([t.lo, t.hi, 0, 1, rng.randint(t.lo, t.hi)])
        if not t.lo <= x.f[f.name] <= t.hi:
            return None
    elif kind == "union":
        u = get(w[2])
        u.sel, u.f = None, {}
    elif kind == "parameter":
        c = x.f[f.name]
        ps = [i for i, (pt, _) in enumerate(c.t.params) if isinstance(pt.base(), zmodel.Int)]
        if not ps:
            return None
        i = rng.choice(ps)
        pt = c.t.params[i][0].base()
        y = rng.choice([pt.lo, pt.hi, c.params[i] + 1, c.params[i] - 1])
        if y == c.params[i] or not pt.lo <= y <= pt.hi:
            return None
        c.params = list(c.params)
        c.params[i] = y
        return v, kind, False
    elif kind == "absent":
        x.f[f.name] = None
    elif kind == "other":
        if isinstance(t, zmodel.Bool):
            put(w[2], not get(w[2]))
        else:
            put(w[2], rng.choice([0, 1, t.hi, t.lo, min(get(w[2]) + 1, t.hi), max(get(w[2]) - 1, t.lo)]))
    reparam(v)
    return v, kind, cpp


def vary_scalar(rng, t, x, ctx):
    """Another value of a simple type, often a close one."""
    if isinstance(t, zmodel.DynBit):
        t = t.inst(ctx)
    if isinstance(t, zmodel.Int):
        y = rng.choice([x + 1, x - 1, -x, x ^ 1, t.lo, t.hi, 0, x ^ (1 << rng.randrange(t.bits or 64)), rng.randint(t.lo, t.hi)])
        return y if t.lo <= y <= t.hi else t.lo
    if isinstance(t, zmodel.Bool):
        return not x
    if isinstance(t, zmodel.Str):
        return rng.choice([x + "a", x[:-1], "", "\u00e9" + x, x[:-1] + "\u20ac", x + "\0", "b" + x])
    if isinstance(t, zmodel.Bytes):
        return rng.choice([x + b"\0", x[:-1], b"", b"\x80" + x, x[:-1] + bytes([rng.randrange(256)])])
    if isinstance(t, zmodel.Extern):
        n, b = x
        k = rng.randrange(4)
        if k == 0 and n:
            return n, b ^ (1 << rng.randrange(n))
        if k == 1:
            return n + 1, b << 1 | rng.randrange(2)
        if k == 2 and n:
            return n - 1, b >> 1
        return 0, 0
    if isinstance(t, zmodel.Enum):
        return rng.choice(t.values)
    if isinstance(t, zmodel.Bitmask):
        bt = t.basetype.base()
        return rng.choice([0, x ^ 1, x ^ 2, bt.hi if bt.bits else x, rng.choice([i[1] for i in t.items])])
    if isinstance(t, zmodel.Float):
        return t.from_double(rng.choice([0.0, 1.0, -1.0, 1.5, -1.5, 2.0, -1e-3, 1000.0]))
    raise AssertionError(t)


def vary(rng, val, tries=8):
    """A valid value which differs from the given one in one place (or in what depends on it), or None."""
    for _ in range(tries):
        v = zmodel.clone(val)
        ls = [l for l in leaves(v) if l[1].role != "offset"]
        opt = []

        def walk(x):
            for f in x.t.fields:
                if f.optional is True and (not f.extend or x.ext == x.t.num_extended()):
                    opt.append((x, f))
                y = x.f.get(f.name)
                if y is not None and f.elem().is_compound:
                    for e in (y if f.array else [y]):
                        walk(e)
        walk(v)
        if not ls and not opt:
            return None
        try:
            if opt and rng.random() < 0.25:
                x, f = rng.choice(opt)
                if x.f.get(f.name) is None:
                    t = f.elem().base()
                    if f.array == "fixed" or t.is_compound:
                        continue
                    if f.array:
                        x.f[f.name] = []
                    else:
                        x.f[f.name] = vary_scalar(rng, t, DEFAULT[type(t)] if not isinstance(t, zmodel.Enum) else
                                                  t.values[0], zmodel.Ctx(x))
                else:
                    x.f[f.name] = None
            else:
                # deep places are many: prefer the ones near the end of the list a bit less
                x, f, i, _, _ = rng.choice(ls)
                t = f.elem().base()
                y = x.f[f.name]
                if i == "array":
                    if rng.random() < 0.5 and y:
                        y.pop(rng.choice([0, -1]))
                    elif y:
                        y.append(zmodel.clone(y[-1]) if isinstance(y[-1], zmodel.Val) else y[-1])
                    elif not t.is_compound:
                        y.append(vary_scalar(rng, t, DEFAULT[type(t)] if not isinstance(t, zmodel.Enum) else
                                             t.values[0], zmodel.Ctx(x)))
                    if f.array == "fixed":
                        continue
                elif isinstance(t, zmodel.Compound):
                    continue
                elif i is None:
                    x.f[f.name] = vary_scalar(rng, t, y, zmodel.Ctx(x))
                else:
                    y[i] = vary_scalar(rng, t, y[i], zmodel.Ctx(x, i))
            reparam(v)
            zmodel.layout(v, 0)
            n, b = zmodel.encode(v, 0)
            w, _ = zmodel.decode(v.t, v.params, n, b)[:2]
            if zmodel.dump(w) != zmodel.dump(v):
                continue
            return v
        except (zmodel.Reject, zmodel.Unsure, zmodel.Missing, KeyError, TypeError, AttributeError, IndexError):
            continue
    return None


DEFAULT = {zmodel.Int: 0, zmodel.DynBit: 0, zmodel.Bool: False, zmodel.Str: "", zmodel.Bytes: b"", zmodel.Extern: (0, 0),
           zmodel.Bitmask: 0, zmodel.Float: 0}
