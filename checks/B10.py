"""B10: bit stream writers and readers of all runtimes agree with the bit level model on every sequence of operations."""
import struct

import common
import zcheck
import zmodel
import zprim
from zmodel import Int, Reject

VAR = {"vi16": "varint16", "vi32": "varint32", "vi64": "varint64", "vi": "varint", "vu16": "varuint16",
       "vu32": "varuint32", "vu64": "varuint64", "vu": "varuint", "vs": "varsize"}
NATIVE = {      # what can be passed to a function at all: (C++, Java)
    "vi16": ((-(1 << 15), (1 << 15) - 1),) * 2, "vi32": ((-(1 << 31), (1 << 31) - 1),) * 2,
    "vi64": ((-(1 << 63), (1 << 63) - 1),) * 2, "vi": ((-(1 << 63), (1 << 63) - 1),) * 2,
    "vu16": ((0, (1 << 16) - 1), (-(1 << 15), (1 << 15) - 1)), "vu32": ((0, (1 << 32) - 1), (-(1 << 31), (1 << 31) - 1)),
    "vu64": ((0, (1 << 64) - 1), (-(1 << 63), (1 << 63) - 1)), "vu": ((0, (1 << 64) - 1), (-(1 << 65), 1 << 65)),
    "vs": ((0, (1 << 32) - 1), (-(1 << 31), (1 << 31) - 1)),
}
TEXTS = ["", "a", "Hello", "Příliš žluťoučký", "\U0001f600x", "\x00\x01\x7f", "日本語", "x" * 130]


def some(rng, lo, hi):
    """A number of a range, with a preference for its limits and for powers of 2."""
    k = rng.randrange(5)
    if k == 0:
        v = rng.choice([lo, hi, lo + 1, hi - 1, 0, 1, -1])
    elif k == 1:
        v = rng.randint(lo, hi)
    else:
        b = rng.randint(0, max(hi.bit_length(), 1))
        v = rng.choice([1, 1, -1]) * ((1 << b) + rng.choice([-1, 0, 1, 0, -1]))
    return min(max(v, lo), hi)


def extern(rng):
    n = rng.choice([0, 1, 7, 8, 9, 15, 16, 31, 64, 65, rng.randint(0, 300)])
    return n, rng.getrandbits(n) if n else 0


class Op:
    """text of the operation for writing and reading, bits written, languages which can do it"""

    def __init__(self, w, r, put, val, langs=None, bad=False):
        self.w, self.r, self.put, self.val, self.langs, self.bad = w, r, put, val, langs, bad


def hexof(n, v):
    return zmodel.to_bytes(n, v).hex()


def op(rng, kinds=None, bad=False):
    k = kinds or rng.choice(["u", "s", "U", "S", "var", "var", "var", "f", "str", "by", "bb", "b", "al", "u", "s"])
    if k in "uUsS" and len(k) == 1:
        n = rng.choice([1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, rng.randint(1, 64), rng.randint(1, 64)])
        t = Int("%s:%d" % ("bit" if k in "uU" else "int", n))
        if bad:
            what = rng.randrange(3)
            if what == 0:
                n2 = rng.choice([0, 65, 100])
                return Op("%s:%d:1" % (k, n2), None, None, None, bad=True, langs=None)
            v = rng.choice([t.hi + 1, t.hi + rng.randint(1, 1 << 62), t.lo - 1, 2 * t.hi + 2])
            langs = ["py", "pycpp"]
            if k in "uU":
                if 0 <= v < 1 << 64:
                    langs.append("cpp")
                    if v < 1 << 63 or n == 64:
                        langs.append("java")
                elif v < 0 and k == "u" and n < 64 and v.bit_length() < 63:
                    langs.append("java")
                if v >= 1 << 64 or v < 0:
                    langs.remove("pycpp")
            elif -(1 << 63) <= v < 1 << 63:
                langs += ["cpp", "java"]
            else:
                langs.remove("pycpp")
            return Op("%s:%d:%d" % (k, n, v), None, None, None, bad=True, langs=langs)
        v = some(rng, t.lo, t.hi)
        return Op("%s:%d:%d" % (k, n, v), "%s:%d" % (k, n), lambda w: t.write(w, v), str(v))
    if k == "var":
        k = rng.choice(list(VAR))
        t = Int(VAR[k])
        if bad:
            v = rng.choice([t.hi + 1, t.lo - 1, t.hi * 2 + 1, t.hi + rng.randint(1, 1 << 30)])
            langs = ["py"]
            if NATIVE[k][0][0] <= v <= NATIVE[k][0][1]:
                langs += ["cpp", "pycpp"]
            if NATIVE[k][1][0] <= v <= NATIVE[k][1][1]:
                langs.append("java")
            return Op("%s:%d" % (k, v), None, None, None, bad=True, langs=langs)
        v = some(rng, t.lo, t.hi)
        return Op("%s:%d" % (k, v), k, lambda w: t.write(w, v), str(v))
    if k == "f":
        b = rng.choice([16, 32, 64])
        e = {16: 5, 32: 8, 64: 11}[b]
        while True:
            v = rng.getrandbits(b)
            if rng.random() < 0.4:      # limits of the exponent
                v = v & ~(((1 << e) - 1) << (b - 1 - e)) | rng.choice([0, 1, (1 << e) - 2, (1 << e) - 1]) << (b - 1 - e)
            if rng.random() < 0.2:
                v &= ~((1 << (b - 1 - e)) - 1)
            exp = v >> (b - 1 - e) & ((1 << e) - 1)
            if exp == (1 << e) - 1 and v & ((1 << (b - 1 - e)) - 1):
                continue        # payloads of NaN may be changed by the native types
            break
        d = struct.unpack({16: ">e", 32: ">f", 64: ">d"}[b], v.to_bytes(b // 8, "big"))[0]
        nat = struct.pack(">d" if b == 64 else ">f", d).hex()
        return Op("f%d:%s" % (b, nat), "f%d" % b, lambda w: w.put(v, b), nat)
    if k == "str":
        s = rng.choice(TEXTS) if rng.random() < 0.7 else "".join(chr(rng.choice([rng.randint(1, 127),
                                                                               rng.randint(128, 0xd7ff),
                                                                               rng.randint(0x10000, 0x10ffff)]))
                                                                 for _ in range(rng.randint(0, 40)))
        h = s.encode().hex()
        return Op("str:" + h, "str", lambda w: zmodel.Str().write(w, s), "x" + h)
    if k == "by":
        b = rng.randbytes(rng.choice([0, 1, 2, 127, 128, rng.randint(0, 300)]))
        return Op("by:" + b.hex(), "by", lambda w: zmodel.Bytes().write(w, b), "x" + b.hex())
    if k == "bb":
        n, v = extern(rng)
        h = bytearray(zmodel.to_bytes(n, v))
        if n % 8 and rng.random() < 0.7:        # the unused bits of the last byte must not matter
            h[-1] |= rng.getrandbits(8) & ((1 << (8 - n % 8)) - 1)
        return Op("bb:%d:%s" % (n, h.hex()), "bb", lambda w: zmodel.Extern().write(w, (n, v)), "%dx%s" % (n, hexof(n, v)))
    if k == "b":
        v = rng.randrange(2)
        return Op("b:%d" % v, "b", lambda w: w.put(v, 1), str(v))
    a = rng.choice([1, 2, 3, 7, 8, 16, 32, 33, 64, 65, 100, 128, rng.randint(1, 300)])
    return Op("al:%d" % a, "al:%d" % a, lambda w: w.align(a), "")


def bits_to_bytes(n, v):
    return zmodel.to_bytes(n, v)


def make(chk, rng, items):
    n = rng.choice([1, 2, 3, 6, 12, 25])
    ops = []
    # a start at any bit offset
    first = rng.randint(0, 15)
    if first:
        ops.append(Op("u:%d:%d" % (first, 0), "u:%d" % first, lambda w: w.put(0, first), "0"))
    for _ in range(n):
        ops.append(op(rng))
    w = zmodel.BitW()
    pos, vals = [], []
    for o in ops:
        o.put(w)
        pos.append(w.n)
        vals.append("%s@%d" % (o.val, w.n))
    nb, v = w.bits()
    kinds = tuple(o.w.split(":")[0] for o in ops)
    chk.nontrivial(first, kinds[:3])
    wtext = "\t".join(o.w for o in ops)
    stream = bits_to_bytes(nb, v)
    # growing writers, and a C++ buffer with some content
    size = len(stream) + rng.randint(0, 3)
    init = rng.randbytes(size)
    exp = ("OK", "".join("%d," % p for p in pos), stream.hex())
    items.append(("W\t%s\t%d\t%s" % (init.hex(), size * 8, wtext), ("w", exp, init, nb, v), None))
    # reading: all operations, with trailing bits or not, then something behind the end
    extra = rng.choice([0, 0, 1, 5, 8])
    tail = rng.getrandbits(extra) if extra else 0
    rb, rv = nb + extra, v << extra | tail
    data = bytearray(bits_to_bytes(rb, rv))
    if rb % 8:
        data[-1] |= rng.getrandbits(8) & ((1 << (8 - rb % 8)) - 1)       # bits outside of the stream
    ctor = rng.randrange(3)
    rtext = [o.r for o in ops]
    want = ["%s," % x for x in vals]
    res = "OK"
    k = rng.randrange(4)
    if k == 0:
        bad = rng.choice(["u:%d" % (extra + 1), "s:%d" % (extra + 1), "U:64", "sp:%d" % (rb + 1), "u:65", "s:65", "al:997",
                          "str" if not extra else "u:9"])
        if not (bad == "al:997" and (-nb) % 997 <= extra):
            rtext.append(bad)
            res = "E%d" % len(ops)
    elif k == 1 and nb:     # go back and read a part again
        i = rng.randrange(len(ops))
        back = pos[i - 1] if i else 0
        rtext += ["sp:%d" % back, ops[i].r]
        want += ["@%d," % back, "%s," % vals[i]]
    items.append(("R\t%s\t%d\t%d\t%s" % (bytes(data).hex(), rb, ctor, "\t".join(rtext)), ("r", (res, "".join(want))), None))
    # truncated stream: an error at the operation which needs the missing bits
    if nb:
        cut = rng.choice([0, nb - 1, rng.randrange(nb), pos[rng.randrange(len(pos))]])
        if cut < nb:
            i = next(i for i, p in enumerate(pos) if p > cut)
            d = bits_to_bytes(cut, v >> (nb - cut))
            d += rng.randbytes(rng.randrange(3))
            if len(d) * 8 >= cut:
                items.append(("R\t%s\t%d\t%d\t%s" % (d.hex(), cut, ctor if len(d) * 8 - cut < 8 else 0, "\t".join(rtext[:len(ops)])),
                              ("r", ("E%d" % i, "".join("%s," % x for x in vals[:i]))), None))
        # the buffer of a C++ writer ends too early
        cap = rng.choice([nb - 1, rng.randrange(nb)])
        i = next(i for i, p in enumerate(pos) if p > cap)
        bs = (cap + 7) // 8 + rng.randrange(2)
        init = rng.randbytes(bs)
        items.append(("W\t%s\t%d\t%s" % (init.hex(), cap, wtext),
                      ("full", i, "".join("%d," % p for p in pos[:i]), pos[i - 1] if i else 0, nb, v, init, cap), ["cpp"]))
    # an operation which can't be done after some others
    b = op(rng, rng.choice(["u", "s", "U", "S", "var", "var"]), True)
    i = rng.randint(0, len(ops))
    items.append(("W\t%s\t%d\t%s" % ("00" * (size + 40), 8 * (size + 40), "\t".join([o.w for o in ops[:i]] + [b.w])),
                  ("bad", i, "".join("%d," % p for p in pos[:i]), pos[i - 1] if i else 0, nb, v), b.langs))
    # overwriting in a C++ buffer
    if nb and rng.random() < 0.5:
        o = op(rng, rng.choice(["u", "s", "var", "f", "b", "by", "bb", "al", "str"]))
        at = rng.randint(0, nb - 1)
        w2 = zmodel.BitW(at)
        o.put(w2)
        n2, v2 = w2.bits()
        tot = size * 8
        if at + n2 <= tot:
            whole = int.from_bytes(stream + bytes(size - len(stream)), "big")
            sh = tot - at - n2
            whole = whole & ~(((1 << n2) - 1) << sh) | v2 << sh
            items.append(("W\t%s\t%d\t%s\tsp:%d\t%s" % ("00" * size, tot, wtext, at, o.w),
                          ("over", "".join("%d," % p for p in pos + [at, at + n2]), whole.to_bytes(size, "big").hex()),
                          ["cpp"]))
    # sizes
    for o in ops:
        kk = o.w.split(":")[0]
        if kk in VAR or kk in ("str", "by", "bb"):
            for start in (0,):
                w3 = zmodel.BitW()
                o.put(w3)
                items.append(("Z\t" + o.w, ("z", "OK|%d" % w3.n), None))
    if b.w.split(":")[0] in VAR:
        items.append(("Z\t" + b.w, ("z", "E"), b.langs))
    a, p = rng.randint(1, 200), rng.choice([rng.randint(0, 5000), rng.getrandbits(40)])
    items.append(("Z\tal:%d:%d" % (a, p), ("z", "OK|%d" % ((p + a - 1) // a * a)), None))
    chk.sample({"write": wtext[:300], "bits": nb})


def judge(prim, lang, cmd, tag, r):
    chk = prim.chk
    p = r.split("|")
    kind = tag[0]
    chk.count("cases " + kind)
    if kind == "w":
        _, (st, pos, hx), init, nb, v = tag
        exp = "|".join((st, pos, hx))
        if lang == "cpp":
            whole = bytearray(init)
            n = nb // 8
            st_bytes = bits_to_bytes(nb, v)
            whole[:n] = st_bytes[:n]
            if nb % 8:
                m = (1 << (8 - nb % 8)) - 1
                whole[n] = (st_bytes[n] & ~m & 0xff) | (whole[n] & m)
            exp = "|".join((st, pos, bytes(whole).hex()))
        if r != exp:
            prim.bad(lang, cmd, "written stream", exp, r)
    elif kind == "r":
        exp = "|".join(tag[1])
        if r != exp:
            prim.bad(lang, cmd, "read values", exp, r)
    elif kind in ("bad", "full"):
        i, pos, at = tag[1:4]
        if len(p) < 4 or p[0] != "E%d" % i or p[2] != pos:
            prim.bad(lang, cmd, "operation has to be refused", "E%d" % i, r)
            return
        nb, v = tag[4:6]
        got = bytes.fromhex(p[3])
        gv = int.from_bytes(got, "big") >> (len(got) * 8 - at) if len(got) * 8 >= at else None
        if gv != v >> (nb - at):
            prim.bad(lang, cmd, "refused operation damaged what was written before", v >> (nb - at), gv)
        if kind == "full":
            init, cap = tag[6:8]
            m = len(got) * 8 - cap
            if int.from_bytes(got, "big") & ((1 << m) - 1) != int.from_bytes(init, "big") & ((1 << m) - 1):
                prim.bad(lang, cmd, "bits behind the buffer changed", init.hex(), got.hex())
    elif kind == "over":
        if r != "OK|%s|%s" % tag[1:]:
            prim.bad(lang, cmd, "overwriting", "OK|%s|%s" % tag[1:], r)
    elif kind == "z":
        if r != tag[1]:
            prim.bad(lang, cmd, "bit size", tag[1], r)


def check(chk):
    chk.rule = ("sequences of operations of writers and readers at all bit offsets: all kinds of numbers, texts, buffers, "
                "alignment, seeking, truncated streams, full buffers, refused values; non-trivial = distinct (start "
                "offset, first kinds of operations)")
    chk.assumptions = ["the bit level model in lib/zmodel.py"]
    prim = zprim.Prim(chk)
    rnd = 0
    while True:
        items = []
        rng = chk.rng("ops", rnd)
        for _ in range(chk.pick(1500, 4000)):
            make(chk, rng, items)
        for lang, cmd, tag, r in prim.run(items, timeout=chk.pick(200, 600)):
            judge(prim, lang, cmd, tag, r)
        rnd += 1
        if not chk.thorough or chk.left(900) < 0 or rnd >= 12:
            break


if __name__ == "__main__":
    zcheck.main("B10", check)
