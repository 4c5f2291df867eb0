"""B11: conversions between floating point numbers and their bits are exact in all runtimes."""
import struct
from fractions import Fraction

import common
import zcheck
import zprim

HALF = [struct.unpack(">e", i.to_bytes(2, "big"))[0] for i in range(0x7c01)]       # 0 .. max, inf
LIMIT = Fraction(65520)     # from here on the result is infinity


def f32bits(d):
    return struct.pack(">f", d).hex()


def halves(bits):
    """All acceptable half floats of a single float: the exact one or a nearest one."""
    f = struct.unpack(">f", bits.to_bytes(4, "big"))[0]
    sign = 0x8000 if bits >> 31 else 0
    if f != f:
        return "nan"
    a = abs(f)
    if a >= 65520:
        return {sign | 0x7c00}
    x = Fraction(a)
    lo, hi = 0, 0x7c00
    while hi - lo > 1:
        m = (lo + hi) // 2
        if Fraction(HALF[m]) <= x if m < 0x7c00 else False:
            lo = m
        else:
            hi = m
    v = Fraction(HALF[lo])
    up = Fraction(HALF[hi]) if hi < 0x7c00 else Fraction(65536)
    if v == x:
        return {sign | lo}
    if x - v < up - x and lo:
        return {sign | lo}
    if x - v > up - x and lo:
        return {sign | hi}
    return {sign | lo, sign | hi}        # a tie, or less than the smallest half


def single(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.getrandbits(32)
    if k == 1:      # exponents around the limits of half floats
        return rng.getrandbits(1) << 31 | rng.choice([0, 1, 101, 102, 103, 104, 112, 113, 114, 126, 127, 128, 141, 142, 143,
                                                        144, 145, 158, 159, 160, 254, 255]) << 23 | rng.choice(
            [0, 1, 0x1000, 0x0fff, 0x1001, 0x1fff, 0x2000, 0x7fffff, 0x7fe000, 0x7ff000, 0x7fefff, rng.getrandbits(23)])
    if k == 2:      # exact halves and their neighbours
        b = int(f32bits(rng.choice(HALF[:-1])), 16)
        return max(0, b + rng.choice([-1, 0, 0, 1, 0x1000, 0xfff, 0x1001])) | rng.getrandbits(1) << 31
    if k == 3:
        return int(f32bits(rng.uniform(-70000, 70000)), 16)
    if k == 4:
        return int(f32bits(rng.uniform(-1e-4, 1e-4)), 16)
    return rng.getrandbits(1) << 31 | rng.getrandbits(8) << 23 | rng.choice([0, 1 << 22, 0x7fffff, 1 << rng.randrange(23)])


def nan32(b):
    return b & 0x7f800000 == 0x7f800000 and b & 0x7fffff


def nan64(b):
    return b & (0x7ff << 52) == 0x7ff << 52 and b & ((1 << 52) - 1)


def check(chk):
    chk.rule = ("all 65536 half floats in all runtimes; single and double floats at the limits of exponents and "
                "significands and random ones; non-trivial = distinct exponents")
    chk.assumptions = ["Python's struct and fractions modules for IEEE 754"]
    prim = zprim.Prim(chk)
    items = []
    for i in range(0, 65536, 4096):
        items.append(("H16\t%d\t%d" % (i, i + 4096), ("h", i), None))
    rng = chk.rng("f")
    for _ in range(chk.pick(800, 8000)):
        bs = [single(rng) for _ in range(40)]
        for b in bs:
            chk.nontrivial("f", b >> 23)
        items.append(("F\t" + "\t".join("%08x" % b for b in bs), ("f", bs), None))
        ds = [rng.choice([rng.getrandbits(64), rng.getrandbits(1) << 63 | rng.choice([0, 1, 2046, 2047, 1023]) << 52 |
                          rng.choice([0, 1, (1 << 52) - 1, 1 << 51])]) for _ in range(10)]
        for b in ds:
            chk.nontrivial("d", b >> 52)
        items.append(("D\t" + "\t".join("%016x" % b for b in ds), ("d", ds), None))
    for lang, cmd, tag, r in prim.run(items):
        if not r.startswith("OK|"):
            prim.bad(lang, cmd, "conversion failed", "OK", r)
            continue
        r = r[3:]
        if tag[0] == "h":
            for k in range(4096):
                i = tag[1] + k
                f, back = int(r[12 * k:12 * k + 8], 16), int(r[12 * k + 8:12 * k + 12], 16)
                exp = int(struct.pack(">f", struct.unpack(">e", i.to_bytes(2, "big"))[0]).hex(), 16)
                chk.eval()
                if nan32(exp):
                    if not nan32(f) or not (back & 0x7c00 == 0x7c00 and back & 0x3ff):
                        prim.bad(lang, cmd, "half NaN %04x" % i, "NaN", "%08x %04x" % (f, back))
                elif f != exp or back != i:
                    prim.bad(lang, cmd, "half float %04x" % i, "%08x %04x" % (exp, i), "%08x %04x" % (f, back))
            chk.count("half floats " + lang, 4096)
            continue
        for b, w in zip(tag[1], r.split(",")):
            chk.eval()
            if tag[0] == "f":
                h, s, back = int(w[:4], 16), int(w[4:12], 16), int(w[12:], 16)
                ok = halves(b)
                if ok == "nan":
                    # only quiet NaNs: the payload of others need not survive
                    if b & 0x400000 and not (h & 0x7c00 == 0x7c00 and h & 0x3ff) or not nan32(s) or not nan32(back):
                        prim.bad(lang, "F\t%08x" % b, "NaN", "NaN", w)
                    continue
                if h not in ok:
                    prim.bad(lang, "F\t%08x" % b, "conversion to half float", ["%04x" % x for x in ok], w)
                if s != b or back != b:
                    prim.bad(lang, "F\t%08x" % b, "single float", "%08x" % b, w)
            else:
                s, back = int(w[:16], 16), int(w[16:], 16)
                if nan64(b):
                    if not nan64(s) or not nan64(back):
                        prim.bad(lang, "D\t%016x" % b, "NaN", "NaN", w)
                elif s != b or back != b:
                    prim.bad(lang, "D\t%016x" % b, "double float", "%016x" % b, w)


if __name__ == "__main__":
    zcheck.main("B11", check)
