"""B12: bit buffers are equal exactly if their bits are; hash codes and order agree with equality."""
import common
import zcheck
import zmodel
import zprim


def check(chk):
    chk.rule = ("families of bit buffers which differ in single bits, in length or only in unused bits; non-trivial = "
                "distinct (sizes, equality pattern)")
    chk.assumptions = ["two bit buffers are the same if they have the same number of bits and the same bits"]
    prim = zprim.Prim(chk)
    rng = chk.rng("q")
    items = []
    for _ in range(chk.pick(3000, 40000)):
        n = rng.choice([0, 1, 5, 7, 8, 9, 15, 16, 17, 24, 31, 64, rng.randint(1, 200)])
        base = rng.getrandbits(n) if n else 0
        bufs = []
        for _ in range(6):
            m, v = n, base
            k = rng.randrange(7)
            if k == 1 and n:
                v ^= 1 << rng.randrange(n)
            elif k == 2 and n:
                v ^= 1 << rng.choice([0, n - 1, n // 2])
            elif k == 3:
                m, v = n + 1, v << 1 | rng.randrange(2)
            elif k == 4 and n:
                m, v = n - 1, v >> 1
            elif k == 5:
                m = rng.randint(0, n + 8)
                v = rng.getrandbits(m) if m else 0
            data = bytearray(zmodel.to_bytes(m, v))
            if m % 8 and rng.random() < 0.7:
                data[-1] |= rng.getrandbits(8) & ((1 << (8 - m % 8)) - 1)
            if rng.random() < 0.3:
                data += rng.randbytes(rng.randint(1, 3))
            bufs.append((m, v, bytes(data)))
        bad = rng.random() < 0.05
        args = [(str(m), d.hex()) for m, v, d in bufs]
        if bad:
            i = rng.randrange(len(bufs))
            m, v, d = bufs[i]
            args[i] = (str(len(d) * 8 + rng.choice([1, 8, 100])), d.hex())
            items.append(("Q\t" + "\t".join("\t".join(a) for a in args), ("bad", i), None))
            continue
        eq = "".join("1" if (x[0], x[1]) == (y[0], y[1]) else "0" for x in bufs for y in bufs)
        chk.nontrivial(tuple(b[0] for b in bufs), eq)
        items.append(("Q\t" + "\t".join("\t".join(a) for a in args), ("q", eq, bufs), None))
    for lang, cmd, tag, r in prim.run(items):
        p = r.split("|")
        if tag[0] == "bad":
            if r != "E%d" % tag[1]:
                prim.bad(lang, cmd, "more bits than bytes", "E%d" % tag[1], r)
            continue
        _, eq, bufs = tag
        k = len(bufs)
        if p[0] != "OK":
            prim.bad(lang, cmd, "failed", "OK", r)
            continue
        if p[1] != eq:
            prim.bad(lang, cmd, "equality", eq, p[1])
        if any(a == "1" and b == "0" for a, b in zip(eq, p[2])):
            prim.bad(lang, cmd, "equal bit buffers have different hash codes", eq, p[2])
        diff = sum(a == "0" for a in eq)
        chk.count("different pairs", diff)
        chk.count("different pairs with the same hash code", sum(a == "0" and b == "1" for a, b in zip(eq, p[2])))
        for (m, v, d), s in zip(bufs, p[3].split(",")):
            w = s.split(":")
            n = (m + 7) // 8
            if w[0] != str(m) or w[1] != str(n) or w[2][:2 * (m // 8)] != d.hex()[:2 * (m // 8)] or \
                    int(w[2][:2 * n] or "0", 16) >> (8 * n - m) != v:
                prim.bad(lang, cmd, "content of a bit buffer", "%d:%s" % (m, d.hex()), s)
        if lang == "cpp":
            lt = p[4]
            L = [[lt[i * k + j] == "1" for j in range(k)] for i in range(k)]
            E = [[eq[i * k + j] == "1" for j in range(k)] for i in range(k)]
            for i in range(k):
                for j in range(k):
                    if L[i][j] + L[j][i] + E[i][j] != 1:
                        prim.bad(lang, cmd, "order of %d and %d" % (i, j), "exactly one of <, >, ==", lt)
                    for x in range(k):
                        if L[i][j] and L[j][x] and not L[i][x]:
                            prim.bad(lang, cmd, "order isn't transitive", "a < b < c", lt)


if __name__ == "__main__":
    zcheck.main("B12", check)
