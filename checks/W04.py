"""W04: packed arrays keep every sequence of values and take exactly the documented space."""
import common
import zcheck
import zcore
import zgen
import zmodel
import zsys
from zmodel import Bitmask, Bool, Enum, Float, Int, Val


def pattern(rng, lo, hi, n):
    """A sequence of n numbers whose differences are of a certain kind."""
    k = rng.randrange(11)
    span = hi - lo
    if k == 0:
        return [rng.choice([lo, hi, 0 if lo <= 0 <= hi else lo, rng.randint(lo, hi)])] * n
    if k == 1:
        return [lo if i % 2 else hi for i in range(n)]
    if k == 2:
        s, d = rng.randint(lo, hi), rng.choice([1, -1, 2, 3, -7, span // max(n, 1) or 1])
        return [min(max(s + i * d, lo), hi) for i in range(n)]
    if k == 3:      # all equal but the last one / the first one
        a, b = rng.randint(lo, hi), rng.randint(lo, hi)
        return ([a] * (n - 1) + [b]) if rng.random() < 0.5 else ([b] + [a] * (n - 1))
    if k == 4:      # a difference of exactly so many bits
        b = rng.choice([1, 2, 7, 8, 31, 32, 33, 61, 62, 63, 64])
        out, x = [], rng.randint(lo, hi)
        for i in range(n):
            out.append(x)
            d = rng.choice([(1 << b) - 1, 1 << b, -(1 << b), -(1 << b) + 1, (1 << b >> 1), -(1 << b >> 1) - 1, 0])
            x = x + d if lo <= x + d <= hi else (x - d if lo <= x - d <= hi else x)
        return out
    if k == 5:
        out, x = [], rng.randint(lo, hi)
        for i in range(n):
            out.append(x)
            x = min(max(x + rng.randint(-3, 3), lo), hi)
        return out
    if k == 6:
        return [rng.randint(lo, hi) for _ in range(n)]
    if k == 7:
        return [rng.choice([lo, lo + 1, hi, hi - 1] if span else [lo]) for _ in range(n)]
    if k == 8:
        return sorted(rng.randint(lo, hi) for _ in range(n))
    if k == 9:
        return [min(hi, lo + (1 << (i % 64))) for i in range(n)]
    m = (lo + hi) // 2
    return [min(max(m + rng.choice([0, 1, -1, 1 << rng.randrange(64), -(1 << rng.randrange(64))]), lo), hi)
            for _ in range(n)]


def domain(t, owner):
    """(lowest, highest, list of values or None) of a packable type."""
    t = t.base()
    if isinstance(t, zmodel.DynBit):
        t = t.inst(zmodel.Ctx(owner))
    if isinstance(t, Int):
        return t.lo, t.hi, None
    if isinstance(t, Enum):
        return 0, len(t.values) - 1, sorted(t.values)
    if isinstance(t, Bitmask):
        b = t.basetype.base()
        return b.lo, b.hi, None
    return None


def free(f):
    return not f.role and f.constraint is None and not getattr(f, "bounds", None) and not getattr(f, "pool", None)


def fill(rng, v, force):
    """Replaces the numbers of all packed arrays of a value by patterns; returns a copy."""
    v = zmodel.clone(v)

    def lengthen(xs, f):
        if f.array != "auto" or not force or getattr(f, "match", None) or getattr(f, "maxlen", None) or not xs:
            return
        n = rng.choice([1, 2, 3, 5, 17, 60, 130])
        while len(xs) < n:
            xs.append(zmodel.clone(xs[rng.randrange(len(xs))]) if isinstance(xs[0], Val) else xs[0])

    def columns(elems):
        """The same field of consecutive elements gets a pattern."""
        if not elems:
            return
        for t in {id(e.t): e.t for e in elems}.values():
            es = [e for e in elems if e.t is t]
            for f in t.fields:
                if not free(f) or f.array:
                    continue
                have = [e for e in es if e.f.get(f.name) is not None]
                if not have:
                    continue
                if f.elem().is_compound:
                    columns([e.f[f.name] for e in have])
                    continue
                d = domain(f.type, have[0])
                if d is None or isinstance(f.type.base(), zmodel.DynBit):
                    continue
                for e, x in zip(have, pattern(rng, d[0], d[1], len(have))):
                    e.f[f.name] = d[2][x] if d[2] else x

    def walk(x, packed):
        for f in x.t.fields:
            y = x.f.get(f.name)
            if y is None:
                continue
            pk = (packed or f.packed) and f.packable()
            if f.array and pk and free(f):
                lengthen(y, f)
                if f.elem().is_compound:
                    if y and y[0].t.kind != "choice":
                        columns(y)
                else:
                    d = domain(f.type, x)
                    if d:
                        y[:] = [d[2][i] if d[2] else i for i in pattern(rng, d[0], d[1], len(y))]
            if f.elem().is_compound:
                for e in y if f.array else [y]:
                    walk(e, pk)
    walk(v, False)
    zmodel.layout(v, 0)
    zmodel.encode(v, 0)
    return v


def specs(chk, n, rnd=0):
    out = [("packed", "packed"), ("arrays", "arrays")] if rnd == 0 else []
    for i, s in enumerate(chk.seeds(n, "schema%d" % rnd)):
        r = chk.rng("opts", rnd, i)
        out.append((s, zgen.Opts(packages=1, packed=r.choice([0.7, 0.9]), compounds=r.choice([4, 6]),
                                 fields=r.choice([(2, 7), (3, 10)]))))
    return out


def round_(chk, rnd, n, nv):
    core = zcore.Core(chk, specs(chk, n, rnd))
    items = []
    for j in core.lab.jobs:
        many = 3 if j.seed in ("packed", "arrays") else 1
        for val in core.values(j, nv * many):
            if not any(p for _, _, _, p, _ in zhostile_leaves(val.v)):
                continue
            v = None
            rng = chk.rng("fill", j.seed, val.type, val.i)
            for k in range(3):
                try:
                    v = fill(rng, val.v, k < 2)
                    break
                except Exception:       # the pattern breaks a rule of the schema
                    chk.count("patterns which do not fit")
            if v is None:
                continue
            new = zcore.Value(j, v, val.i)
            if new.nbits > 60000:
                continue
            chk.nontrivial(zcore.features(v), new.nbits // 64)
            chk.count("bits of packed values", new.nbits)
            items.append((j, zcore.dec_cmd(new), zcore.dec_exp(new)))
            c = zcore.bld_cmd(new, rng.choice([0, 0, 3, 8, 13]))
            if c:
                items.append((j, c[0], c[1]))
            chk.sample({"schema": j.seed, "type": new.type, "value": new.dump[:300]})
    for lang, j, cmd, exp, r in core.run(items):
        got = zcore.parse(cmd, r)
        if got["state"] != "OK":
            core.mismatch(lang, j, cmd, "outcome of a valid value", "OK", r[:600])
            continue
        if zcore.flags_bad(got["flags"]):
            core.mismatch(lang, j, cmd, "equality of what was read back", "eq111", got["flags"])
        for f in ("dump", "bits", "size", "consumed", "sizes", "end"):
            if f in got and f in exp and got[f] != exp[f]:
                core.mismatch(lang, j, cmd, f, exp[f], got[f])
                break
    core.close()


def zhostile_leaves(v):
    import zhostile
    return zhostile.leaves(v)


def check(chk):
    chk.rule = ("packed arrays of all packable types, of structures, unions and choices, filled with patterns (constant, "
                "alternating extremes, ramps, single jumps, differences of exactly k bits, sorted, random); non-trivial "
                "= distinct (feature set, size class)")
    chk.assumptions = ["the reference model of the wire format (lib/zmodel.py)"]
    if not chk.thorough:
        round_(chk, 0, 7, 14)
    rnd = 0
    while chk.thorough and chk.left() > 0 and rnd < 20:
        round_(chk, rnd, 30, 30)
        rnd += 1


if __name__ == "__main__":
    zcheck.main("W04", check)
