"""E13: equality, hash codes and the C++ ordering of generated objects follow the values."""
import itertools

import common
import zcheck
import zcore
import zgen
import zhostile
import zmodel
import zsys


def specs(chk, n, rnd=0):
    out = [(k, k) for k in ("scalars", "arrays", "choices", "exts")] if rnd == 0 else []
    for i, s in enumerate(chk.seeds(n, "schema%d" % rnd)):
        r = chk.rng("opts", rnd, i)
        out.append((s, zgen.Opts(packages=1, packed=0.15, compounds=r.choice([4, 6, 8]), fields=r.choice([(2, 5), (2, 8)]))))
    return out


def skey(t, x):
    t = t.base()
    if isinstance(t, zmodel.Compound):
        return key(x)
    if isinstance(t, zmodel.Float):
        return t.to_double(x)
    if isinstance(t, zmodel.Str):
        return x.encode("utf-8")
    if isinstance(t, zmodel.Extern):
        return (zmodel.to_bytes(x[0], x[1]), x[0])
    return x


def key(v):
    """The documented order (ordering rules of the C++ generator) as a sort key; equal keys mean equal objects."""
    out = [tuple(skey(pt, pv) for (pt, _), pv in zip(v.t.params, v.params))]
    if v.t.kind == "struct":
        ext = 0
        for f in v.t.fields:
            if f.extend:
                ext += 1
                if ext > v.ext:
                    out.append((0,))
                    continue
            x = v.f.get(f.name)
            if x is None:
                k = (0,)
            elif f.array:
                k = (1, tuple(skey(f.type, e) for e in x))
            else:
                k = (1, skey(f.type, x))
            out.append((1, k) if f.extend else k)
        return tuple(out)
    if v.sel is None:
        out.append((0,))
        return tuple(out)
    i = next(i for i, f in enumerate(v.t.fields) if f.name == v.sel)
    f = v.t.fields[i]
    if v.t.kind == "union":
        out.append((1, i))
    x = v.f.get(f.name)
    if x is None:
        out.append((0,))
    elif f.array:
        out.append((1, tuple(skey(f.type, e) for e in x)))
    else:
        out.append((1, skey(f.type, x)))
    return tuple(out)


def odd_floats(v):
    """NaN is not equal to itself, and zero is equal to negative zero: those have no bitwise equality."""
    d = zmodel.dump(v).split()
    return "dnan" in d or "d8000000000000000" in d


def stream_form(v):
    n, b = zmodel.encode(v)
    return "D%d:%s" % (n, zmodel.to_bytes(n, b).hex())


def round_(chk, rnd, n, nv, groups):
    core = zcore.Core(chk, specs(chk, n, rnd))
    items = []
    for j in core.lab.jobs:
        by = {}
        for val in core.values(j, nv):
            if not odd_floats(val.v) and len(val.dump) < 30000:
                by.setdefault(val.type, []).append(val)
        for ty, vals in by.items():
            for g in range(groups):
                rng = chk.rng("group", j.seed, ty, g)
                base = rng.choice(vals).v
                vs = [base]
                full = base.ext == base.t.num_extended()
                for _ in range(5):
                    w = zhostile.vary(rng, rng.choice(vs)) if full else None
                    if w is not None and not odd_floats(w):
                        vs.append(w)
                vs += [rng.choice(vals).v for _ in range(2)]
                vs.append(zmodel.clone(rng.choice(vs)))
                args = []
                for v in vs:
                    if v.ext != v.t.num_extended() or rng.random() < 0.4:
                        args.append(stream_form(v))
                    else:
                        w = zmodel.clone(v)
                        zmodel.layout(w, 0)
                        args.append(zmodel.dump(w, True))
                ks = [key(v) for v in vs]
                eq = "".join("01"[a == b] for a in ks for b in ks)
                try:
                    lt = "".join("01"[a < b] for a in ks for b in ks)
                except TypeError:
                    raise AssertionError("keys of %s cannot be compared" % ty)
                if len(items) < 4:
                    chk.sample({"type": ty, "objects": len(vs), "equal": eq})
                chk.count("pairs", len(vs) ** 2)
                chk.count("equal pairs", eq.count("1"))
                chk.nontrivial(ty, eq, lt)
                items.append((j, "CMP\t%s\t%s" % (ty, "\t".join(args)), (eq, lt, len(vs))))
    for lang, j, cmd, (eq, lt, k), r in core.run(items):
        if not r.startswith("OK|"):
            if r.startswith("NA|"):
                chk.count("not applicable " + lang)
                continue
            core.mismatch(lang, j, cmd, "comparing valid objects", "OK", r[:500])
            continue
        ge, gh, gl = r[3:].split("|")

        def where(a, b):
            i = next(i for i in range(len(a)) if a[i] != b[i])
            x = cmd.split("\t")[2:]
            return "objects %d and %d of the command: %s / %s" % (i // k, i % k, x[i // k][:300], x[i % k][:300])
        if ge != eq:
            core.mismatch(lang, j, cmd, "equality of " + where(ge, eq), eq, ge)
        bad = "".join("1" if e == "1" and h == "0" else "0" for e, h in zip(eq, gh))
        if "1" in bad:
            core.mismatch(lang, j, cmd, "hash codes of equal " + where(bad, "0" * len(bad)), eq, gh)
        if gl != "-" and gl != lt:
            core.mismatch(lang, j, cmd, "order of " + where(gl, lt), lt, gl)
    core.close()


def check(chk):
    chk.rule = ("groups of valid objects: variants which differ in one place, copies, unrelated ones; built and read ones are "
                "mixed; non-trivial = distinct (type, pattern of equality and order)")
    chk.assumptions = ["objects with NaN or negative zero are left out: their equality is the one of the native types"]
    if not chk.thorough:
        round_(chk, 0, 5, 12, 12)
    rnd = 0
    while chk.thorough and chk.left() > 0 and rnd < 20:
        round_(chk, rnd, 30, 20, 40)
        rnd += 1


if __name__ == "__main__":
    zcheck.main("E13", check)
