"""J17: the JSON text of an object is the documented one, and every runtime reads it back to the same object."""
import common
import zcheck
import zcore
import zgen
import zjson
import zmodel

NULLS = "null for empty arrays"


def specs(chk, n, rnd=0):
    out = [(k, k) for k in ("scalars", "arrays", "choices", "exts")] if rnd == 0 else []
    for i, s in enumerate(chk.seeds(n, "schema%d" % rnd)):
        r = chk.rng("opts", rnd, i)
        out.append((s, zgen.Opts(packages=r.choice([1, 1, 2]), packed=0.2, compounds=r.choice([4, 6, 8]),
                                 fields=r.choice([(2, 5), (2, 8)]))))
    return out


def stream_form(v):
    n, b = zmodel.encode(v)
    return "D%d:%s" % (n, zmodel.to_bytes(n, b).hex())


def round_(chk, rnd, n, nv, extra_variants):
    core = zcore.Core(chk, specs(chk, n, rnd), extra=["-withTypeInfoCode", "-withReflectionCode", "-withoutSourcesAmalgamation"],
                      cpp_kw={"kind": "plain", "defines": ["DRV_JSON"], "groups": 4})
    items = []
    for j in core.lab.jobs:
        for val in core.values(j, nv):
            if len(val.dump) > 30000:
                continue
            rng = chk.rng("style", j.seed, val.type, val.i)
            full = val.v.ext == val.v.t.num_extended()
            w = zmodel.clone(val.v)
            if full and rng.random() < 0.5:
                zmodel.layout(w, 0)
                arg = zmodel.dump(w, True)
            else:
                arg = stream_form(w)
            style = rng.choice(["-", "0", "2", "4", "-\tN"])
            items.append((j, "JW\t%s\t%s\t%s" % (val.type, arg, style), (val, w, style.endswith("N"))))
    texts = {}
    for lang, j, cmd, (val, w, number), r in core.run(items):
        if not r.startswith("OK|"):
            if r.startswith("NA|"):
                continue
            core.mismatch(lang, j, cmd, "writing of JSON of a valid object", "OK", r[:500])
            continue
        try:
            text = bytes.fromhex(r[3:]).decode("utf-8")
        except UnicodeDecodeError as e:
            core.mismatch(lang, j, cmd, "JSON text", "UTF-8", str(e))
            continue
        err = zjson.check(w, text, number)
        chk.count("texts checked")
        if err:
            core.mismatch(lang, j, cmd, "JSON text at " + err.split(":")[0], err, text)
            continue
        chk.nontrivial(zcore.features(val.v), number)
        chk.sample({"type": val.type, "json": text[:300]})
        if ext_full(w):
            texts.setdefault((j.name, val.type, val.i), (j, val, {}))[2].setdefault(text, lang)
    items = []
    for (_, _, _), (j, val, ts) in sorted(texts.items(), key=lambda x: x[0]):
        w = zmodel.clone(val.v)
        zmodel.layout(w, 0)
        n, b = zmodel.encode(w)
        exp = "%d:%s|%s" % (n, zmodel.to_bytes(n, b).hex(), zmodel.dump(w))
        rng = chk.rng("variant", j.seed, val.type, val.i)
        for _ in range(extra_variants):
            ts.setdefault(zjson.write(rng, w), "variant")
        if rng.random() < 0.25:
            ts.setdefault(zjson.write(rng, w, True), NULLS)
        for text in rng.sample(sorted(t for t in ts if ts[t] != NULLS), min(len(ts) - (NULLS in ts.values()), 2)):
            for _ in range(2):
                ts.setdefault(shifted(rng, text), "text read in chunks")
        for text, by in ts.items():
            items.append((j, "JR\t%s\t%s" % (val.type, text.encode("utf-8").hex()), (exp, by, text)))
    for lang, j, cmd, (exp, by, text), r in core.run(items):
        chk.count("texts of %s read" % by)
        got = " ".join(r.split())
        key = "java-json-null-array" if lang == "java" and by == NULLS else None
        if not r.startswith("OK|"):
            if r.startswith("NA|"):
                continue
            core.mismatch(lang, j, cmd, "reading of JSON of %s: %s" % (by, text.strip()[:600]), "OK", r[:600], key)
        elif got[3:] != exp:
            core.mismatch(lang, j, cmd, "object read from JSON of %s: %s" % (by, text.strip()[:600]), exp, got[3:], key)
    core.close()


def shifted(rng, text):
    """White space in front, so that readers which read chunks see the end of one in the middle of a token."""
    b = text.encode("utf-8")
    # in numbers and words, strings and escapes, between characters of more than one byte
    kinds = [[i for i in range(1, len(b)) if p(b[i - 1], b[i])] for p in (
        lambda x, y: chr(x) in "-+.0123456789eE" and chr(y) in "+-.0123456789eE", lambda x, y: x == 92, lambda x, y: y > 127,
        lambda x, y: chr(x) in "truefalsn" and chr(y) in "truefalsn", lambda x, y: True)]
    k = rng.choice(rng.choice([k for k in kinds if k]))
    size = rng.choice([65536, 65536, 131072, 8192])
    pad = (size - k) % size
    return rng.choice(["\n" + " " * (pad - 1), "\n" * pad, " " * pad]) + text if pad else text


def ext_full(v):
    """All extended fields are present in the whole tree."""
    if v.ext != v.t.num_extended():
        return False
    for f in v.t.fields:
        x = v.f.get(f.name)
        if x is None or not f.elem().is_compound:
            continue
        if not all(ext_full(e) for e in (x if f.array else [x])):
            return False
    return True


def check(chk):
    chk.rule = ("JSON texts of valid objects by all runtimes, read by all runtimes together with hand written variants; "
                "non-trivial = distinct (forms of the fields, enumerable format)")
    chk.assumptions = ["what is written for extended fields which are not present is not specified"]
    if not chk.thorough:
        round_(chk, 0, 3, 8, 2)
    rnd = 0
    while chk.thorough and chk.left() > 0 and rnd < 20:
        round_(chk, rnd, 24, 20, 6)
        rnd += 1


if __name__ == "__main__":
    zcheck.main("J17", check)
