"""W06: objects which break a rule of the schema are never written."""
import re

import common
import zcheck
import zcore
import zgen
import zhostile
import zmodel
import zsys

NEG64 = re.compile(r"^rangeout of range (uint64|bit:64): -|^range dynamicout of range bit:\d+: -").search


def specs(chk, n, rnd=0):
    out = [(k, k) for k in ("scalars", "cons", "choices")] if rnd == 0 else [("arrays", "arrays"), ("packed", "packed")] if rnd == 1 else []
    for i, s in enumerate(chk.seeds(n, "schema%d" % rnd)):
        r = chk.rng("opts", rnd, i)
        out.append((s, zgen.Opts(packages=1, packed=r.choice([0.1, 0.3]), compounds=r.choice([4, 6, 8]),
                                 fields=r.choice([(2, 7), (3, 10)]))))
    return out


def round_(chk, rnd, n, nv, nm, range_check):
    extra = ["-withRangeCheckCode"] if range_check else []
    core = zcore.Core(chk, specs(chk, n, rnd), extra=extra)
    items, nocpp = [], []
    for j in core.lab.jobs:
        for val in core.values(j, nv):
            v0 = val.v
            if v0.ext != v0.t.num_extended():
                continue
            rng = chk.rng("break", j.seed, val.type, val.i)
            for m in range(nm):
                b = None
                for _ in range(4):
                    try:
                        b = b or zhostile.break_value(rng, v0, range_check)
                    except Exception:       # the model can't evaluate the broken value
                        continue
                if not b:
                    continue
                v, kind, cpp = b
                try:
                    if kind == "range packed":
                        raise zmodel.Reject("range packed")
                    nb, bits = zmodel.encode(v, 0)
                    exp = {"state": "OK", "bits": "%d:%s" % (nb, zmodel.to_bytes(nb, bits).hex()), "kind": kind}
                    if kind in ("parameter", "absent"):
                        exp["state"] = "ERR"
                except zmodel.Reject as e:
                    if "field not set" in str(e):
                        continue        # a choice can't always know that its field belongs to another case
                    exp = {"state": "ERR", "kind": kind + ": " + " ".join(str(e).split()[:3]), "msg": str(e)}
                except Exception:
                    if kind != "absent":
                        continue
                    exp = {"state": "ERR", "kind": kind}
                if exp["state"] == "OK" and kind != "other" and rng.random() < 0.7:
                    continue
                try:
                    text = zmodel.dump(v, True)
                except Exception:
                    continue
                chk.count("%s %s" % (exp["kind"], exp["state"]))
                chk.nontrivial(exp["kind"], exp["state"], j.seed, val.type)
                (items if cpp else nocpp).append((j, "RAW\t%s\t0\t%s" % (val.type, text), exp))
                if m == 0:
                    chk.sample({"type": val.type, "broken": exp["kind"], "expected": exp["state"]})

    def judge(lang, j, cmd, exp, r):
        got = zcore.parse("RAW", r)
        if exp["state"] == "ERR":
            if r.startswith("OK"):
                key = None
                if lang == "java" and NEG64(exp["kind"].split(":")[0] + exp["msg"]):
                    key = "java-negative-uint64"
                elif lang != "cpp" and exp["kind"].startswith("range packed"):
                    key = "packed-range"
                core.mismatch(lang, j, cmd, "writing of a broken object (%s)" % exp["kind"], "refused", r[:300], key=key)
        elif not r.startswith("OK"):
            core.mismatch(lang, j, cmd, "writing of a valid object (%s)" % exp["kind"], "OK", r[:300])
        elif r[3:] != exp["bits"]:
            core.mismatch(lang, j, cmd, "bits (%s)" % exp["kind"], exp["bits"], r[3:])

    for x in core.run(items):
        judge(*x)
    for x in core.run(nocpp, langs=[l for l in core.langs if l != "cpp"]):
        judge(*x)
    core.close()


def check(chk):
    chk.rule = ("valid values with one change: out of range number, undefined enumeration value, wrong array length, "
                "violated constraint, wrong offset, wrong parameter, empty union, no matching case, missing field; "
                "non-trivial = distinct (change, verdict, schema, type)")
    chk.assumptions = ["the reference model decides which changed values are still valid (lib/zmodel.py)"]
    if not chk.thorough:
        round_(chk, 0, 4, 10, 6, False)
        round_(chk, 1, 3, 10, 8, True)
    rnd = 0
    while chk.thorough and chk.left() > 0 and rnd < 20:
        round_(chk, rnd, 30, 20, 8, rnd % 2 == 1)
        rnd += 1


if __name__ == "__main__":
    zcheck.main("W06", check)
