"""W07: every bit string is decoded to the documented value or refused, the same way in all languages."""
import common
import zcheck
import zcore
import zgen
import zhostile
import zmodel
import zsys

BOUNDS = ("IndexError", "ArrayIndexOutOfBoundsException", "IndexOutOfBoundsException", "St12out_of_range",
          "NegativeArraySizeException")


def specs(chk, n, rnd=0):
    out = [(k, k) for k in zsys.EVERY if k != 'offs'] if rnd == 0 else []
    for i, s in enumerate(chk.seeds(n, "schema%d" % rnd)):
        r = chk.rng("opts", rnd, i)
        out.append((s, zgen.Opts(packages=1 + i % 2, packed=r.choice([0.1, 0.35, 0.6]),
                                 compounds=r.choice([4, 6, 8]), fields=r.choice([(2, 7), (3, 10), (1, 4)]))))
    return out


def round_(chk, rnd, n, nv, nm):
    core = zcore.Core(chk, specs(chk, n, rnd))
    items = []
    for j in core.lab.jobs:
        vals = core.values(j, nv)
        pool = [(v.nbits, v.bits) for v in vals]
        for val in vals:
            rng = chk.rng("mut", j.seed, val.type, val.i)
            cut = val.nbits - rng.choice([1, 1, 2, 7])
            if cut % 8 and cut > 0:
                # the end of the stream is known in bits: what follows in the last byte must not be read
                try:
                    zmodel.decode(val.v.t, [], cut, val.bits >> (val.nbits - cut))
                except zmodel.Reject as e:
                    if str(e) == "end of stream":
                        keep = (val.nbits, val.bits) if (cut + 7) // 8 == (val.nbits + 7) // 8 else (
                            cut, val.bits >> (val.nbits - cut))
                        items.append((j, "DEC\t%s\t%d\t%s" % (val.type, cut, zmodel.to_bytes(*keep).hex()),
                                      {"state": "ERR", "why": "end within a byte"}))
                except zmodel.Unsure:
                    pass
            for m in range(nm):
                nb, b, kind = zhostile.mutate(rng, val.nbits, val.bits, pool)
                if rng.random() < 0.2:
                    nb, b, kind = zhostile.mutate(rng, nb, b, pool)
                # streams are whole bytes
                pad = -nb % 8
                nb, b = nb + pad, b << pad
                try:
                    v, used = zmodel.decode(val.v.t, [], nb, b)
                    state = "OK"
                except zmodel.Reject as e:
                    state, why = "ERR", str(e)
                except zmodel.Unsure as e:
                    chk.count("only robustness: " + str(e)[:25])
                    if str(e) == "too much work":
                        continue
                    state, why = "ANY", str(e)
                hx = zmodel.to_bytes(nb, b).hex()
                cmd = "DEC\t%s\t%d\t%s" % (val.type, nb, hx)
                chk.count(kind + " " + state)
                if state == "OK":
                    chk.nontrivial("ok", kind, zcore.features(v))
                    items.append((j, cmd, {"state": "OK", "consumed": str(used), "dump": zmodel.dump(v)}))
                elif state == "ANY":
                    items.append((j, cmd, {"state": "ANY", "why": why}))
                else:
                    chk.nontrivial("refused", kind, why, j.seed, val.type)
                    items.append((j, cmd, {"state": "ERR", "why": why}))
                if m == 0:
                    chk.sample({"type": val.type, "kind": kind, "bits": "%d:%s" % (nb, hx[:100]), "expected": state})
    for lang, j, cmd, exp, r in core.run(items):
        got = zcore.parse(cmd, r)
        if exp["state"] == "ANY":
            # indices of a too short array of offsets: the containers of the languages throw
            if got["state"] != "OK" and not zcore.documented(lang, got) and got["class"] not in BOUNDS:
                core.mismatch(lang, j, cmd, "kind of error", "documented error", r[:300])
        elif got["state"] != exp["state"]:
            core.mismatch(lang, j, cmd, "verdict (model: %s)" % exp.get("why", "valid"), exp["state"], r[:300])
        elif exp["state"] == "OK":
            for f in ("consumed", "dump"):
                if got[f] != exp[f]:
                    core.mismatch(lang, j, cmd, "decoding: " + f, exp[f], got[f])
                    break
        elif not zcore.documented(lang, got):
            core.mismatch(lang, j, cmd, "kind of error (model: %s)" % exp["why"], "documented error", r[:300])
    core.close()


def check(chk):
    chk.rule = ("valid streams of random and systematic schemas and their mutations (truncation, flips, splices, extreme "
                "values, random bits); non-trivial = distinct (verdict, kind of mutation, features or reason)")
    chk.assumptions = ["the reference model of the wire format (lib/zmodel.py)"]
    if not chk.thorough:
        round_(chk, 0, 8, 8, 6)
    rnd = 0
    while chk.thorough and chk.left() > 0 and rnd < 20:
        round_(chk, rnd, 40, 15, 8)
        rnd += 1


if __name__ == "__main__":
    zcheck.main("W07", check)
