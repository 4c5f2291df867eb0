"""W01: the bits of every value are the documented ones, in all languages."""
import common
import zcheck
import zcore
import zgen
import zsys


def specs(chk, n, rnd=0):
    out = [(k, k) for k in zsys.EVERY if k != 'cons'] if rnd == 0 else []
    for i, s in enumerate(chk.seeds(n, "schema%d" % rnd)):
        r = chk.rng("opts", rnd, i)
        out.append((s, zgen.Opts(packages=1 + i % 3, packed=r.choice([0.1, 0.35, 0.6]),
                                 compounds=r.choice([4, 6, 8]), fields=r.choice([(2, 7), (3, 10), (1, 4)]))))
    return out


def round_(chk, rnd, n, nv):
    core = zcore.Core(chk, specs(chk, n, rnd))
    items = []
    for j in core.lab.jobs:
        for val in core.values(j, nv):
            chk.nontrivial(zcore.features(val.v))
            items.append((j, zcore.dec_cmd(val), zcore.dec_exp(val)))
            for pos in (0, chk.rng("pos", j.seed, val.i).choice([1, 5, 8, 64, 77])):
                c = zcore.bld_cmd(val, pos)
                if c:
                    items.append((j, c[0], c[1]))
            chk.sample({"schema": j.seed, "type": val.type, "bits": val.full()[:120]})
    for lang, j, cmd, exp, r in core.run(items):
        got = zcore.parse(cmd, r)
        if got["state"] != "OK":
            core.mismatch(lang, j, cmd, "outcome of a valid value", "OK", r[:600])
        elif cmd.startswith("DEC"):
            chk.count("decoded bits", int(exp["consumed"]))
            for f in ("consumed", "dump"):
                if got[f] != exp[f]:
                    core.mismatch(lang, j, cmd, "decoding: " + f, exp[f], got[f])
                    break
        elif got["bits"] != exp["bits"]:
            core.mismatch(lang, j, cmd, "encoded bits", exp["bits"], got["bits"])
    core.close()


def check(chk):
    chk.rule = ("random schemas (all types, parameters, choices, unions, templates, packing, offsets, expressions) with "
                "random and boundary values; non-trivial = distinct set of (kind, type, array, packed, optional, "
                "presence, alignment, offset, constraint) features of a value")
    chk.assumptions = ["the reference model of the wire format (lib/zmodel.py, written from the documentation)"]
    if not chk.thorough:
        round_(chk, 0, 10, 14)
    rnd = 0
    while chk.thorough and chk.left() > 0 and rnd < 20:
        round_(chk, rnd, 40, 20)
        rnd += 1


if __name__ == "__main__":
    zcheck.main("W01", check)
