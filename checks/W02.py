"""W02: what was written reads back as an equal object, everywhere and in every language."""
import common
import zcheck
import zcore
import zgen
import zsys


def specs(chk, n, rnd=0):
    out = [(k, k) for k in zsys.EVERY if k != 'offs'] if rnd == 0 else []
    for i, s in enumerate(chk.seeds(n, "schema%d" % rnd)):
        r = chk.rng("opts", rnd, i)
        out.append((s, zgen.Opts(packages=1 + i % 2, packed=r.choice([0.1, 0.35, 0.6]), 
                                 compounds=r.choice([4, 6, 8]), fields=r.choice([(2, 7), (3, 10), (1, 4)]))))
    return out


def round_(chk, rnd, n, nv):
    core = zcore.Core(chk, specs(chk, n, rnd))
    items = []
    for j in core.lab.jobs:
        for val in core.values(j, nv):
            chk.nontrivial(zcore.features(val.v))
            pos = chk.rng("pos", j.seed, val.i).choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 63, 64, 100])
            c = zcore.bld_cmd(val, pos)
            if c:
                items.append((j, c[0], ("build", val, pos, c[1]["dump"])))
            items.append((j, zcore.dec_cmd(val), ("decode", val, 0, val.dump)))
            chk.sample({"schema": j.seed, "type": val.type, "position": pos, "value": val.dump[:200]})
    written = {}
    for lang, j, cmd, (what, val, pos, dump), r in core.run(items):
        got = zcore.parse(cmd, r)
        if got["state"] != "OK":
            core.mismatch(lang, j, cmd, "outcome of writing and reading (%s)" % what, "OK", r[:400])
            continue
        if zcore.flags_bad(got["flags"]):
            core.mismatch(lang, j, cmd, "equality of the object which was read back (%s)" % what, "eq1...", got["flags"])
        if got["dump"] != dump:
            core.mismatch(lang, j, cmd, "value which was read back (%s)" % what, dump, got["dump"])
        if what == "decode" and got["bits"] != val.full():
            core.mismatch(lang, j, cmd, "bits written again", val.full(), got["bits"])
        if what == "build" and pos == 0:
            written.setdefault((j.name, val.type, val.i), (j, val, {}))[2].setdefault(got["bits"], set()).add(lang)
    # what one language has written is read by all
    items = []
    for j, val, by in written.values():
        for b, langs in by.items():
            if b == val.full():
                chk.count("streams exchanged between languages", len(langs))
                continue
            n, h = b.split(":")
            items.append((j, "DEC\t%s\t%s\t%s" % (val.type, n, h), (val, langs)))
    for lang, j, cmd, (val, langs), r in core.run(items) if items else ():
        got = zcore.parse(cmd, r)
        if got["state"] != "OK" or got["dump"] != val.dump:
            core.mismatch(lang, j, cmd, "stream written by %s" % sorted(langs), val.dump, r[:3000])
    core.close()


def check(chk):
    chk.rule = ("objects of random and systematic schemas built through the API, written at bit positions 0..100 and "
                "read back, and streams read, written again and compared; non-trivial = distinct set of features of "
                "a value (kind, type, array, packed, optional, presence, alignment, offset, constraint)")
    chk.assumptions = ["objects whose extended fields are partly missing are only obtained by reading"]
    if not chk.thorough:
        round_(chk, 0, 8, 12)
    rnd = 0
    while chk.thorough and chk.left() > 0 and rnd < 20:
        round_(chk, rnd, 40, 20)
        rnd += 1


if __name__ == "__main__":
    zcheck.main("W02", check)
