"""W03: the announced bit size is the written one at every position; offsets are initialized for that position."""
import common
import zcheck
import zcore
import zgen
import zsys


def specs(chk, n, rnd=0):
    out = [(k, k) for k in zsys.EVERY if k not in ('cons', 'choices')] if rnd == 0 else []
    for i, s in enumerate(chk.seeds(n, "schema%d" % rnd)):
        r = chk.rng("opts", rnd, i)
        out.append((s, zgen.Opts(packages=1, packed=r.choice([0.1, 0.4, 0.7]), offsets=0.25, align=0.25,
                                 compounds=r.choice([4, 6, 8]), fields=r.choice([(2, 7), (3, 10)]))))
    return out


def round_(chk, rnd, n, nv):
    core = zcore.Core(chk, specs(chk, n, rnd))
    items = []
    for j in core.lab.jobs:
        for val in core.values(j, nv):
            rng = chk.rng("pos", j.seed, val.i)
            for pos in sorted({0, rng.randrange(1, 8), rng.choice([8, 16, 64, 9, 15, 31, 129])}):
                c = zcore.bld_cmd(val, pos)
                if c:
                    items.append((j, c[0], c[1]))
                    chk.nontrivial("build", pos % 8, zcore.features(val.v))
            items.append((j, zcore.dec_cmd(val), zcore.dec_exp(val)))
            chk.nontrivial("decode", zcore.features(val.v))
            chk.sample({"schema": j.seed, "type": val.type, "sizes at 0,1,3,8,61": zcore.dec_exp(val)["sizes"]})
    for lang, j, cmd, exp, r in core.run(items):
        got = zcore.parse(cmd, r)
        if got["state"] != "OK":
            core.mismatch(lang, j, cmd, "outcome of a valid value", "OK", r[:600])
        elif cmd.startswith("DEC"):
            if got["sizes"] != exp["sizes"]:
                core.mismatch(lang, j, cmd, "bit sizes at positions 0,1,3,8,61", exp["sizes"], got["sizes"])
            if got["sizes"].split(",")[0] != got["bits"].split(":")[0]:
                core.mismatch(lang, j, cmd, "announced and written size", got["bits"].split(":")[0], got["sizes"])
        else:
            pos = int(cmd.split("\t")[2])
            n = got["bits"].split(":")[0]
            if not got["size"] == n == exp["size"]:
                core.mismatch(lang, j, cmd, "announced size, written size", exp["size"], got["size"] + " " + n)
            if got["end"] != exp["end"] or int(got["end"]) != pos + int(n):
                core.mismatch(lang, j, cmd, "end position of the offset initialization", exp["end"], got["end"])
            if got["bits"] != exp["bits"]:
                core.mismatch(lang, j, cmd, "bits written at position %d" % pos, exp["bits"], got["bits"])
    core.close()


def check(chk):
    chk.rule = ("values of systematic and random schemas; sizes asked at 5 positions of read objects, and of built "
                "objects at 3 positions, against the written streams and the model; non-trivial = distinct "
                "(bit position modulo 8, feature set of the value)")
    chk.assumptions = ["the reference model of the wire format (lib/zmodel.py) for sizes at positions not written to"]
    if not chk.thorough:
        round_(chk, 0, 7, 9)
    rnd = 0
    while chk.thorough and chk.left() > 0 and rnd < 20:
        round_(chk, rnd, 40, 15)
        rnd += 1


if __name__ == "__main__":
    zcheck.main("W03", check)
