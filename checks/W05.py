"""W05: offsets and alignments: the right place when written, refused when wrong."""
import common
import zcheck
import zcore
import zgen
import zhostile
import zmodel
import zsys


def specs(chk, n, rnd=0):
    out = [("offsets", "offsets"), ("offs", "offs")] if rnd == 0 else []
    for i, s in enumerate(chk.seeds(n, "schema%d" % rnd)):
        r = chk.rng("opts", rnd, i)
        out.append((s, zgen.Opts(packages=1, packed=r.choice([0.1, 0.4]), offsets=0.4, align=0.3,
                                 compounds=r.choice([4, 6]), fields=r.choice([(2, 7), (3, 10)]))))
    return out


def offset_places(v):
    return [(x, f, i) for x, f, i, _, _ in zhostile.leaves(v) if i != "array" and f.role == "offset"]


def spoil(rng, v):
    """One offset gets another value."""
    ps = offset_places(v)
    if not ps:
        return None
    x, f, i = rng.choice(ps)
    t = f.elem().base()
    old = x.f[f.name] if i is None else x.f[f.name][i]
    new = rng.choice([old + 1, old - 1, 0, old * 2, old ^ 1, t.hi, old + 8])
    if new == old or not t.lo <= new <= t.hi:
        return None
    if i is None:
        x.f[f.name] = new
    else:
        x.f[f.name][i] = new
    return "%s %d -> %d" % (f.name, old, new)


def round_(chk, rnd, n, nv):
    core = zcore.Core(chk, specs(chk, n, rnd))
    items = []
    for j in core.lab.jobs:
        for val in core.values(j, nv):
            if not zmodel.has_offsets(val.v.t) and chk.rng("skip", j.seed, val.i).random() < 0.6:
                continue
            rng = chk.rng("spoil", j.seed, val.type, val.i)
            for pos in sorted({0, rng.randrange(1, 8), rng.choice([8, 17, 64, 129])}):
                c = zcore.bld_cmd(val, pos)
                if c:
                    items.append((j, c[0], ("right", c[1])))
                    chk.nontrivial("right", pos % 8, zcore.features(val.v))
            items.append((j, zcore.dec_cmd(val), ("right", zcore.dec_exp(val))))
            for _ in range(3):
                v = zmodel.clone(val.v)
                what = spoil(rng, v)
                if not what:
                    continue
                # reading
                nb, b = zmodel.encode(v, 0, check=False)
                try:
                    zmodel.decode(v.t, [], nb, b)
                    continue
                except zmodel.Reject as e:
                    if str(e) != "offset":
                        continue
                except zmodel.Unsure:
                    continue
                chk.nontrivial("wrong", j.seed, val.type, what.split()[0])
                chk.count("spoiled offsets")
                items.append((j, "DEC\t%s\t%d\t%s" % (val.type, nb, zmodel.to_bytes(nb, b).hex()), ("wrong", what)))
                # writing
                if v.ext == v.t.num_extended():
                    items.append((j, "RAW\t%s\t0\t%s" % (val.type, zmodel.dump(v, True)), ("wrong", what)))
                chk.sample({"schema": j.seed, "type": val.type, "spoiled": what})
    for lang, j, cmd, (kind, exp), r in core.run(items):
        got = zcore.parse(cmd, r)
        if kind == "wrong":
            if got["state"] != "ERR":
                core.mismatch(lang, j, cmd, "%s of a wrong offset (%s)" % (
                    "reading" if cmd.startswith("DEC") else "writing", exp), "refused", r[:300])
            elif not got["known"]:
                core.mismatch(lang, j, cmd, "kind of error of a wrong offset (%s)" % exp, "documented error", r[:300])
        elif got["state"] != "OK":
            core.mismatch(lang, j, cmd, "outcome of a valid value", "OK", r[:600])
        else:
            for f in ("consumed", "sizes", "dump", "end", "size", "bits"):
                if f in got and got[f] != exp[f]:
                    core.mismatch(lang, j, cmd, f, exp[f], got[f])
                    break
    core.close()


def check(chk):
    chk.rule = ("values of schemas rich in offsets, indexed offsets and alignments, written at several bit positions, "
                "and with one offset changed; non-trivial = distinct (bit position modulo 8, feature set) of valid "
                "and distinct (schema, type, offset field) of spoiled values")
    chk.assumptions = ["the reference model of the wire format (lib/zmodel.py)"]
    if not chk.thorough:
        round_(chk, 0, 10, 14)
    rnd = 0
    while chk.thorough and chk.left() > 0 and rnd < 20:
        round_(chk, rnd, 40, 20)
        rnd += 1


if __name__ == "__main__":
    zcheck.main("W05", check)
