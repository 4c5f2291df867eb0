"""E14: C++ objects are values: copies, moves, assignments and allocators never lose, share or leak anything."""
import common
import os

import zbuild
import zcheck
import zcore
import zgen
import zlab
from T19 import ext_full, stream_form

VARIANTS = (("std", [], ["DRV_COPIES"]),
            ("pmr", ["-setCppAllocator", "polymorphic"], ["DRV_COPIES", "DRV_PMR"]))


def specs(chk, n, rnd, var):
    out = [(k, k) for k in ("arrays", "choices", "nested", "optionals") if k in zcore.zsys.EVERY] if rnd == 0 else []
    for i, s in enumerate(chk.seeds(n, "schema%d%s" % (rnd, var))):
        r = chk.rng("opts", var, rnd, i)
        out.append((s, zgen.Opts(packages=1, compounds=r.choice([5, 7, 9]), fields=r.choice([(2, 5), (2, 7)]))))
    return out


def script(r, nvalues, steps):
    """A random history; operations without a source or target are left out by the driver."""
    ops = []
    for i in range(steps):
        k = r.choice("xrrrdcmpqaaaAAAsvcpRCPB") if i > 3 else "r"
        ops.append("%s%d%d%d" % (k, r.randrange(5), r.randrange(nvalues if k in "rR" else 5), r.randrange(3)))
    return " ".join(ops)


def round_(chk, rnd, n, nv, nh):
    for var, extra, defines in VARIANTS:
        core = zcore.Core(chk, specs(chk, n, rnd, var), langs=("cpp",), extra=["-withTypeInfoCode"] + extra,
                          prefix="ze", build=False)
        core.build({"kind": "asan", "defines": defines})
        items = []
        for j in core.lab.jobs:
            by = {}
            for v in core.values(j, nv):
                if ext_full(v.v) and len(v.dump) < 6000:
                    by.setdefault(v.type, []).append(v)
            for t, vals in by.items():
                for i in range(nh):
                    r = chk.rng("history", var, rnd, j.name, t, i)
                    vs = r.sample(vals, min(len(vals), 4))
                    s = script(r, len(vs), r.choice([12, 25, 45]))
                    items.append((j, "\t".join(["HI", t, s] + [stream_form(v.v)[1:] for v in vs]), (len(vs), s)))
        for lang, j, cmd, (nvs, s), res in core.run(items):
            if not res.startswith("OK|"):
                chk.violation("history of C++ objects (%s allocator), schema %s: %s\n  command %s" % (var, j.seed, res[:600], cmd[:300]),
                              {"cmd": cmd, "result": res, "schema": core.schema_text(j)})
                continue
            steps, seen, allocs, failed = map(int, res[3:].split(","))
            chk.count("operations without memory", failed)
            chk.count("histories " + var)
            chk.count("steps " + var, steps)
            chk.count("values verified " + var, seen)
            chk.count("allocations observed " + var, allocs)
            chk.nontrivial(var, cmd.split("\t")[1], s)
        core.close()


def holders(chk, nseeds, steps):
    """Random histories of the holders of the runtime against a model, with objects which watch their own lifetime."""
    for kind in ("asan",):
        lib = zbuild.cpp_runtime(kind)
        exe = chk.dir + "/holders-" + kind
        r = zbuild.run(zbuild.cxx(kind, "-O1") + ["-I" + zbuild.CPP_SRC, zlab.DRIVERS + "/holders.cpp", lib, "-o", exe, "-lpthread"])
        if r.returncode:
            chk.violation("the holders driver does not compile: " + r.stdout[:1500], {"output": r.stdout[:6000]})
            return
        env = dict(os.environ)
        env.update(zlab.SAN_ENV)
        for i in range(nseeds):
            seed = chk.rng("holders", i).randrange(1 << 31)
            r = zbuild.run([exe, str(seed), str(steps)], env=env, timeout=120)
            chk.eval()
            if r.returncode:
                chk.violation("holders, seed %d: exit code %d\n%s" % (seed, r.returncode, r.stdout[-1800:]),
                              {"cmd": [exe, str(seed), str(steps)], "output": r.stdout[-6000:]})
                continue
            for w in r.stdout.split("\n")[-2].split():
                k, _, v = w.partition("=")
                chk.count("holders: " + k, int(v))


def check(chk):
    chk.rule = ("random histories of constructions, copies, moves, assignments, swaps and destructions of generated objects and of "
                "the holders of the runtime; non-trivial = distinct (allocator, type, history)")
    chk.assumptions = ["objects moved from are only assigned to or destroyed"]
    holders(chk, chk.pick(4, 40), chk.pick(20000, 60000))
    if not chk.thorough:
        round_(chk, 0, 4, 6, 12)
    rnd = 0
    while chk.thorough and chk.left() > 0 and rnd < 20:
        round_(chk, rnd, 16, 8, 40)
        rnd += 1


if __name__ == "__main__":
    zcheck.main("E14", check)
