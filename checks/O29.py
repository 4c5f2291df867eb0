"""O29: options of the generators select API, they never change what generated code reads, writes and computes."""
import common
import os

import zcheck
import zcore
import zdesc
import zgen
import zmodel

ALL = ("py", "java", "cpp")
# name, options, languages, kind of commands, defines of the C++ driver
VARIANTS = (
    ("default", [], ALL, "full", []),
    ("info", ["-withTypeInfoCode", "-withReflectionCode", "-withParsingInfoCode", "-withValidationCode", "-withCodeComments"],
     ALL, "full", ["DRV_PARSING"]),
    ("readonly", ["-withoutWriterCode"], ALL, "read", ["DRV_READONLY"]),
    ("reflected readonly", ["-withoutWriterCode", "-withTypeInfoCode", "-withReflectionCode", "-withParsingInfoCode"],
     ("cpp",), "read", ["DRV_READONLY", "DRV_PARSING"]),
    ("lean", ["-withoutRangeCheckCode", "-withoutSourcesAmalgamation", "-withoutPubsubCode", "-withoutServiceCode",
              "-withoutSqlCode", "-withoutCodeComments"], ALL, "full", []),
    ("moved", ["-setTopLevelPackage", "%s.level", "-setCppAllocator", "polymorphic", "-withTypeInfoCode", "-withReflectionCode"],
     ALL, "full", ["DRV_PMR"]),
    ("pmr parsed", ["-setCppAllocator", "polymorphic", "-withParsingInfoCode", "-withSettersCode"], ("cpp",), "full",
     ["DRV_PMR", "DRV_PARSING"]),
)


def move(j, top):
    """The generated code is in another package: all names the drivers use change."""
    s = j.schema
    seen = set()
    for t in list(s.compounds()) + list(j.gen.enums) + list(j.gen.bitmasks):
        if id(t) not in seen:
            seen.add(id(t))
            t.pkg = top + "." + t.pkg
    with open(j.dir + "/desc", "w") as f:
        f.write(zdesc.descriptor(s))


def info_cmd(val, pos):
    """Reads the value at a bit position; all compounds must know where and how long they were."""
    v = zmodel.clone(val.v)
    zmodel.layout(v, pos)
    n, b = zmodel.encode(v, pos)
    d = zmodel.Dump(info=True)
    d.val(v)
    return "PI\t%s\t%d\t%d\t%s" % (val.type, pos + n, pos, zmodel.to_bytes(pos + n, b).hex()), " ".join(d.out) + "|copy1"


def round_(chk, rnd, n, nv):
    seeds = chk.seeds(n, "schema%d" % rnd)
    for vi, (name, opts, langs, kind, defines) in enumerate(VARIANTS):
        specs = []
        for i, s in enumerate(seeds):
            r = chk.rng("opts", rnd, i, 0)
            if len(langs) == 1 and i % 2:
                continue
            specs.append((s, zgen.Opts(packages=1 + i % 2, compounds=r.choice([4, 6]), fields=r.choice([(2, 6), (3, 8)]))))
        if rnd == 0:
            k = ("arrays", "choices", "exts", "optionals", "nested", "scalars")[(vi + chk.rng("every").randrange(6)) % 6]
            if k in zcore.zsys.EVERY:
                specs.append((k, k))
        core = zcore.Core(chk, specs, langs=langs, extra=lambda j, o=opts: [x.replace("%s", "top" + j.name) for x in o], prefix="zo", build=False)
        if "-setTopLevelPackage" in opts:
            for j in core.lab.jobs:
                move(j, opts[opts.index("-setTopLevelPackage") + 1] % ("top" + j.name))
        core.build({"kind": "asan", "defines": defines})
        items, infos = [], []
        for j in core.lab.jobs:
            for val in core.values(j, nv):
                dec = zcore.dec_exp(val)
                if kind == "read":
                    dec["bits"] = "-"
                items.append((j, zcore.dec_cmd(val), dec))
                items.append((j, "FUN\t%s\t%d\t%s" % (val.type, val.nbits, val.hex), None))
                pos = chk.rng("pos", j.seed, val.i).choice([0, 1, 8, 77])
                c = zcore.bld_cmd(val, pos)
                if c and kind == "full":
                    items.append((j, c[0], c[1]))
                if "DRV_PARSING" in defines:
                    infos.append((j,) + info_cmd(val, pos))
        env = dict(os.environ, DRV_READONLY="1") if kind == "read" else None
        for lang, j, cmd, exp, r in core.run(items, env=env):
            chk.count("executions with " + name)
            if exp is None:
                # functions: the values must be those without options
                top = "top%s.level." % j.name
                key = (lang, j.name, cmd.replace("\t" + top, "\t"))
                r = r.replace(top, "")
                if vi == 0:
                    FUN[key] = r
                elif key in FUN and FUN[key] != r:
                    core.mismatch(lang, j, cmd, "values of functions with " + " ".join(opts), FUN[key], r)
                continue
            got = zcore.parse(cmd, r)
            for f in (["state"] + [k for k in exp if k != "state"]):
                if got.get(f) != exp[f]:
                    core.mismatch(lang, j, cmd, "%s with the options '%s'" % (f, " ".join(opts)), exp[f], str(got.get(f)) if got["state"] == "OK" else r[:600])
                    break
            else:
                if zcore.flags_bad(got["flags"]):
                    core.mismatch(lang, j, cmd, "equality with the options '%s'" % " ".join(opts), "eq111", got["flags"])
                chk.nontrivial(name, lang, cmd)
        for lang, j, cmd, exp, r in core.run(infos, langs=["cpp"]):
            chk.count("compounds with parsing information", exp.count("@"))
            if r != "OK|" + exp:
                core.mismatch(lang, j, cmd, "parsing information", "OK|" + exp, r)
        core.close()


FUN = {}


def check(chk):
    chk.rule = ("the same random schemas and values under different sets of options of the generators; non-trivial = distinct "
                "(option set, language, command)")
    chk.assumptions = ["the reference model of the wire format (lib/zmodel.py)"]
    if not chk.thorough:
        round_(chk, 0, 4, 8)
    rnd = 0
    while chk.thorough and chk.left() > 0 and rnd < 20:
        FUN.clear()
        round_(chk, rnd, 14, 12)
        rnd += 1


if __name__ == "__main__":
    zcheck.main("O29", check)
