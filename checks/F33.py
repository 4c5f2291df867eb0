"""F33: buffers, bytes and files carry every value, and what could not be written or read is reported."""
import common
import os

import zcheck
import zcore
import zgen
import zlab
import zmodel
from T19 import ext_full, stream_form

OPTS = ["-withTypeInfoCode", "-withReflectionCode"]


def specs(chk, n, rnd):
    out = [(k, k) for k in ("exts", "choices") if k in zcore.zsys.EVERY] if rnd == 0 else []
    for i, s in enumerate(chk.seeds(n, "schema%d" % rnd)):
        r = chk.rng("opts", rnd, i)
        out.append((s, zgen.Opts(packages=1, compounds=r.choice([3, 5]), fields=r.choice([(1, 4), (3, 8)]))))
    return out


def round_(chk, rnd, n, nv):
    core = zcore.Core(chk, specs(chk, n, rnd), extra=OPTS, prefix="zf", build=False)
    core.build({"kind": "asan", "defines": ["DRV_FILES", "DRV_JSON"]}, {"extra_src": zlab.DRIVERS + "/files/Extra.java"})
    cmd_of = core.cmd
    core.cmd = lambda lang, j=None: (core.lab.py_cmd({"py": "py", "pycpp": "cpp"}[lang], extra=zlab.DRIVERS + "/files/filespy.py")
                                     if lang.startswith("py") else cmd_of(lang, j))
    items = []
    for lang in core.langs:
        for j in core.lab.jobs:
            for v in core.values(j, nv):
                if not ext_full(v.v):
                    continue
                d = "%s/files/%d" % (core.lab.root, len(items))
                os.makedirs(d)
                # the value is read at position 0, so its offsets are those of a file
                items.append((j, "FI\t%s\t%s\t%s" % (v.type, d, stream_form(v.v)), (lang, v)))
    for lang in core.langs:
        for lang, j, cmd, (l, v), r in core.run([it for it in items if it[2][0] == lang], langs=[lang]):
            h = v.full().split(":")[1]
            empty = v.nbits == 0
            p = r.split("|")
            exp = "OK|%s|%s|%s|%s|" % (v.full(), h, h, "1" * 17)
            if not r.startswith(exp):
                core.mismatch(lang, j, cmd, "utilities", exp, r)
                continue
            got = p[5].strip(",").split(",")
            if empty:
                got[4] = "known"
            if len(got) != 10:
                core.mismatch(lang, j, cmd, "number of failing operations", "10", str(len(got)))
            for i, g in enumerate(got):
                chk.count("failed operations", 1)
                if g == "silent":
                    what = ("serializeToFile", "toJsonFile")[i % 2] if i < 6 else ("deserializeFromFile", "fromJsonFile")[i % 2]
                    where = ("a missing directory", "a directory", "a full device", "a missing file", "a directory")[i // 2]
                    chk.violation("%s, schema %s: %s of %s: %s\n  command %s" % (lang, j.seed, what, where, g, cmd[:300]),
                                  {"lang": lang, "cmd": cmd, "result": r, "schema": core.schema_text(j)},
                                  key="%s:%s:%s:%s" % (lang, what, where, g))
            chk.nontrivial(lang, v.type, j.name, v.full())
    core.close()


def check(chk):
    chk.rule = ("random values through bit buffers, bytes, files and JSON files of all languages, and through files which can't be "
                "written or read; non-trivial = distinct (language, value)")
    chk.assumptions = ["/dev/full refuses data"]
    if not chk.thorough:
        round_(chk, 0, 5, 4)
    rnd = 0
    while chk.thorough and chk.left() > 0 and rnd < 20:
        round_(chk, rnd, 20, 14)
        rnd += 1


if __name__ == "__main__":
    zcheck.main("F33", check)
