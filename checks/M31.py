"""M31: generated code and the runtimes may be used from several threads: nothing is shared behind the back of the user."""
import common

import zcheck
import zcore
import zgen
import zlab
import zmodel
from T19 import ext_full, stream_form

OPTS = ["-withTypeInfoCode", "-withReflectionCode"]
SEP, TAB = "\x1f", "\x1e"


def specs(chk, n, rnd):
    out = [(k, k) for k in ("arrays", "choices", "scalars") if k in zcore.zsys.EVERY] if rnd == 0 else []
    for i, s in enumerate(chk.seeds(n, "schema%d" % rnd)):
        r = chk.rng("opts", rnd, i)
        out.append((s, zgen.Opts(packages=1, compounds=r.choice([4, 6]), fields=r.choice([(2, 6), (3, 8)]),
                                 packed=r.choice([0.35, 0.6]))))
    return out


def round_(chk, rnd, n, nv, nt, rounds):
    core = zcore.Core(chk, specs(chk, n, rnd), langs=("py", "pycpp", "java", "cpp"), extra=OPTS, prefix="zm", build=False,
                      cpp_kw={"kind": "tsan"})
    core.build({"kind": "tsan", "defines": ["DRV_THREADS", "DRV_JSON", "DRV_TYPES"]},
               {"extra_src": zlab.DRIVERS + "/types/Extra.java"})
    cmd_of = core.cmd
    core.cmd = lambda lang, j=None: (core.lab.py_cmd({"py": "py", "pycpp": "cpp"}[lang], extra=zlab.DRIVERS + "/types/typespy.py")
                                     if lang.startswith("py") else cmd_of(lang, j))
    mt, sh = [], []
    for j in core.lab.jobs:
        vals = [v for v in core.values(j, nv) if len(v.dump) < 3000]
        for part in range(2):
            batch = []
            for v in vals[part::2]:
                batch.append((zcore.dec_cmd(v), zcore.dec_exp(v)))
                b = zcore.bld_cmd(v, 0)
                if b:
                    batch.append(b)
                if ext_full(v.v):
                    batch.append(("JW\t%s\t%s" % (v.type, stream_form(v.v)), None))
                    batch.append(("FUN\t%s\t%d\t%s" % (v.type, v.nbits, v.hex), None))
                batch.append(("TI\t%s" % v.type, None))
            chk.rng("order", rnd, j.name, part).shuffle(batch)
            # each batch begins a process: what is initialized on first use is so by several threads
            if batch:
                mt.append((j, "MT\t%d\t%d\t%s" % (nt, rounds, SEP.join(c.replace("\t", TAB) for c, e in batch)), batch))
        for v in vals[:8]:
            if ext_full(v.v):
                sh.append((j, "SH\t%s\t%d\t%d\t%s" % (v.type, nt, rounds + 1, stream_form(v.v)), v))
    singles = {}
    for group in (mt[0::2], mt[1::2]):
        for lang, j, cmd, batch, r in core.run(group, per=120, timeout=400):
            if not r.startswith("OK|") or r.startswith(("OK|threads", "OK|thread ", "OK|failed", "BAD|")):
                core.mismatch(lang, j, cmd, "results of threads", "OK|", r)
                continue
            res = r[3:].split(SEP)
            chk.count("commands in threads " + lang, len(batch) * nt * rounds)
            if len(res) != len(batch):
                core.mismatch(lang, j, cmd, "number of results", str(len(batch)), str(len(res)))
                continue
            for (c, exp), x in zip(batch, res):
                singles[lang, j.name, c] = (j, x)
                chk.nontrivial(lang, j.name, c)
                if exp is None:
                    continue
                got = zcore.parse(c, x)
                for f in ["state"] + [k for k in exp if k != "state"]:
                    if got.get(f) != exp[f]:
                        core.mismatch(lang, j, c, "in threads: " + f, exp[f], str(got.get(f)))
                        break
                else:
                    if zcore.flags_bad(got["flags"]):
                        core.mismatch(lang, j, c, "in threads: flags", "eq1", got["flags"])
    for lang, j, cmd, v, r in core.run(sh, per=120, timeout=400):
        chk.count("threads on a shared object " + lang, nt)
        p = r.split("|")
        exp = ["OK", str(v.nbits), v.full()]
        if p[:3] != exp or not p[3].startswith("eq1") or "c0" in p[3]:
            core.mismatch(lang, j, cmd, "shared object", "|".join(exp) + "|eq1", r)
        elif " ".join("|".join(p[5:]).split()) != v.dump:
            core.mismatch(lang, j, cmd, "text of a shared object", v.dump, "|".join(p[5:]))
    # results which no model predicts: the same in a single thread
    items = [(singles[k][0], k[2], (k[0], singles[k][1])) for k in singles if k[2][:2] in ("JW", "FU", "TI")]
    for lang in core.langs:
        for lang, j, cmd, (l, x), r in core.run([it for it in items if it[2][0] == lang], langs=[lang]):
            if r != x:
                core.mismatch(lang, j, cmd, "single thread and several threads", r, x)
    core.close()


def check(chk):
    chk.rule = ("batches of commands on independent objects run by several threads in different orders and read-only operations on "
                "shared objects; non-trivial = distinct (language, schema, command) run by all threads")
    chk.assumptions = ["data races are seen by ThreadSanitizer in C++, by their effects on results in Java and Python"]
    if not chk.thorough:
        round_(chk, 0, 4, 8, 4, 3)
    rnd = 0
    while chk.thorough and chk.left() > 0 and rnd < 20:
        round_(chk, rnd, 14, 10, 8, 5)
        rnd += 1


if __name__ == "__main__":
    zcheck.main("M31", check)
