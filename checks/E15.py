"""E15: expressions have the same, documented value wherever they are used and in all languages."""
import common
import zcheck
import zcore
import zexpr
import zmodel


def specs(chk, n, rnd):
    out = []
    for i, s in enumerate(chk.seeds(n, "schema%d" % rnd)):
        def make(pkg, s=s, i=i):
            r = chk.rng("build", rnd, i, s)
            g = zexpr.Builder(r, pkg, 8, chk.pick(90, 160), 14)
            g.g.builder = g
            return g.g
        out.append((s, make))
    return out


def one(chk, rnd):
    core = zcore.Core(chk, specs(chk, chk.pick(6, 8), rnd), langs=("py", "java", "cpp"),
                      cpp_kw={"groups": 4}, prefix="ze%d" % rnd)
    items = []
    for j in core.lab.jobs:
        b = j.gen.builder
        for o in b.ops:
            chk.count("op " + o, b.ops[o])
        for i, v in enumerate(b.objs + b.extra):
            val = zcore.Value(j, v, i)
            items.append((j, zcore.dec_cmd(val), (val, "dec")))
            items.append((j, "FUN\t%s\t%d\t%s" % (val.type, val.nbits, val.hex), (val, "fun")))
            c = zcore.bld_cmd(val, 0)
            if c and "d" not in val.dump.split("{")[0]:
                items.append((j, c[0], (val, c[1])))
    for lang, j, cmd, (val, what), r in core.run(items):
        b = j.gen.builder
        if what == "fun":
            exp = ["%s=%s" % (n, zmodel.tok_simple(rt.base(), token(rt, fn.x.fn(val.v)))) for rt, n, fn in val.v.t.funcs]
            p = r.split("|")
            got = p[1].split(" ") if p[0] == "OK" and len(p) > 1 else []
            if len(got) != len(exp):
                core.mismatch(lang, j, cmd, "result of the functions", "OK|" + " ".join(exp), r)
                continue
            for (rt, n, fn), e, g in zip(val.v.t.funcs, exp, got):
                chk.eval()
                if e != g:
                    chk.violation("%s: the expression %s has the value %s instead of %s\n  object %s" % (
                        lang, fn.x.txt, g, e, val.dump[:700]), {"lang": lang, "expression": fn.x.txt, "expected": e, "got": g,
                                                                "cmd": cmd, "schema": core.schema_text(j)})
                else:
                    chk.nontrivial(fn.x.txt, val.i)
                    chk.count("values agreed")
        else:
            got = zcore.parse(cmd, r)
            exp = zcore.dec_exp(val) if what == "dec" else what
            for k in exp:
                if k == "sizes" and False:
                    continue
                if got.get(k) != exp[k]:
                    core.mismatch(lang, j, cmd, "%s of %s" % (k, "decoding" if what == "dec" else "building"), str(exp[k]),
                                  str(got.get(k, r)))
                    break
    if not chk.samples:
        for j in core.lab.jobs[:2]:
            for rt, n, fn in j.gen.builder.Root.funcs[:3]:
                chk.sample("%s = %s" % (fn.x.txt, fn.x.vals))
    core.close()


def token(rt, v):
    return rt.base().from_double(v) if isinstance(rt.base(), zmodel.Float) else v


def run(chk):
    rnd = 0
    while True:
        one(chk, rnd)
        rnd += 1
        if not chk.thorough or chk.left() < 200 or chk.nviol > chk.MAX:
            break
    chk.rule = ("distinct (expression, object) pairs whose value was the documented one in a language; the expressions are also "
                "used as conditions, array lengths, bit widths, constraints, arguments, selectors, constants and enum values")


if __name__ == "__main__":
    zcheck.main("E15", run)
