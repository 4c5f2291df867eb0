"""T20: the type information of generated code describes the schema, and its expressions give the values of the object."""
import common
import zbuild
import zcheck
import zcore
import zdesc
import zgen
import zlab
import zmodel
import zrpc
import zsql
import ztype

OPTS = ["-withTypeInfoCode", "-withReflectionCode", "-withoutSourcesAmalgamation"]


def specs(chk, n, rnd=0):
    out = [(k, k) for k in ("scalars", "arrays", "choices", "exts")] if rnd == 0 else []
    for i, s in enumerate(chk.seeds(n, "schema%d" % rnd)):
        r = chk.rng("opts", rnd, i)
        o = zgen.Opts(packages=r.choice([1, 1, 2]), compounds=r.choice([4, 6, 8]), fields=r.choice([(2, 5), (2, 8)]))

        def spec(pkg, s=s, o=o, r=chk.rng("system", rnd, i), what=i % 3):
            g = zgen.gen_schema(s, o, pkg)
            if what == 0:
                zsql.add_db(g, r)
            elif what == 1:
                zrpc.add_services(g, r, 2)
                zrpc.add_pubsubs(g, r, 2)
            return g
        out.append((s, spec))
    return out


def stream_form(v):
    n, b = zmodel.encode(v)
    return "D%d:%s" % (n, zmodel.to_bytes(n, b).hex())


def round_(chk, rnd, n, nv):
    core = zcore.Core(chk, specs(chk, n, rnd), langs=("py", "java", "cpp"), extra=OPTS, prefix="zy", build=False,
                      cpp_kw={"kind": "plain"})
    lab = core.lab
    real, link = zdesc.cpp_driver, lab.cpp_link
    zdesc.cpp_driver = lambda schema, only=None: ztype.cpp_driver(real, schema, only)
    lab.cpp_link = lambda j, objs, **kw: link(j, objs, libs=("-l:libsqlite3.so.0",), **kw)
    try:
        core.build({"kind": "plain", "defines": ["DRV_TYPES"], "groups": 4,
                    "includes": [zbuild.REPO + "/3rdparty/cpp/sqlite"]},
                   {"extra_src": zlab.DRIVERS + "/types/Extra.java"})
    finally:
        zdesc.cpp_driver = real
    cmd = core.cmd
    core.cmd = lambda lang, j=None: lab.py_cmd("py", extra=zlab.DRIVERS + "/types/typespy.py") if lang == "py" else cmd(lang, j)
    items = []
    for j in core.lab.jobs:
        for t in list(j.schema.roots) + ztype.decls(j.schema):
            items.append((j, "TI\t%s.%s" % (t.pkg, t.name), t))
    for lang, j, cmd_, t, r in core.run(items):
        exp = ztype.expected(t, lang)
        chk.count("type descriptions " + lang)
        r = ztype.normalized(j.schema, r, lang)
        if r != "OK|" + exp:
            core.mismatch(lang, j, cmd_, "type information", "OK|" + exp, r)
            continue
        for line in exp.split("; "):
            chk.nontrivial(lang, line.split(" ")[0], len(line), tuple(sorted(set(w.split(":")[-1] for w in line.split(" ")[2:]))))
    obj, refl = [], []
    for j in core.lab.jobs:
        for val in core.values(j, nv):
            if len(val.dump) > 20000:
                continue
            obj.append((j, "TO\t%s\t%s" % (val.type, stream_form(val.v)), val))
            refl.append((j, "RF\t%s\t%s" % (val.type, stream_form(val.v)), val))
    for lang, j, cmd_, val, r in core.run(obj, langs=[x for x in ("py", "java") if x in core.langs]):
        if r.startswith("NA|"):
            continue
        exp = "OK|" + ztype.evaluated(val.v, lang)
        chk.count("objects evaluated")
        if r != exp:
            core.mismatch(lang, j, cmd_, "values of the expressions of the type information", exp, r)
    if "cpp" in core.langs:
        for lang, j, cmd_, val, r in core.run(refl, langs=["cpp"]):
            if r.startswith("NA|"):
                continue
            fs = " ".join("%s=%s" % (fn, "object" if rt.base().is_compound else zmodel.tok_simple(rt, e.ev(zmodel.Ctx(val.v))))
                          for rt, fn, e in val.v.t.funcs)
            exp = "OK|%s|%s|%s" % (ztype.reflected(val.v), fs, val.full())
            got = r.rsplit("|", 1)
            if " ".join(got[0].split()) != " ".join(exp.split()):
                core.mismatch(lang, j, cmd_, "object by reflection", exp, r)
                continue
            for k, x in zip(("leaves", "finds", "functions", "parameters", "sets"), got[1].split()):
                chk.count("reflection " + k, int(x))
    core.close()


def check(chk):
    chk.rule = ("all type descriptions reachable from every root type in all runtimes, their expressions on random objects and the "
                "reflection of these objects; non-trivial = distinct sets of attributes of described types")
    chk.assumptions = ["expressions in the C++ type information are texts of C++ code and only checked to be there"]
    if not chk.thorough:
        round_(chk, 0, 3, 8)
    rnd = 0
    while chk.thorough and chk.left() > 0 and rnd < 20:
        round_(chk, rnd, 18, 20)
        rnd += 1


if __name__ == "__main__":
    zcheck.main("T20", check)
