"""T19: a walk over an object visits exactly what the filters let pass, and the tree creator builds exactly what it is told."""
import common
import zcheck
import zcore
import zgen
import zlab
import zmodel
import zwalk

OPTS = ["-withTypeInfoCode", "-withReflectionCode", "-withoutSourcesAmalgamation"]


def specs(chk, n, rnd=0):
    out = [(k, k) for k in ("arrays", "choices")] if rnd == 0 else []
    for i, s in enumerate(chk.seeds(n, "schema%d" % rnd)):
        r = chk.rng("opts", rnd, i)
        out.append((s, zgen.Opts(packages=r.choice([1, 1, 2]), compounds=r.choice([5, 7, 9]), fields=r.choice([(2, 5), (2, 7)]))))
    return out


def ext_full(v):
    if v.ext != v.t.num_extended():
        return False
    for f in zwalk.active(v):
        x = v.f.get(f.name)
        if x is not None and f.elem().is_compound and not all(ext_full(e) for e in (x if f.array else [x])):
            return False
    return True


def stream_form(v):
    n, b = zmodel.encode(v)
    return "D%d:%s" % (n, zmodel.to_bytes(n, b).hex())


def round_(chk, rnd, n, nv, nw):
    core = zcore.Core(chk, specs(chk, n, rnd), langs=("py", "java", "cpp"), extra=OPTS, prefix="zw", build=False,
                      cpp_kw={"kind": "asan"})
    lab = core.lab
    core.build({"kind": "asan", "defines": ["DRV_WALK"], "groups": 4}, {"extra_src": zlab.DRIVERS + "/walk/Extra.java"})
    cmd = core.cmd
    core.cmd = lambda lang, j=None: lab.py_cmd("py", extra=zlab.DRIVERS + "/walk/walkspy.py") if lang == "py" else cmd(lang, j)
    walks, makes = [], []
    for j in lab.jobs:
        for k, val in enumerate(core.values(j, nv)):
            if not ext_full(val.v) or len(val.dump) > 6000:
                continue
            r = chk.rng("walk", rnd, j.name, val.type, k)
            nodes = zwalk.tree(val.v)
            calls = 2 * len(list(zwalk.paths(nodes)))
            for _ in range(nw):
                sp = zwalk.spec(r, nodes, calls)
                walks.append((j, "WK\t%s\t%s\t%s" % (val.type, stream_form(val.v), sp), (val, sp)))
            s = zwalk.Script(val.v, r, r.choice((0, 0.2, 0.5)))
            makes.append((j, "TC\t%s\t%s" % (val.type, s.text()), (val, s)))
    for lang, j, cmd_, (val, sp), r in core.run(walks):
        if r.startswith("NA|"):
            continue
        exp = "OK|" + zwalk.expected(val.v, sp)
        chk.count("walks " + lang)
        chk.count("events", exp.count(" ") + 1)
        if r != exp:
            core.mismatch(lang, j, cmd_, "walk with filter %s" % shown(sp), exp, r)
        chk.nontrivial(sp[0], exp.count("A"), exp.count("C"), exp.count("?") > 0)
    for lang, j, cmd_, (val, s), r in core.run(makes):
        if r.startswith("NA|"):
            continue
        chk.count("trees created " + lang)
        chk.count("calls refused", s.bad)
        exp = "OK|" + s.expected(val.full())
        if r != exp:
            core.mismatch(lang, j, cmd_, "object by the tree creator", exp, r)
    core.close()


def shown(sp):
    return "&".join(x[:1] + bytes.fromhex(x[1:]).decode() if x[:1] == "X" else x for x in sp.split("&"))


def check(chk):
    chk.rule = ("walks of random objects under random filters and compositions of filters, and scripts of tree creator calls with "
                "misplaced calls in between; non-trivial = distinct (filter, arrays, compounds) of the walks")
    chk.assumptions = ["regular expressions are anchored at their end, since Python accepts a prefix"]
    if not chk.thorough:
        round_(chk, 0, 4, 10, 5)
    rnd = 0
    while chk.thorough and chk.left() > 0 and rnd < 20:
        round_(chk, rnd, 18, 20, 12)
        rnd += 1


if __name__ == "__main__":
    zcheck.main("T19", check)
