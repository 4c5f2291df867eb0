"""The common workload of the checks of the serialization core.

Random schemas with random values run through the generated code of all languages. Every execution is observed by the
drivers (what was decoded, the rewritten bits, sizes, equality flags, sanitizers); the oracle is the model in zmodel.
"""
import shutil

import zgen
import zlab
import zmodel
import zsys
from zbuild import BuildError

LANGS = ("py", "pycpp", "java", "cpp")
POSITIONS = (0, 1, 3, 8, 61)


class Value:
    def __init__(self, job, v, i):
        self.job, self.v, self.i = job, v, i
        self.nbits, self.bits = zmodel.encode(v)
        self.hex = zmodel.to_bytes(self.nbits, self.bits).hex()
        self.type = "%s.%s" % (v.t.pkg, v.t.name)
        self.dump = zmodel.dump(v)

    def full(self):
        return "%d:%s" % (self.nbits, self.hex)


class Core:
    number = 0

    def __init__(self, chk, specs, langs=LANGS, extra=(), prefix="zt", cpp_kw=None, javac_kw=None, build=True,
                 generators=("cpp", "java", "python")):
        self.chk, self.langs = chk, langs
        Core.number += 1
        self.lab = lab = zlab.Lab("%s/lab%d" % (chk.dir, Core.number))
        parts = ["compiler"]
        if "java" in langs:
            parts.append("java")
        if "pycpp" in langs:
            parts.append("pybind")
        kind = (cpp_kw or {}).get("kind", "asan")
        if "cpp" in langs:
            parts.append("cpp:" + kind)
        lab.prepare(*parts)
        for n, (seed, opts) in enumerate(specs):
            pkg = "%s%d" % (prefix, n)
            g = (zsys.EVERY[opts](pkg) if isinstance(opts, str) else opts(pkg) if callable(opts) else
                 zgen.gen_schema(seed, opts, pkg))
            j = lab.add(g, pkg)
            j.seed = seed
        self.extra = extra
        gl = [g for g in generators if {"cpp": "cpp", "java": "java", "python": "py"}[g] in
              [{"pycpp": "py"}.get(l, l) for l in langs]]
        for j, out in lab.generate(gl, extra):
            chk.violation("valid schema (seed %s) refused: %s" % (j.seed, out[-800:]),
                          {"schema": self.schema_text(j), "output": out[-3000:]})
            lab.jobs.remove(j)
        if build:
            self.build(cpp_kw, javac_kw)

    def schema_text(self, j):
        import glob
        return {f[len(j.src) + 1:]: open(f, encoding="utf-8").read()
                for f in glob.glob(j.src + "/**/*.zs", recursive=True)}

    def build(self, cpp_kw=None, javac_kw=None):
        lab, chk = self.lab, self.chk
        if "java" in self.langs:
            try:
                lab.javac(**(javac_kw or {}))
            except BuildError as e:
                chk.violation("generated Java code does not compile: %s" % str(e)[-1500:],
                              {"schemas": [self.schema_text(j) for j in lab.jobs][:4], "output": str(e)[-4000:]})
                self.langs = tuple(l for l in self.langs if l != "java")
        if "cpp" in self.langs:
            for j, e in lab.cpp(**(cpp_kw or {})):
                chk.violation("generated C++ code does not compile: %s" % e[:1500],
                              {"schema": self.schema_text(j), "output": e})

    def values(self, j, n, what="v"):
        out = []
        for root in j.schema.roots:
            for i in range(n):
                v = zgen.gen_value(j.gen, self.chk.rng(what, j.seed, root.name, i), root)
                if v is not None:
                    out.append(Value(j, v, i))
        return out

    def cmd(self, lang, j=None):
        if lang == "py":
            return self.lab.py_cmd("py")
        if lang == "pycpp":
            return self.lab.py_cmd("cpp")
        if lang == "java":
            return self.lab.java_cmd()
        return [j.exe]

    def run(self, items, langs=None, timeout=200, per=30, env=None):
        """items: list of (job, command, tag). Yields (lang, job, command, tag, result) of all executions."""
        chk = self.chk
        work = []
        for lang in langs or self.langs:
            if lang == "cpp":
                by = {}
                for it in items:
                    if it[0].exe:
                        by.setdefault(it[0].name, []).append(it)
                work += [(lang, its) for its in by.values()]
            else:
                # some processes per language, so that all cores have something to do
                k = max(1, len(items) // 3 + 1)
                work += [(lang, items[i:i + k]) for i in range(0, len(items), k)]

        self.lab.desc_all()

        def one(w):
            lang, its = w
            return w, zlab.run_driver(self.cmd(lang, its[0][0]), [it[1] for it in its], timeout=timeout, per=per,
                                      env=env)
        for (lang, its), (res, crashes) in self.lab.pool.map(one, work):
            for c in crashes:
                if c.what == "timeout":
                    chk.count("timeouts")
                    continue
                j = its[min(c.index, len(its) - 1)][0]
                chk.violation("%s: %s while executing %s\n%s" % (lang, c.what, (c.cmd or "")[:200], c.stderr[-1800:]),
                              {"lang": lang, "cmd": c.cmd, "what": c.what, "stderr": c.stderr,
                               "schema": self.schema_text(j)}, key=self.crash_key(lang, c))
            for it, r in zip(its, res):
                if r is not None:
                    chk.eval()
                    chk.count("executions " + lang)
                    yield lang, it[0], it[1], it[2], r

    def close(self):
        shutil.rmtree(self.lab.root, ignore_errors=True)
        self.lab.pool.shutdown()

    def crash_key(self, lang, c):
        return None

    def mismatch(self, lang, j, cmd, what, exp, got, key=None):
        k = next((i for i in range(min(len(exp), len(got))) if exp[i] != got[i]), min(len(exp), len(got)))
        lo = max(0, k - 60)
        self.chk.violation("%s, schema %s: %s differs at %d\n  command  %s\n  expected %s\n  got      %s" % (
            lang, j.seed, what, k, cmd[:160], exp[lo:k + 160], got[lo:k + 160]),
            {"lang": lang, "cmd": cmd, "what": what, "expected": exp, "got": got, "schema": self.schema_text(j)}, key=key)


DOCUMENTED = {"py": ("ValueError", "UnicodeDecodeError"), "pycpp": ("ValueError", "UnicodeDecodeError"),
              "java": ("IllegalArgumentException",), "cpp": ()}


def documented(lang, got):
    """Errors a user is told to expect: the runtime's exceptions and those of the native types (enum conversions)."""
    return got["known"] or got["class"] in DOCUMENTED[lang]


DEC_FIELDS = ("state", "consumed", "sizes", "bits", "flags", "dump")
BLD_FIELDS = ("state", "end", "size", "bits", "flags", "dump")


def parse(cmd, r):
    """Result line of DEC and BLD commands as a dictionary."""
    p = r.split("|")
    if p[0] == "ERR":
        return {"state": "ERR", "class": p[1] if len(p) > 1 else "", "known": len(p) > 2 and p[2] == "1",
                "msg": "|".join(p[3:])}
    names = DEC_FIELDS if cmd.startswith("DEC") else BLD_FIELDS
    d = dict(zip(names, p))
    if "dump" in d:
        d["dump"] = " ".join(d["dump"].split())
    return d


def dec_cmd(val):
    return "DEC\t%s\t%d\t%s" % (val.type, val.nbits, val.hex)


def bld_cmd(val, pos):
    """Build command and the model's expectation, None if the driver can't build such a value."""
    v = val.v
    if v.ext != v.t.num_extended():
        return None
    w = zmodel.clone(v)
    end = zmodel.layout(w, pos)
    n, b = zmodel.encode(w, pos)
    return ("BLD\t%s\t%d\t%s" % (val.type, pos, zmodel.dump(v, True)),
            {"state": "OK", "end": str(end), "size": str(n), "bits": "%d:%s" % (n, zmodel.to_bytes(n, b).hex()),
             "dump": zmodel.dump(w)})


def dec_exp(val):
    return {"state": "OK", "consumed": str(val.nbits), "bits": val.full(), "dump": val.dump,
            "sizes": ",".join(str(zmodel.encode(val.v, p, check=False)[0]) for p in POSITIONS)}


def flags_bad(flags):
    return flags is None or "0" in flags


def features(v):
    """What a value exercises, as a signature for coverage counts."""
    out = set()

    def walk(x):
        out.add((x.t.kind, x.t.name if False else len(x.t.fields), x.sel is not None))
        for f in x.t.fields:
            y = x.f.get(f.name)
            k = (type(f.type.base()).__name__, f.array, f.packed, f.optional is not None, y is None, f.align,
                 f.offset is not None, f.constraint is not None, f.extend)
            if f.array and y is not None:
                k += (min(len(y), 3),)
            out.add(k)
            if y is None:
                continue
            if f.elem().is_compound:
                for e in (y if f.array else [y]):
                    walk(e)
    walk(v)
    return frozenset(out)
