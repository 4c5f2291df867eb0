"""C25: whatever is given to the compiler, it generates code or says what is wrong and where; layout and order don't matter."""
import common
import hashlib
import os
import re
import shutil

import zbatch
import zcheck
import zfuzz
import zgen
import zillegal
import zrpc
import zsql

GENERATORS = ["cpp", "java", "python", "doc", "xml"]
# names which only a generator can refuse, and files which don't exist, have no place in the schema
NO_PLACE = re.compile(r"No such file!|[Cc]lash|[Rr]eserved|keyword|is not supported|Can't |cannot be |can't be ")


def corpus(chk, r, n):
    """[(name, {package: text}, options)], the root package comes first."""
    out = []
    for name, text, kw in zillegal.CASES:
        if not kw.get("skip"):
            legal, illegal, _ = zillegal.expand(name, text, kw)
            o = [x for x in kw.get("options", []) if x != "-allowImplicitArrays"]
            out.append((name, legal, o))
            out.append((name + " (illegal)", illegal, o))
    k = len(out)
    for s in chk.seeds(n, "gen"):
        g = zgen.gen_schema(s, zgen.Opts(packages=r.choice([1, 1, 2, 3]), compounds=r.choice([3, 5, 8])), "zt")
        w = r.randrange(4)
        if w == 0:
            zsql.add_db(g, r)
        elif w == 1:
            zrpc.add_services(g, r, 2)
            zrpc.add_pubsubs(g, r, 2)
        out += [("schema %s" % s, {p: g.schema.text(p) for p in g.schema.order}, [])] * max(1, k // (2 * n))
    return out


def respaced(r, text):
    """Other white space and comments between the tokens."""
    out = []
    for t in zfuzz.tokens(text):
        if t[0] in " \t\r\n\f" and r.random() < 0.3:
            t = r.choice([" ", "\n", "\t", "\r\n", " // é {\n", " /* } ; */", " /**/", "\n\n\n", "  /* \" */ "])
        out.append(t)
    return "".join(out) + r.choice(["", "\n", " // end", "/* end */"])


def clean(text):
    """No comment or string which doesn't end."""
    ts = zfuzz.tokens(text)
    return not any(t in ('"', "'", "\\") or t == "/" and ts[i + 1:i + 2] == ["*"] for i, t in enumerate(ts))


def reordered(r, text):
    """The declarations of the package in another order; None if there is nothing to reorder."""
    ts = zfuzz.tokens(text)
    parts = zfuzz.whole(ts)
    rest = "".join(ts[parts[-1][1]:]) if parts else text
    head, decl = [], []
    for a, b in parts:
        code = [t for t in ts[a:b] if not zfuzz.blank(t)]
        if code[0] in ("package", "import", "zserio_compatibility_version") or (code[0] == "default" and "package" in code[:3]):
            if decl:
                return None
            head.append("".join(ts[a:b]))
        else:
            decl.append("".join(ts[a:b]))
    if len(decl) < 2 or any(not zfuzz.blank(t) for t in zfuzz.tokens(rest)):
        return None
    r.shuffle(decl)
    return "".join(head) + "\n" + "\n".join(decl) + rest


def tree(d):
    """{file: sorted lines} of the generated code without positions and times."""
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            out[os.path.relpath(os.path.join(p, f), d)] = open(os.path.join(p, f), "rb").read()
    return out


def key(res):
    """What an error is about, without the place: for the report only."""
    return re.sub(r"\d+", "N", re.sub(r"'[^']*'", "'X'", res.out))[:200]


class Run:
    def __init__(self, chk, batch, base):
        self.chk, self.batch, self.base = chk, batch, base
        self.n = 0

    def job(self, files, opts, gens):
        d = "%s/%d" % (self.base, self.n)
        self.n += 1
        for pkg, t in files.items():
            p = os.path.join(d, "s", *pkg.split(".")) + ".zs"
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8", errors="surrogatepass", newline="") as f:
                f.write(t)
        args = ["-src", d + "/s", next(iter(files)).replace(".", "/") + ".zs", "-allowImplicitArrays"] + opts
        for g in gens:
            args += ["-" + g, d + "/o/" + g]
        return d, args

    def bad(self, what, files, args, res, **more):
        self.chk.violation(what + "\n" + "\n".join(x for x in res.out.split("\n") if not x.startswith(("Parsing", "Extension", "Calling")))[:1500],
                           dict(more, files=files, command=args, output=res.out[:5000]))

    def judge(self, how, files, d, args, res):
        """Whether the answer of the compiler is one of those which it may give."""
        chk = self.chk
        chk.eval()
        if res.crashed():
            self.bad("the compiler crashed on a mutant (%s)" % how, files, args, res)
            return False
        errors = res.messages("ERROR")
        if res.rc == 0:
            chk.count("accepted")
            if errors:
                self.bad("the compiler reports an error and success (%s)" % how, files, args, res)
                return False
            return True
        if not errors:
            self.bad("the compiler fails without an error message (%s)" % how, files, args, res)
            return False
        f, line, col, text = next((e for e in errors if not e[3].startswith("    ")), errors[0])
        if f is None:
            chk.count("refused without a place")
            if not NO_PLACE.search(text):
                self.bad("the compiler does not say where the error is (%s)" % how, files, args, res)
                return False
            return True
        pkg = os.path.relpath(f, d + "/s")[:-3].replace("/", ".")
        lines = None
        if pkg in files:
            lines = re.split("\r\n|\n|\r", files[pkg])
        if lines is None or not (1 <= line <= len(lines) and 0 <= col <= len(lines[line - 1]) + 2):
            self.bad("the error is located at %s:%s:%s, there is no such place (%s)" % (f, line, col, how), files, args, res)
            return False
        chk.count("refused with a place")
        chk.nontrivial(hashlib.md5((text + files[pkg]).encode("utf-8", "replace")).hexdigest())
        return True


def round_(chk, batch, corp, rnd, n):
    r = chk.rng("fuzz", rnd)
    base = "%s/r%d" % (chk.dir, rnd)
    run = Run(chk, batch, base)
    cases = []
    for i in range(n):
        name, files, opts = r.choice(corp)
        files = dict(files)
        others = [r.choice(list(r.choice(corp)[1].values())) for _ in range(3)]
        p = r.choice(list(files))
        files[p], how = zfuzz.mutate(r, files[p], others, r.choice([0, 1, 1, 1, 1, 2, 3]))
        o = opts + [x for x in ("-withTypeInfoCode", "-withRangeCheckCode", "-withValidationCode", "-withSqlCode", "-withCodeComments",
                                "-withParsingInfoCode", "-withoutSourcesAmalgamation") if r.random() < 0.6 and x not in opts]
        if "-withTypeInfoCode" in o and r.random() < 0.6:
            o.append("-withReflectionCode")
        gens = GENERATORS if r.random() < 0.5 else r.sample(GENERATORS, 1)
        cases.append((name, files, o, gens, "%s: %s" % (name, ", ".join(how))))
    jobs = [run.job(f, o, g) for _, f, o, g, _ in cases]
    res = batch.run([j[1] for j in jobs])
    again = []
    for (name, files, o, gens, how), (d, args), x in zip(cases, jobs, res):
        chk.count("mutants")
        if run.judge(how, files, d, args, x) and all(clean(t) for t in files.values()):
            w = r.random()
            if w < 0.5:
                other, kind = {p: respaced(r, t) for p, t in files.items()}, "white space"
            else:
                other, kind = {}, "order"
                for p, t in files.items():
                    other[p] = reordered(r, t) or t
            if other != files:
                again.append((kind, name, files, o, gens, how, x, d, other))
    jobs = [run.job(a[8], a[3], a[4]) for a in again]
    res2 = batch.run([j[1] for j in jobs])
    for (kind, name, files, o, gens, how, x, d, other), (d2, args), y in zip(again, jobs, res2):
        if not run.judge(how + " and " + kind, other, d2, args, y):
            continue
        chk.count("compared, other " + kind)
        if (x.rc == 0) != (y.rc == 0):
            run.bad("other %s of the same declarations, and the schema is %s (%s)\n" % (kind, "accepted" if y.rc == 0 else "refused", how),
                    other, args, y if y.rc else x, before=files)
            continue
        if x.rc == 0:
            same(chk, run, kind, how, files, other, d, d2, args, y)
    shutil.rmtree(base, ignore_errors=True)


def normal(f, data, kind):
    t = data.decode("utf-8", "replace")
    if f.startswith("xml/"):
        t = re.sub(r'(line|column)="[^"]*"', "", t)
    t = re.sub(r"/s/|line \d+", "", t)
    return sorted(t.split("\n")) if kind == "order" else t


def same(chk, run, kind, how, files, other, d, d2, args, y):
    """The generated code of two layouts of a schema."""
    a, b = tree(d + "/o"), tree(d2 + "/o")
    if set(a) != set(b):
        run.bad("other %s of the same declarations, other files are generated: %s (%s)" % (kind, sorted(set(a) ^ set(b))[:5], how), other, args, y, before=files)
        return
    for f in sorted(a):
        chk.count("files compared")
        if f.startswith("doc/"):
            continue
        if a[f] != b[f] and normal(f, a[f].replace(d.encode(), b""), kind) != normal(f, b[f].replace(d2.encode(), b""), kind):
            p, q = normal(f, a[f], "x").split("\n"), normal(f, b[f], "x").split("\n")
            diff = sorted(set(q) - set(p))[:3], sorted(set(p) - set(q))[:3]
            run.bad("other %s of the same declarations, other code is generated in %s: %s (%s)" % (kind, f, diff, how), other, args, y, before=files)
            return


def check(chk):
    chk.rule = ("mutants of the schemas of the corpus of rules and of random schemas (tokens, names, numbers, types, expressions, statements, "
                "declarations, characters), and the same ones with other white space, comments and order of declarations; "
                "non-trivial = distinct refused mutants with a place of the error and accepted ones")
    batch = zbatch.Batch(chk)
    r = chk.rng("corpus")
    corp = corpus(chk, r, 40)
    if not chk.thorough:
        for rnd in range(3):
            round_(chk, batch, corp, rnd, 2500)
    rnd = 0
    while chk.thorough and chk.left() > 0 and rnd < 60:
        round_(chk, batch, corp, rnd, 4000)
        rnd += 1


if __name__ == "__main__":
    zcheck.main("C25", check)
