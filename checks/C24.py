"""C24: the output of the compiler is a function of schema and options, also when it goes on from older output."""
import common
import filecmp
import os
import re
import shutil
import time

import zbuild
import zcheck
import zgen
import zlab
import zrpc
import zsql

OUTS = ("cpp", "java", "python", "xml", "doc")
SETS = [[], ["-withTypeInfoCode"], ["-withTypeInfoCode", "-withReflectionCode"], ["-withoutWriterCode"], ["-withValidationCode"],
        ["-withoutSourcesAmalgamation"], ["-setCppAllocator", "polymorphic"], ["-withCodeComments"], ["-withoutRangeCheckCode"],
        ["-withParsingInfoCode"], ["-withoutPubsubCode", "-withoutServiceCode"], ["-withoutSqlCode"],
        ["-setTopLevelPackage", "top.level"], ["-withBitPositionCode"][:0] + ["-withGlobalRuleIdCheck"],
        ["-withTypeInfoCode", "-withCodeComments", "-withoutSourcesAmalgamation"]]


def files(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            out[os.path.relpath(os.path.join(d, f), root)] = os.path.join(d, f)
    return out


class Tree:
    """Sources of one schema and a persistent output directory."""

    def __init__(self, chk, cp, root, gen, seed):
        self.chk, self.cp, self.root, self.gen, self.seed = chk, cp, root, gen, seed
        self.src = root + "/src"
        os.makedirs(self.src)
        gen.schema.write(self.src)
        self.n = 0

    def compile(self, out, opts, src=None, cwd=None):
        args = ["-src", src or self.src, self.gen.schema.root_file(), "-allowImplicitArrays"] + opts
        for o in OUTS:
            args += ["-" + o, out + "/" + o]
        r = zlab.zserio(args, self.cp, cwd=cwd or self.root)
        self.chk.eval()
        self.chk.count("runs of the compiler")
        return r.returncode == 0 and "[ERROR]" not in r.stdout, r.stdout

    def differences(self, a, b):
        """Files of a which are not the same in b."""
        fa, fb = files(a), files(b)
        self.chk.count("files compared", len(fa))
        return [f for f in sorted(fa) if f not in fb or not filecmp.cmp(fa[f], fb[f], shallow=False)], fa, fb

    def report(self, what, diff, fa, fb, log):
        f = diff[0]
        x = open(fa[f], errors="replace").read().split("\n")
        y = open(fb[f], errors="replace").read().split("\n") if f in fb else ["(no such file)"]
        k = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
        self.chk.violation("schema %s: %s: %d files differ, first %s:%d\n  fresh %s\n  other %s\n  history: %s" % (
            self.seed, what, len(diff), f, k + 1, (x + [""])[k][:200], (y + [""])[k][:200], "; ".join(log)),
            {"what": what, "files": diff[:50], "history": log, "schema": {f: open(p, encoding="utf-8").read() for f, p in files(self.src).items()}})


def change(tree, r):
    """A random change of one source; returns what was done or None."""
    fs = sorted(files(tree.src).items())
    name, path = r.choice(fs)
    text = open(path, encoding="utf-8").read()
    tree.n += 1
    k = r.randrange(3)
    if k == 0:
        new = text + "\nstruct Extra%d\n{\n    uint8 a;\n    string s;\n};\n" % tree.n
    elif k == 1:
        new = text + "\nconst uint32 EXTRA_%d = %d;\n" % (tree.n, r.randrange(1 << 31))
    else:
        new = text + "\n/** Documented %d. */\nenum uint8 ExtraEnum%d\n{\n    A%d,\n    B\n};\n" % (tree.n, tree.n, tree.n)
    if k == 2 and r.random() < 0.5:
        # a literal of the original schema
        ms = list(re.finditer(r"= (\d+);", text))
        if ms:
            m = r.choice(ms)
            new = text[:m.start(1)] + str(r.randrange(200)) + text[m.end(1):]
    open(path, "w", encoding="utf-8").write(new)
    return "changed " + name, path, text


def one(chk, cp, root, gen, seed, steps):
    r = chk.rng("history", seed)
    t = Tree(chk, cp, root, gen, seed)
    opts = list(r.choice(SETS))
    ok, out = t.compile(root + "/a", opts)
    if not ok:
        chk.violation("valid schema %s refused: %s" % (seed, out[-800:]), {"output": out})
        return
    # another process, another directory, another place of the sources, the files written in another order
    shutil.copytree(t.src, root + "/elsewhere/deep/src2")
    ok, out = t.compile(root + "/b", opts, src=root + "/elsewhere/deep/src2", cwd="/")
    if not ok:
        chk.violation("schema %s refused in another directory: %s" % (seed, out[-800:]), {"output": out})
        return
    diff, fa, fb = t.differences(root + "/a", root + "/b")
    diff = [f for f in diff if not (f.startswith(("doc", "xml")) and
                                    open(fa[f], errors="replace").read().replace(t.src, "@") ==
                                    open(fb[f], errors="replace").read().replace(root + "/elsewhere/deep/src2", "@"))]
    if diff:
        t.report("two fresh runs", diff, fa, fb, [" ".join(opts)])
        return
    chk.nontrivial("determinism", seed, tuple(opts), len(fa))
    log = ["generated with " + " ".join(opts)]
    for step in range(steps):
        what = []
        # files of the same millisecond are not what this is about
        time.sleep(0.02)
        undo = None
        k = r.choice("cccooetdpn")
        if k == "c":
            done, path, old = change(t, r)
            what.append(done)
            undo = (path, old)
        elif k == "e":
            # as coarse clocks or checkouts and caches do: nobody can tell what is newer
            done, path, old = change(t, r)
            undo = (path, old)
            now = time.time() - r.choice([0, 5, 5000])
            for f in list(files(t.src).values()) + list(files(root + "/a").values()):
                os.utime(f, (now, now))
            what.append(done + " and gave all files the same time")
        elif k == "o":
            opts = list(r.choice(SETS))
            what.append("options " + " ".join(opts))
        elif k == "t":
            f = r.choice(sorted(files(t.src).values()))
            os.utime(f)
            what.append("touched " + os.path.basename(f))
        elif k in "dp":
            fs = sorted(files(root + "/a").items())
            for f, p in r.sample(fs, min(len(fs), r.choice([1, 3, len(fs)]))):
                if k == "d":
                    os.unlink(p)
                else:
                    os.utime(p, (1000000000, 1000000000))
                what.append(("deleted " if k == "d" else "aged ") + f)
            what = what[:4]
        else:
            what.append("nothing")
        log += what
        time.sleep(0.02)
        ok, out = t.compile(root + "/a", opts)
        fresh = root + "/fresh"
        ok2, out2 = t.compile(fresh, opts + (["-ignoreTimestamps"] if r.random() < 0.5 else []))
        if ok != ok2:
            chk.violation("schema %s: valid only in a fresh directory or not: %s %s" % (seed, out[-400:], out2[-400:]), {"history": log})
            return
        if ok:
            skipped = sum(int(x) for x in re.findall(r"skipped (\d+)", out))
            chk.count("files kept by incremental runs", skipped)
            chk.count("steps " + {"c": "change", "o": "options", "e": "same time", "t": "touch", "d": "delete", "p": "age", "n": "nothing"}[k])
            diff, fa, fb = t.differences(fresh, root + "/a")
            # the generator description tells whether timestamps were ignored
            diff = [f for f in diff if f not in fb or strip(fa[f]) != strip(fb[f])]
            if diff:
                t.report("incremental run", diff, fa, fb, log)
                return
            chk.nontrivial("step", seed, step, k, skipped)
        elif undo:
            open(undo[0], "w", encoding="utf-8").write(undo[1])
            os.utime(undo[0])
            log.append("(refused, undone)")
        shutil.rmtree(fresh, ignore_errors=True)


def strip(f):
    return re.sub(r",? ?ignoreTimestamps", "", open(f, errors="replace").read())


def round_(chk, rnd, n, steps):
    lab = zlab.Lab("%s/lab%d" % (chk.dir, rnd))
    lab.prepare("compiler")
    jobs = []
    for i, s in enumerate(chk.seeds(n, "schema%d" % rnd)):
        r = chk.rng("opts", rnd, i)
        g = zgen.gen_schema(s, zgen.Opts(packages=r.choice([1, 2, 3]), compounds=r.choice([4, 7]), fields=(2, 6)), "zi%d" % i)
        if i % 3 == 0:
            zsql.add_db(g, r)
        elif i % 3 == 1:
            zrpc.add_services(g, r, 2)
            zrpc.add_pubsubs(g, r, 2)
        jobs.append((g, s, "%s/t%d" % (lab.root, i)))
    list(lab.pool.map(lambda x: one(chk, lab.built["compiler"], x[2], x[0], x[1], steps), jobs))
    shutil.rmtree(lab.root, ignore_errors=True)
    lab.pool.shutdown()


def check(chk):
    chk.rule = ("random schemas generated twice in different places, and histories of changes of sources, options and outputs with "
                "incremental runs compared with fresh ones; non-trivial = distinct (schema, step, kind of change, files kept)")
    chk.assumptions = ["sources of other times than outputs have are modified before the run starts"]
    if not chk.thorough:
        round_(chk, 0, 14, 7)
    rnd = 0
    while chk.thorough and chk.left() > 0 and rnd < 20:
        round_(chk, rnd, 32, 20)
        rnd += 1


if __name__ == "__main__":
    zcheck.main("C24", check)
