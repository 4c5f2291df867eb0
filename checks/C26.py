"""C26: the code generated for every accepted schema compiles, loads and can be used in all languages and with all options."""
import glob
import os
import re
import subprocess

import common
import zbatch
import zbuild
import zcheck
import zgen
import zillegal

OPTIONS = [
    [],
    ["-withTypeInfoCode", "-withReflectionCode"],
    ["-withTypeInfoCode", "-withValidationCode", "-withRangeCheckCode"],
    ["-withoutWriterCode"],
    ["-withoutSettersCode", "-withTypeInfoCode"],
    ["-withCodeComments", "-withParsingInfoCode", "-withRangeCheckCode"],
    ["-setCppAllocator", "polymorphic", "-withTypeInfoCode", "-withReflectionCode", "-withParsingInfoCode"],
    ["-withoutSourcesAmalgamation", "-withValidationCode", "-withReflectionCode", "-withTypeInfoCode", "-withCodeComments"],
    ["-withoutWriterCode", "-withTypeInfoCode", "-withReflectionCode", "-withoutSourcesAmalgamation"],
    ["-withoutSqlCode", "-withoutServiceCode", "-withoutPubsubCode"],
]


# recorded defects: generated code of these accepted schemas does not compile (see known_findings.txt)
KNOWN = [
    ("cpp-extend-without-writer", ["-withoutWriterCode"],
     "package %s;\nstruct Sub\n{\n    uint8 a;\n};\nstruct Known\n{\n    uint8 x;\n    extend Sub sub;\n};\n"),
    ("java-biginteger-mix", [],
     "package %s;\nstruct Known\n{\n    uint64 a;\n    uint8 arr[];\n    uint8 b if a + lengthof(arr) > 3;\n};\n"),
    ("cpp-const-builtin", [], "package %s;\nconst uint8 C = numbits(8);\nstruct Known\n{\n    uint8 a[C];\n};\n"),
    ("java-sql-biginteger", ["-withSqlCode"],
     "package %s;\nbitmask uint64 Mask\n{\n    A, B\n};\nsql_table Known\n{\n    int32 id sql \"PRIMARY KEY\";\n    Mask m;\n};\n"),
    ("java-float-initializer", [], "package %s;\nstruct Known\n{\n    float32 f = 1.5;\n};\n"),
]


# every way to refer to something of another package, each of them alone in its own file of generated code
FAR = {"far.b": """package far.b;
const uint8 LEN = 3;
const string TEXT = "text";
enum uint8 E { A, B = LEN, C };
enum int32 N { MINUS = -1, ZERO };
bitmask uint16 M { R, W };
struct S { uint8 a; string s; E e; };
struct P(uint8 n) { bit<n> x[n]; };
union U { uint8 a; string s; };
choice C(E e) on e { case A: uint8 a; case B: string s; default: ; };
subtype string Name;
subtype S Same;
subtype E Kind;
struct T<X> { X x; };
instantiate T<uint32> T32;
""", "far.a": """package far.a;
import far.b.*;
const uint8 OWN = far.b.LEN + 1;
const E OWN_E = E.B;
const M OWN_M = M.R | M.W;
const string OWN_TEXT = TEXT;
struct F1 { S s; function E get() { return s.e; } };
struct F2 { uint8 x; function E get() { return E.B; } };
struct F3 { uint8 x; function M get() { return M.R | M.W; } };
struct F4 { uint8 x; function N get() { return x > 3 ? N.ZERO : N.MINUS; } };
struct F5(S p) { uint8 x; function S get() { return p; } };
struct F6(S p) { uint8 x; function Same get() { return p; } function Kind kind() { return p.e; } };
struct F7 { uint8 x; function uint32 get() { return far.b.LEN + valueof(E.C) + valueof(M.W); } };
struct F8 { uint8 x; function string get() { return TEXT + "a"; } };
struct F9 { S s; function Name get() { return s.s; } };
struct D1 { uint8 x = far.b.LEN; };
struct D2 { E e = E.C; };
struct D3 { M m = M.W; };
struct D4 { string s = TEXT; };
struct D5 { uint8 x = valueof(E.B); };
struct K1 { uint8 x : x > far.b.LEN; };
struct K2 { uint8 x if valueof(E.B) == 3; };
struct K3 { uint16 x : (x & valueof(M.W)) != 0; };
struct L1 { uint8 x[far.b.LEN]; };
struct L2 { bit<far.b.LEN> x; };
struct L3 { uint32 o[]; o[@index]: packed E e[]; };
struct Q1(E e) { uint8 x if e == E.A; };
struct Q2(M m) { uint8 x if isset(m, M.R); };
struct Q3(S s) { uint8 x[s.a]; };
struct Q4(U u) { uint8 x; };
struct Q5(Kind k) { uint8 x if k == Kind.B; };
struct A1 { E e[]; };
struct A2 { packed S s[]; };
struct A3 { P(2) p[]; };
struct A4 { optional U u; };
struct A5 { E e; C(e) c; };
struct A6 { T<S> t; };
struct A7 { T<E> t; T32 u; };
struct A8 { Name n; Same s; Kind k[]; };
struct A9 { extend S s; };
choice C1(E e) on e { case A: uint8 x; case E.B: uint16 y; };
choice C2(M m) on m { case M.R: uint8 x; default: uint16 y; };
choice C3(uint8 n) on n { case far.b.LEN: uint8 x; case 7: S s; };
choice C4(Kind k) on k { case A: C(k) c; default: ; };
union U1 { E e; M m; };
union U2 { S s; U u; };
union U3 { uint8 x : x < far.b.LEN; P(3) p; };
enum uint8 MyEnum { X = valueof(E.C) + 1, Y };
bitmask uint8 MyMask { X = far.b.LEN, Y = 8 };
""", "far.c": """package far.c;
import far.b.*;
import far.a.*;
service V1 { S get(U); };
service V2 { Same get(Same); bytes raw(bytes); };
pubsub O1 { publish topic("a/b") S s; };
pubsub O2 { subscribe topic(TEXT) Same s; topic("x") bytes b; };
sql_table R1 { int32 id sql "PRIMARY KEY"; E e; };
sql_table R2 { int32 id sql "PRIMARY KEY"; M m; S s; };
sql_table R3 { uint8 n sql "PRIMARY KEY"; P(n) p; P(explicit z) q; Name name; };
sql_table R4<X> { int32 id sql "PRIMARY KEY"; X x; };
sql_database B1 { R1 r; R4<S> t; };
sql_database B2 { R2 r; R3 q; };
struct Z1(Q1 q) { F2 f; function far.b.E get() { return f.get(); } };
"""}


class Item:
    def __init__(self, name, files, root, options, key=None):
        self.name, self.files, self.root, self.options, self.key = name, files, root, options, key


def sources(d, pat):
    return sorted(glob.glob(d + "/**/" + pat, recursive=True))


def run(chk):
    batch = zbatch.Batch(chk)
    items = []
    rot = chk.seed
    for name, text, kw in zillegal.CASES:
        if kw.get("skip"):
            continue
        legal, _, _ = zillegal.expand(name, text, kw)
        rot += 1
        for k in range(chk.pick(1, 3)):
            o = OPTIONS[(rot + 3 * k) % len(OPTIONS)]
            o = o + list(kw.get("options", [])) + (["-allowImplicitArrays"] if kw.get("implicit") else [])
            items.append(Item(name, legal, next(iter(legal)), o, "rule:" + name.replace(" ", "_")))
    for key, o, text in KNOWN:
        pkg = "k_" + key.replace("-", "_")
        items.append(Item("known " + key, {pkg: text % pkg}, pkg, o, key))
    for k in range(chk.pick(3, len(OPTIONS))):
        it = Item("far %d" % k, FAR, "far.c", ["-withoutSourcesAmalgamation"] * (k % 2) + OPTIONS[(chk.seed + 3 * k) % len(OPTIONS)] + ["-allowImplicitArrays"])
        if "-withoutWriterCode" in it.options:
            it.files = dict(FAR, **{"far.a": FAR["far.a"].replace("extend ", "")})      # cpp-extend-without-writer
        items.append(it)
    for i, s in enumerate(chk.seeds(chk.pick(12, 80))):
        r = chk.rng("opts", i)
        g = zgen.gen_schema(s, zgen.Opts(packages=r.choice([1, 1, 2, 3]), compounds=r.choice([4, 8, 12])))
        files = {n: g.schema.text(n) for n in g.schema.order}
        o = r.choice(OPTIONS)
        if any("extend " in t for t in files.values()):
            o = [x for x in o if x != "-withoutWriterCode"]     # cpp-extend-without-writer
        items.append(Item("random %d" % s, files, g.schema.order[0], o + ["-allowImplicitArrays"]))
    jobs = []
    for i, it in enumerate(items):
        it.dir = "%s/%d" % (chk.dir, i)
        it.top = "t%d" % i
        zbatch.write(it.dir + "/zs", it.files)
        jobs.append(["-src", it.dir + "/zs", "-setTopLevelPackage", it.top, "-cpp", it.dir + "/cpp", "-java", it.dir + "/java",
                     "-python", it.dir + "/py", "-xml", it.dir + "/xml", "-doc", it.dir + "/doc"] + it.options +
                    [it.root.replace(".", "/") + ".zs"])
    good = []
    for it, r, j in zip(items, batch.run(jobs), jobs):
        chk.eval()
        it.job = j
        if r.accepted and not r.crashed():
            good.append(it)
        else:
            bad(chk, it, "compiler", r.out)
    print("generated", len(good), "%.1f" % (zcheck.time.time() - chk.t0))
    java(chk, good)
    print("java %.1f" % (zcheck.time.time() - chk.t0))
    python(chk, good)
    print("python %.1f" % (zcheck.time.time() - chk.t0))
    cpp(chk, good)
    print("cpp %.1f" % (zcheck.time.time() - chk.t0))
    chk.rule = "distinct (schema, options, language) whose generated code was compiled and loaded without an error"


def bad(chk, it, lang, out):
    chk.violation("%s: %s code of an accepted schema with options %s is not usable\n%s" % (
        it.name, lang, " ".join(it.options), out[:1200]), {"files": it.files, "options": it.options, "lang": lang,
                                                           "output": out[:4000]},
        it.key if (it.key or "").startswith((lang.lower().replace("+", "p"), "rule")) else None)


def ok(chk, it, lang):
    chk.eval()
    chk.count(lang)
    chk.nontrivial(it.name, tuple(it.options), lang)


def java(chk, items):
    rt = zbuild.java_runtime()
    out = chk.dir + "/jclasses"
    todo = list(items)
    for _ in range(30):
        files = [f for it in todo for f in sources(it.dir + "/java", "*.java")]
        argf = chk.dir + "/java.args"
        open(argf, "w").write("\n".join(files))
        os.makedirs(out, exist_ok=True)
        r = zbuild.run(["javac", "-nowarn", "-encoding", "utf8", "-Xmaxerrs", "100000", "-d", out, "-cp", rt, "@" + argf])
        if r.returncode == 0:
            break
        errs = {}
        for m in re.finditer(r"^(%s/(\d+)/\S+\.java:\d+: error: .*(?:\n.*){2})" % re.escape(chk.dir), r.stdout, re.M):
            errs.setdefault(int(m.group(2)), []).append(m.group(1))
        if not errs:
            raise zbuild.BuildError(r.stdout[-3000:])
        for i in sorted(errs):
            it = next(x for x in todo if x.top == "t%d" % i)
            bad(chk, it, "Java", "\n".join(errs[i][:4]))
            todo.remove(it)
    # loading and initializing of all classes
    r = zbuild.run(["java", "-XX:TieredStopAtLevel=1", "-Xverify:all", "-cp", out + ":" + rt + ":" + loader(chk), "LoadAll", out])
    fails = {}
    loaded = 0
    for line in r.stdout.split("\n"):
        w = line.split("\t")
        if w[0] == "FAIL":
            fails.setdefault(w[1].split(".")[0], []).append(line)
        elif w[0] == "DONE":
            loaded = int(w[1])
    if not loaded:
        raise zbuild.BuildError("LoadAll: " + r.stdout[-2000:])
    chk.count("Java classes loaded", loaded)
    for it in todo:
        if it.top in fails:
            bad(chk, it, "Java", "\n".join(fails[it.top][:4]))
        else:
            ok(chk, it, "Java")


def loader(chk):
    src = chk.dir + "/LoadAll.java"
    open(src, "w").write("""
import java.nio.file.*;
public class LoadAll {
    public static void main(String[] a) throws Exception {
        int[] n = new int[1];
        Path root = Paths.get(a[0]);
        Files.walk(root).filter(p -> p.toString().endsWith(".class")).sorted().forEach(p -> {
            String s = root.relativize(p).toString();
            s = s.substring(0, s.length() - 6).replace('/', '.');
            try { Class.forName(s, true, LoadAll.class.getClassLoader()); n[0]++; }
            catch (Throwable t) { System.out.println("FAIL\\t" + s + "\\t" + t + "\\t" + t.getCause()); }
        });
        System.out.println("DONE\\t" + n[0]);
    }
}
""")
    zbuild.must(["javac", "-d", chk.dir + "/loader", src])
    return chk.dir + "/loader"


PYLOAD = r"""
import sys, importlib, os, traceback
for d in sys.argv[1:]:
    sys.path.insert(0, d)
    n = 0
    err = None
    for root, dn, fn in os.walk(d):
        for f in sorted(fn):
            if not f.endswith('.py'):
                continue
            m = os.path.relpath(os.path.join(root, f), d)[:-3].replace('/', '.')
            if m.endswith('__init__'):
                m = m[:-9]
            try:
                if m:
                    importlib.import_module(m)
                    n += 1
                    mod = sys.modules[m]
                    for v in list(vars(mod).values()):
                        ti = getattr(v, 'type_info', None)
                        if isinstance(v, type) and ti is not None and v.__module__ == m:
                            touch(ti()) if 'touch' in globals() else ti()
            except Exception:
                err = m + ': ' + traceback.format_exc()
    sys.path.pop(0)
    print('RES\t%s\t%d\t%r' % (d, n, err))
"""


def python(chk, items):
    dirs = [it.dir + "/py" for it in items]
    ps = []
    script = chk.dir + "/pyload.py"
    open(script, "w").write(PYLOAD)
    for k in range(zbuild.JOBS):
        env = dict(os.environ, PYTHONPATH=zbuild.PY_RUNTIME)
        ps.append(subprocess.Popen([zbuild.PYTHON, script] + dirs[k::zbuild.JOBS], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, env=env))
    res = {}
    for p in ps:
        o = p.communicate()[0]
        for line in o.split("\n"):
            w = line.split("\t")
            if w[0] == "RES":
                res[w[1]] = (int(w[2]), None if w[3] == "None" else eval(w[3]))
    for it in items:
        r = res.get(it.dir + "/py")
        if r is None:
            raise zbuild.BuildError("python loader gave no answer for " + it.name)
        chk.count("Python modules loaded", r[0])
        if r[1]:
            bad(chk, it, "Python", r[1])
        else:
            ok(chk, it, "Python")


def cpp(chk, items):
    # precompiled header of the runtime
    hdr = chk.dir + "/all.hpp"
    flags = ["clang++", "-std=c++11", "-w", "-ferror-limit=20", "-I" + zbuild.CPP_SRC,
             "-I" + os.path.join(zbuild.REPO, "3rdparty/cpp/sqlite")]
    with open(hdr, "w") as f:
        for h in sorted(glob.glob(zbuild.CPP_SRC + "/zserio/*.h")):
            f.write('#include "%s"\n' % os.path.relpath(h, zbuild.CPP_SRC))
    zbuild.must(flags + ["-x", "c++-header", hdr, "-o", hdr + ".pch"])

    def cmd(name, its):
        tu = "%s/tu-%s.cpp" % (chk.dir, name)
        inc = []
        with open(tu, "w") as f:
            for it in its:
                inc.append("-I" + it.dir + "/cpp")
                for s in sources(it.dir + "/cpp", "*.cpp") + sources(it.dir + "/cpp", "*.h"):
                    f.write('#include "%s"\n' % s)
        return flags + inc + ["-include-pch", hdr + ".pch", "-fsyntax-only", tu]
    K = 10
    groups = [items[i:i + K] for i in range(0, len(items), K)]
    res = pmap([cmd("g%d" % i, g) for i, g in enumerate(groups)])
    redo = []
    for g, (rc, out) in zip(groups, res):
        if rc == 0:
            for it in g:
                ok(chk, it, "C++")
        else:
            redo += g
    alone(chk, items)
    for it, (rc, out) in zip(redo, pmap([cmd("s" + it.top, [it]) for it in redo])):
        if rc:
            bad(chk, it, "C++", "\n".join(l for l in out.split("\n") if "error" in l)[:1500] or out)
        else:
            ok(chk, it, "C++")


def alone(chk, items):
    """Headers can be included alone, in any order: the first one of a source file."""
    r = chk.rng("alone")
    far = [it for it in items if it.files is FAR][:1] + [it for it in items if it.name.startswith("far ") and it.files is not FAR][:1]
    hs = [(it, h) for it in items if it not in far for h in sources(it.dir + "/cpp", "*.h")]
    hs = r.sample(hs, min(len(hs), chk.pick(60, 1500))) + [(it, h) for it in far[:1] for h in sources(it.dir + "/cpp", "*.h")]
    cmds = []
    for i, (it, h) in enumerate(hs):
        tu = "%s/alone%d.cpp" % (chk.dir, i)
        with open(tu, "w") as f:
            f.write('#include "%s"\n#include "%s"\n' % (h, h))
        cmds.append(["clang++", "-std=c++11", "-w", "-ferror-limit=20", "-I" + zbuild.CPP_SRC, "-I" + it.dir + "/cpp",
                     "-I" + os.path.join(zbuild.REPO, "3rdparty/cpp/sqlite"), "-fsyntax-only", tu])
    said = set()
    for (it, h), (rc, out) in zip(hs, pmap(cmds)):
        chk.count("headers included alone")
        if rc == 0:
            chk.nontrivial("alone", it.name, os.path.basename(h))
        elif (it, out.split("\n")[0]) not in said and len(said) < 20 and not (it.key or "").startswith("cpp"):
            said.add((it, out.split("\n")[0]))
            bad(chk, it, "C++", "%s included alone\n" % os.path.basename(h) + "\n".join(l for l in out.split("\n") if "error" in l)[:1000])


def pmap(cmds):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(zbuild.JOBS) as ex:
        return [(r.returncode, r.stdout) for r in ex.map(zbuild.run, cmds)]


if __name__ == "__main__":
    zcheck.main("C26", run)
