"""Builds what the checks need from /repo's current working tree, outside /repo.

Everything is keyed by a content hash of the inputs, so a change of any input forces a rebuild.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import time

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("VP_CACHE", os.path.join(VERIF, ".cache"))
JOBS = os.cpu_count() or 8
PYTHON = "/opt/venv/bin/python"
EXTS = ["cpp", "java", "python", "doc", "xml"]
JARS = os.path.join(REPO, "3rdparty/java")
LIBJARS = [os.path.join(JARS, j) for j in ("antlr-4.7.2-complete.jar", "freemarker-2.3.28.jar",
                                          "commons-cli-1.4.jar")]

os.environ["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
os.environ["JAVA_HOME"] = "/usr/lib/jvm/java-17-openjdk-amd64"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["LANG"] = os.environ["LC_ALL"] = "C.UTF-8"
for _v in ("CLASSPATH", "PYTHONPATH", "ANT_OPTS", "JAVA_TOOL_OPTIONS"):
    os.environ.pop(_v, None)


class BuildError(Exception):
    """Something of /repo does not build: the check can give no verdict about properties."""


def run(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.STDOUT)
    kw.setdefault("text", True)
    return subprocess.run(cmd, **kw)


def must(cmd, **kw):
    r = run(cmd, **kw)
    if r.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (r.returncode, " ".join(map(str, cmd))[:600],
                                                          (r.stdout or "")[-6000:]))
    return r


def hash_of(*paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for d, dn, fn in os.walk(p):
                dn[:] = sorted(x for x in dn if x not in ("__pycache__", "test"))
                files += [os.path.join(d, f) for f in sorted(fn) if not f.endswith(".pyc")]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fd:
                h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()[:24]


def cached(name, key, build, keep=4):
    """Returns CACHE/name-key, built by build(dir) if not there yet."""
    os.makedirs(CACHE, exist_ok=True)
    final = os.path.join(CACHE, "%s-%s" % (name, key))
    if os.path.exists(final + "/.ok"):
        os.utime(final)
        return final
    with open(os.path.join(CACHE, ".lock-" + name), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(final + "/.ok"):
            return final
        old = sorted((p for p in glob.glob(os.path.join(CACHE, name + "-*"))
                      if os.path.isdir(p)), key=os.path.getmtime)
        for p in old[:max(0, len(old) - keep + 1)]:
            if time.time() - os.path.getmtime(p) > 3600:
                shutil.rmtree(p, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix=".tmp-%s-" % name, dir=CACHE)
        try:
            build(tmp)
            open(tmp + "/.ok", "w").close()
            shutil.rmtree(final, ignore_errors=True)
            os.rename(tmp, final)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return final


def javac(out, srcs, cp):
    os.makedirs(out, exist_ok=True)
    argf = out + ".args"
    with open(argf, "w") as f:
        f.write("\n".join(srcs))
    must(["javac", "-nowarn", "-encoding", "utf8", "-g", "-J-XX:TieredStopAtLevel=1", "-J-Xshare:auto",
          "-d", out, "-cp", ":".join(cp), "@" + argf])
    os.unlink(argf)


def java_files(*dirs):
    r = []
    for d in dirs:
        r += sorted(glob.glob(d + "/**/*.java", recursive=True))
    return [f for f in r if not f.endswith("package-info.java")]


def compiler():
    """Builds compiler core and all extensions; returns the class path list to run zserio.tools.ZserioTool."""
    core = os.path.join(REPO, "compiler/core")
    inputs = [core + "/src", core + "/antlr", JARS]
    for e in EXTS:
        b = os.path.join(REPO, "compiler/extensions", e)
        inputs += [b + "/src", b + "/metainf"]
        if e != "xml":
            inputs.append(b + "/freemarker")
        if e == "doc":
            inputs.append(b + "/runtime")
    key = hash_of(*inputs)

    def build(out):
        ps = []
        for g in ("ZserioLexer.g4", "ZserioParser.g4", "DocComment.g4"):
            # the parser grammar needs the lexer's tokens, so it has to wait
            cmd = ["java", "-XX:TieredStopAtLevel=1", "-cp", LIBJARS[0], "org.antlr.v4.Tool", "-o",
                   out + "/gen/zserio/antlr", "-package", "zserio.antlr", core + "/antlr/" + g,
                   "-no-listener", "-visitor"]
            if g == "DocComment.g4":
                ps.append(subprocess.Popen(cmd))
            else:
                must(cmd)
        for p in ps:
            if p.wait():
                raise BuildError("antlr failed")
        srcs = java_files(out + "/gen", core + "/src")
        cp = LIBJARS + [os.path.join(JARS, j) for j in os.listdir(JARS) if j.endswith(".jar")]
        # one compilation of core and all extensions
        for e in EXTS:
            srcs += java_files(os.path.join(REPO, "compiler/extensions", e, "src"))
        javac(out + "/classes", srcs, cp)
        services = []
        for e in EXTS:
            b = os.path.join(REPO, "compiler/extensions", e)
            if e != "xml":
                shutil.copytree(b + "/freemarker", out + "/classes/freemarker/" + e)
            if e == "doc":
                shutil.copytree(b + "/runtime", out + "/classes/zserio/extension/doc/runtime")
            with open(b + "/metainf/services/zserio.tools.Extension") as f:
                services.append(f.read().strip())
        os.makedirs(out + "/classes/META-INF/services")
        with open(out + "/classes/META-INF/services/zserio.tools.Extension", "w") as f:
            f.write("\n".join(services) + "\n")
        for d, _, fn in os.walk(core + "/src"):
            for x in fn:
                if not x.endswith((".java", ".html")):
                    dst = out + "/classes/" + os.path.relpath(os.path.join(d, x), core + "/src")
                    os.makedirs(os.path.dirname(dst), exist_ok=True)
                    shutil.copy(os.path.join(d, x), dst)
        must(["jar", "--create", "--file", out + "/zserio.jar", "-C", out + "/classes", "."])
        shutil.rmtree(out + "/classes")
        shutil.rmtree(out + "/gen")
    d = cached("compiler", key + "-jar", build)
    return [d + "/zserio.jar"] + [os.path.join(JARS, j) for j in sorted(os.listdir(JARS))
                               if j.endswith(".jar") and "junit" not in j and "jacoco" not in j]


def java_runtime():
    src = os.path.join(REPO, "compiler/extensions/java/runtime/src")

    def build(out):
        files = [f for f in java_files(src) if "/validation/" not in f or True]
        javac(out + "/classes", files, [])
    return cached("javart", hash_of(src), build) + "/classes"


CPP_SRC = os.path.join(REPO, "compiler/extensions/cpp/runtime/src")
SANFLAGS = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread"],
    "plain": [],
}


def cxx(kind="asan", opt="-O0", std="c++11", compiler="clang++"):
    return [compiler, "-std=" + std, opt, "-g1" if kind != "plain" else "-g0", "-w"] + SANFLAGS[kind]


def parallel(cmds, what, jobs=JOBS):
    """Runs the commands in parallel; raises BuildError if any fails."""
    running, todo, failed = [], list(cmds), []
    while todo or running:
        while todo and len(running) < jobs:
            c = todo.pop(0)
            f = tempfile.TemporaryFile("w+")
            running.append((subprocess.Popen(c, stdout=f, stderr=subprocess.STDOUT), f, c))
        for t in running[:]:
            if t[0].poll() is not None:
                running.remove(t)
                t[1].seek(0)
                o = t[1].read()
                t[1].close()
                if t[0].returncode:
                    failed.append((t[2], o))
        time.sleep(0.01)
    if failed:
        raise BuildError("%s: %s\n%s" % (what, " ".join(failed[0][0])[-400:], failed[0][1][-5000:]))


def cpp_runtime(kind="asan", opt="-O1", std="c++11", compiler="clang++", extra=()):
    """Static library of the C++ runtime, returns its path."""
    key = hashlib.sha256((hash_of(CPP_SRC) + kind + opt + std + compiler + repr(extra)).encode()).hexdigest()[:24]

    def build(out):
        cmds, objs = [], []
        for f in sorted(glob.glob(CPP_SRC + "/zserio/**/*.cpp", recursive=True)):
            o = out + "/" + os.path.basename(f)[:-4] + ".o"
            objs.append(o)
            cmds.append(cxx(kind, opt, std, compiler) + list(extra) + ["-I" + CPP_SRC, "-c", f, "-o", o])
        parallel(cmds, "cpp runtime")
        must(["ar", "rcs", out + "/libz.a"] + objs)
        for o in objs:
            os.unlink(o)
    return cached("cpprt-%s" % kind, key, build) + "/libz.a"


def py_binding():
    """zserio_cpp python module; returns the directory to put on sys.path."""
    src = os.path.join(REPO, "compiler/extensions/python/runtime/src/zserio_cpp")

    def build(out):
        inc = must([PYTHON, "-c", "import pybind11,sysconfig;print(pybind11.get_include());"
                    "print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"]
                   ).stdout.split()
        cmds, objs = [], []
        # what the binding itself needs of the C++ runtime
        files = sorted(glob.glob(src + "/*.cpp")) + sorted(glob.glob(CPP_SRC + "/zserio/*.cpp"))
        for f in files:
            o = out + "/" + hashlib.md5(f.encode()).hexdigest() + ".o"
            objs.append(o)
            cmds.append(["g++", "-std=c++17", "-O1", "-w", "-fPIC", "-fvisibility=hidden", "-I" + inc[0],
                         "-I" + inc[1], "-I" + CPP_SRC, "-I" + src, "-c", f, "-o", o])
        parallel(cmds, "zserio_cpp")
        must(["g++", "-shared", "-o", out + "/zserio_cpp" + inc[2]] + objs)
        for o in objs:
            os.unlink(o)
    return cached("pybind", hash_of(src, CPP_SRC), build)


PY_RUNTIME = os.path.join(REPO, "compiler/extensions/python/runtime/src")


def scratch(prefix="zv-"):
    base = os.environ.get("VP_SCRATCH", "/tmp")
    return tempfile.mkdtemp(prefix=prefix, dir=base)


if __name__ == "__main__":
    t = time.time()
    for what in sys.argv[1:] or ["compiler", "java_runtime", "cpp_asan", "cpp_tsan", "cpp_plain", "py_binding"]:
        t = time.time()
        if what.startswith("cpp_"):
            cpp_runtime(what[4:])
        else:
            globals()[what]()
        print("%s: %.1fs" % (what, time.time() - t))
