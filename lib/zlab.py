"""Generated code of many schemas in all languages, and the processes which run it under the monitors."""
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

import zbuild
import zdesc
from zbuild import BuildError, VERIF

DRIVERS = os.path.join(VERIF, "drivers")
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                    "max_allocation_size_mb=2048:detect_stack_use_after_return=1:strict_string_checks=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97",
}


class Job:
    """One schema with its generated code."""

    def __init__(self, gen, name, dir):
        self.gen, self.schema, self.name, self.dir = gen, gen.schema if gen else None, name, dir
        self.src = dir + "/zs"
        self.exe = None


def zserio(args, cp=None, timeout=120, **kw):
    cp = cp or zbuild.compiler()
    return zbuild.run(["java", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-Xshare:auto", "-cp", ":".join(cp),
                       "zserio.tools.ZserioTool"] + args, timeout=timeout, **kw)


class Lab:
    def __init__(self, root, jobs=zbuild.JOBS):
        self.root = root
        self.jobs = []
        self.pool = ThreadPoolExecutor(jobs)
        self.log = []
        self.built = {}

    # ---- building

    def prepare(self, *parts):
        """Builds several parts of /repo in parallel: compiler, java, cpp:<kind>, pybind."""
        fs = []
        for p in parts:
            if p == "compiler":
                fs.append((p, self.pool.submit(zbuild.compiler)))
            elif p == "java":
                fs.append((p, self.pool.submit(zbuild.java_runtime)))
            elif p == "pybind":
                fs.append((p, self.pool.submit(zbuild.py_binding)))
            else:
                fs.append((p, self.pool.submit(zbuild.cpp_runtime, p.split(":")[1])))
        for p, f in fs:
            self.built[p] = f.result()

    def add(self, gen, name):
        j = Job(gen, name, "%s/%s" % (self.root, name))
        self.jobs.append(j)
        return j

    def generate(self, langs=("cpp", "java", "python"), extra=(), jobs=None):
        """Runs the zserio compiler on all jobs; returns the jobs which were refused with the output."""
        cp = self.built["compiler"]
        bad = []

        def one(j):
            os.makedirs(j.src, exist_ok=True)
            if j.schema is not None:
                j.schema.write(j.src)
            with open(j.dir + "/desc", "w") as f:
                f.write(zdesc.descriptor(j.schema) if j.schema is not None else "")
            args = ["-src", j.src, j.schema.root_file() if j.schema is not None else j.root_file,
                    "-allowImplicitArrays"] + list(extra(j) if callable(extra) else extra)
            for l in langs:
                args += ["-" + l, "%s/%s" % (j.dir, l)]
            r = zserio(args, cp)
            if r.returncode or "[ERROR]" in r.stdout:
                bad.append((j, r.stdout))
        list(self.pool.map(one, jobs or self.jobs))
        return bad

    def desc_all(self):
        p = self.root + "/desc.all"
        key = [j.name for j in self.jobs]
        if getattr(self, "desc_key", None) != key:
            with open(p + ".tmp", "w") as f:
                for j in self.jobs:
                    f.write(open(j.dir + "/desc").read())
            os.rename(p + ".tmp", p)
            self.desc_key = key
        return p

    def javac(self, extra_src=None, jobs=None):
        """Compiles the java code of all jobs and the driver; returns the class path."""
        out = self.root + "/javac"
        srcs = [DRIVERS + "/Drv.java", extra_src or DRIVERS + "/Extra.java"]
        for j in jobs or self.jobs:
            srcs += zbuild.java_files(j.dir + "/java")
        zbuild.javac(out, srcs, [self.built["java"]])
        self.java_cp = out + ":" + self.built["java"]
        return self.java_cp

    def cpp_units(self, j, kind="asan", defines=(), only=None, extra_src=(), opt="-O0", tag="", includes=(), groups=1):
        """Compilation units of the driver of one job: (weight, command, object)."""
        from glob import glob
        d = j.dir
        drv = d + "/drv%s.cpp" % tag
        with open(drv, "w") as f:
            f.write(zdesc.cpp_driver(j.schema, only))
        srcs = [drv] + sorted(glob(d + "/cpp/**/*.cpp", recursive=True)) + list(extra_src)
        if groups > 1 and len(srcs) > groups + 1:
            # not amalgamated sources are put together to some units of similar size
            gs = [[0, []] for _ in range(groups)]
            for s in sorted(srcs[1:], key=os.path.getsize, reverse=True):
                g = min(gs, key=lambda g: g[0])
                g[0] += os.path.getsize(s) + 2000
                g[1].append(s)
            srcs = srcs[:1]
            for i, g in enumerate(gs):
                if g[1]:
                    srcs.append(d + "/group%s%d.cpp" % (tag, i))
                    with open(srcs[-1], "w") as f:
                        f.write("".join('#include "%s"\n' % s for s in g[1]))
        flags = zbuild.cxx(kind, opt) + ["-D" + x for x in defines]
        flags += ["-I" + DRIVERS, "-I" + d + "/cpp", "-I" + zbuild.CPP_SRC] + ["-I" + i for i in includes]
        out = []
        for i, s in enumerate(srcs):
            o = d + "/o%s%d.o" % (tag, i)
            out.append((os.path.getsize(s) if s != drv else 1 << 30, flags + ["-c", s, "-o", o], o))
        return out

    def cpp_link(self, j, objs, kind="asan", opt="-O0", tag="", libs=(), **_):
        exe = j.dir + "/drv%s" % tag
        r = zbuild.run(zbuild.cxx(kind, opt) + objs + [self.built["cpp:" + kind], "-o", exe, *libs, "-lpthread"])
        if r.returncode:
            raise BuildError("linking of %s failed:\n%s" % (j.name, r.stdout[:3000]))
        for o in objs:
            os.unlink(o)
        return exe

    def cpp_one(self, j, **kw):
        """Compiles the driver of one job; returns the executable."""
        objs = []
        for _, cmd, o in self.cpp_units(j, **kw):
            objs.append(o)
            r = zbuild.run(cmd)
            if r.returncode:
                raise BuildError("generated C++ code of %s does not compile:\n%s" % (j.name, r.stdout[:3000]))
        return self.cpp_link(j, objs, **kw)

    def cpp(self, jobs=None, **kw):
        """Compiles the drivers of all jobs in parallel; returns the jobs which do not compile with the output."""
        errs = []
        units = []
        for j in jobs or self.jobs:
            j.exe, j.bad = None, None
            units += [(w, j, cmd, o) for w, cmd, o in self.cpp_units(j, **kw)]
        units.sort(key=lambda u: -u[0])

        def unit(u):
            if u[1].bad is None:
                r = zbuild.run(u[2])
                if r.returncode and u[1].bad is None:
                    u[1].bad = "generated C++ code of %s does not compile:\n%s" % (u[1].name, r.stdout[:3000])
        list(self.pool.map(unit, units))

        def link(j):
            try:
                if j.bad is None:
                    j.exe = self.cpp_link(j, [u[3] for u in units if u[1] is j], **kw)
            except BuildError as e:
                j.bad = str(e)
            if j.bad:
                errs.append((j, j.bad))
        list(self.pool.map(link, jobs or self.jobs))
        return errs

    # ---- command lines of the drivers

    def py_cmd(self, impl, jobs=None, extra=None):
        code = ":".join(j.dir + "/python" for j in (jobs or self.jobs))
        return [zbuild.PYTHON, DRIVERS + "/pydrv.py", zbuild.PY_RUNTIME,
                self.built["pybind"] if impl == "cpp" else "-", code, self.desc_all()] + ([extra] if extra else [])

    def java_cmd(self):
        return ["java", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-Xmx2g", "-cp", self.java_cp, "Drv",
                self.desc_all()]


class Crash:
    def __init__(self, index, cmd, what, stderr):
        self.index, self.cmd, self.what, self.stderr = index, cmd, what, stderr


def run_driver(argv, cmds, timeout=120, per=20, env=None, cwd=None):
    """Feeds the commands to a driver. Returns (list of result lines or None for crashed ones, crashes)."""
    res = [None] * len(cmds)
    crashes = []
    i = 0
    e = dict(os.environ)
    e.update(SAN_ENV)
    e.update(env or {})
    t_end = time.time() + timeout
    while i < len(cmds):
        with tempfile.TemporaryFile() as fin, tempfile.TemporaryFile() as ferr:
            fin.write(("\n".join(cmds[i:]) + "\n").encode())
            fin.seek(0)
            p = subprocess.Popen(argv, stdin=fin, stdout=subprocess.PIPE, stderr=ferr, env=e, cwd=cwd)
            state = {"n": 0, "last": time.time(), "killed": None}

            def watch():
                while p.poll() is None:
                    now = time.time()
                    if now - state["last"] > per:
                        state["killed"] = "hang"
                        p.kill()
                    elif now > t_end:
                        state["killed"] = "timeout"
                        p.kill()
                    time.sleep(0.1)
            w = threading.Thread(target=watch, daemon=True)
            w.start()
            start = i
            for line in p.stdout:
                state["last"] = time.time()
                if i < len(cmds):
                    res[i] = line.decode("utf-8", "replace").rstrip("\n")
                    i += 1
            p.stdout.close()
            rc = p.wait()
            w.join()
            ferr.seek(0)
            err = ferr.read().decode("utf-8", "replace")
            if state["killed"] == "timeout":
                crashes.append(Crash(-1, None, "timeout", ""))
                break
            if i >= len(cmds):
                if rc != 0:
                    crashes.append(Crash(len(cmds), None, "exit code %d at the end" % rc, (err if len(err) < 6000 else err[:3000] + "\n...\n" + err[-3000:])))
                break
            crashes.append(Crash(i, cmds[i], state["killed"] or "exit code %d" % rc, (err if len(err) < 6000 else err[:3000] + "\n...\n" + err[-3000:])))
            i += 1
            if len(crashes) > 30:
                break
    return res, crashes
