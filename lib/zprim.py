"""Builds and runs the drivers of the runtime primitives (drivers/prim.*)."""
import os
from concurrent.futures import ThreadPoolExecutor

import zbuild
import zlab
from zbuild import BuildError, must

D = zlab.DRIVERS


class Prim:
    def __init__(self, chk, langs=("py", "pycpp", "java", "cpp"), kind="asan"):
        self.chk, self.langs = chk, langs
        os.makedirs(chk.dir + "/prim", exist_ok=True)
        out = chk.dir + "/prim"
        self.pool = ThreadPoolExecutor(zbuild.JOBS)

        def cpp():
            lib = zbuild.cpp_runtime(kind)
            must(zbuild.cxx(kind, "-O1") + ["-I" + zbuild.CPP_SRC, D + "/prim.cpp", lib, "-o", out + "/primcpp"])
            return [out + "/primcpp"]

        def java():
            cp = zbuild.java_runtime()
            zbuild.javac(out + "/j", [D + "/Prim.java"], [cp])
            return ["java", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-cp", out + "/j:" + cp, "Prim"]

        def pycpp():
            return [zbuild.PYTHON, D + "/prim.py", zbuild.PY_RUNTIME, zbuild.py_binding()]
        fs = {}
        for l, f in (("cpp", cpp), ("java", java), ("pycpp", pycpp)):
            if l in langs:
                fs[l] = self.pool.submit(f)
        self.cmds = {l: f.result() for l, f in fs.items()}
        self.cmds["py"] = [zbuild.PYTHON, D + "/prim.py", zbuild.PY_RUNTIME, "-"]

    def run(self, items, timeout=200, per=30):
        """items: list of (command, tag, languages or None). Yields (lang, command, tag, result)."""
        work = []
        for l in self.langs:
            its = [(c, t) for c, t, ls in items if ls is None or l in ls]
            k = max(1, len(its) // 2 + 1)
            work += [(l, its[i:i + k]) for i in range(0, len(its), k)]

        def one(w):
            return w, zlab.run_driver(self.cmds[w[0]], [c for c, _ in w[1]], timeout=timeout, per=per)
        for (lang, its), (res, crashes) in self.pool.map(one, work):
            for c in crashes:
                if c.what == "timeout":
                    self.chk.count("timeouts")
                    continue
                self.chk.violation("%s: %s while executing %s\n%s" % (lang, c.what, (c.cmd or "")[:300],
                                                                      c.stderr[-1500:]),
                                   {"lang": lang, "cmd": c.cmd, "stderr": c.stderr})
            for (c, t), r in zip(its, res):
                if r is not None:
                    self.chk.eval()
                    self.chk.count("executions " + lang)
                    yield lang, c, t, r

    def bad(self, lang, cmd, what, exp, got, key=None):
        self.chk.violation("%s: %s\n  command  %s\n  expected %s\n  got      %s" % (
            lang, what, cmd[:400], str(exp)[:400], str(got)[:400]),
            {"lang": lang, "cmd": cmd, "expected": exp, "got": got}, key=key)


__all__ = ["Prim", "BuildError"]
