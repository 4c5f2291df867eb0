"""Runs the real zserio compiler on many small schemas: one JVM per worker which calls ZserioTool in a loop."""
import os
import queue
import re
import subprocess
import threading

import zbuild

SRC = os.path.join(zbuild.VERIF, "drivers/Zs.java")


class Result:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out

    @property
    def accepted(self):
        return self.rc == 0

    def messages(self, kind):
        """[(file or None, line, column, text)] of [ERROR] or [WARNING] lines."""
        res = []
        for line in self.out.split("\n"):
            m = re.match(r"\[%s\] (?:(.*?\.zs):(\d+):(\d+): )?(.*)" % kind, line)
            if m:
                res.append((m.group(1), int(m.group(2) or 0), int(m.group(3) or 0), m.group(4)))
        return res

    def crashed(self):
        return self.rc not in (0, 1) or "Internal error" in self.out or \
            re.search(r"^\s+at [\w.$]+\(|Exception in thread|java\.lang\.\w+(Exception|Error)", self.out, re.M) is not None


class Batch:
    def __init__(self, chk, workers=None):
        self.cp = zbuild.compiler()
        key = zbuild.hash_of(SRC) + zbuild.hash_of(self.cp[0])[:8]
        d = zbuild.cached("zs", key, lambda out: zbuild.javac(out + "/classes", [SRC], self.cp))
        self.cmd = ["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xshare:auto", "-Xmx700m", "-Xss4m", "-cp",
                    ":".join([d + "/classes"] + self.cp), "Zs"]
        self.n = workers or zbuild.JOBS
        self.dir = chk.dir

    def run(self, jobs, timeout=60):
        """jobs: list of argument lists; returns the Results in the same order."""
        out = [None] * len(jobs)
        q = queue.Queue()
        for i, j in enumerate(jobs):
            q.put((i, j))
        errs = []

        def work():
            p = None
            while True:
                try:
                    i, args = q.get_nowait()
                except queue.Empty:
                    break
                if p is None:
                    p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                         cwd=self.dir)
                t = threading.Timer(timeout, p.kill)
                t.start()
                try:
                    p.stdin.write(("\t".join(args) + "\n").encode("utf-8"))
                    p.stdin.flush()
                    line = p.stdout.readline()
                except OSError:
                    line = b""
                t.cancel()
                if not line.endswith(b"\n"):
                    out[i] = Result(3, "the compiler ended or did not answer within %d s" % timeout)
                    p.kill()
                    p.wait()
                    p = None
                    continue
                rc, h = line.decode().strip().split("|")
                out[i] = Result(int(rc), bytes.fromhex(h).decode("utf-8", "replace"))
            if p is not None:
                p.stdin.close()
                p.wait()
        ts = [threading.Thread(target=work) for _ in range(min(self.n, max(1, len(jobs))))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise zbuild.BuildError(errs[0])
        return out


def write(base, files):
    """Writes {package: text} as zserio files below base."""
    for pkg, text in files.items():
        p = os.path.join(base, *pkg.split(".")) + ".zs"
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
