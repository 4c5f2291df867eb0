"""What all checks share: tiers, seeds, violations, known findings, evidence."""
import hashlib
import json
import os
import random
import shutil
import sys
import time
import traceback

import zbuild
from zbuild import BuildError, VERIF

KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")


def known_findings(pid):
    """{key: description} of the recorded (not repaired) findings of one property."""
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE, encoding="utf-8"):
            w = line.strip().split(None, 3)
            if len(w) >= 3 and w[0] == "known:" and w[1] == "property=" + pid and w[2].startswith("key="):
                out[w[2][4:]] = w[3] if len(w) > 3 else ""
    return out


class Check:
    """One run of one check.

    violation() records that an oracle saw the property broken, count() and seen() measure what was observed.
    """
    MAX = int(os.environ.get("VP_MAX", "8"))

    def __init__(self, pid, level="exploration"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.counts = {}
        self.samples = []
        self.nviol = 0
        self.rule = ""
        self.assumptions = []
        self.known = known_findings(pid)
        self.known_seen = {}
        self.extra = {}
        self.dir = zbuild.scratch("zv-%s-" % pid.lower())
        self.replays = os.path.join(VERIF, "replay")

    def rng(self, *what):
        return random.Random("%s/%d/%s" % (self.pid, self.seed, "/".join(map(str, what))))

    def seeds(self, n, what="schema"):
        """n seeds which differ between properties and VERIF_SEEDs."""
        h = int(hashlib.sha256(("%s/%d/%s" % (self.pid, self.seed, what)).encode()).hexdigest()[:8], 16)
        return [h + i for i in range(n)]

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self, limit=None):
        limit = limit or self.pick(150, 3000)
        return limit - (time.time() - self.t0)

    # ---- what was observed

    def eval(self, n=1):
        self.evals += n

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def nontrivial(self, *key):
        self.distinct.add(hashlib.md5(repr(key).encode("utf-8", "surrogatepass")).digest())

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s if isinstance(s, (dict, list)) else str(s)[:600])

    # ---- verdict

    def violation(self, what, replay=None, key=None):
        """key identifies the failing input or call site in the known findings file."""
        if key is not None and key in self.known:
            if key not in self.known_seen:
                self.known_seen[key] = what
                print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[key] or what.replace("\n", " ")[:300]),
                      flush=True)
            return
        self.nviol += 1
        if self.nviol > self.MAX:
            return
        os.makedirs(self.replays, exist_ok=True)
        p = os.path.join(self.replays, "%s-%s-%d-%d.json" % (self.pid, self.tier, self.seed, self.nviol))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "what": what, "key": key,
                       "replay": replay}, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
        print("  " + what[:1500].replace("\n", "\n  "), flush=True)

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
                           "samples": self.samples, "observed": self.counts, "known_findings_seen":
                           sorted(self.known_seen)},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": self.nviol}
        ev["coverage"].update(self.extra)
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (VERIF, self.pid), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s %s seed=%d: %d evaluations, %d distinct, %d violations, %.1fs %s" % (
            self.pid, self.tier, self.seed, self.evals, len(self.distinct), self.nviol, time.time() - self.t0,
            json.dumps(self.counts, sort_keys=True)[:1500]), flush=True)
        return 1 if self.nviol else 0


def main(pid, fn, level="exploration"):
    """Runs a check: fn(chk) observes, the exit code is the verdict."""
    chk = Check(pid, level)
    rc = 2
    try:
        fn(chk)
        if not chk.evals:
            raise RuntimeError("the check observed nothing")
        rc = chk.finish()
    except BuildError as e:
        print("ERROR: %s" % str(e)[-4000:])
        rc = chk.finish() or 2
    except Exception:
        traceback.print_exc()
        rc = chk.finish() or 2
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(chk.dir, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
