"""C27: the compiler accepts exactly the schemas which follow the rules of the language and locates what breaks them."""
import os

import common
import zbatch
import zcheck
import zillegal

FILLER = ["struct Pre%d\n{\n    uint8 a : a > %d;\n    string b[];\n};\n", "/*\n * A comment: struct {\n %d */\nconst uint16 PRE%d = 7;\n",
          "enum uint8 PreE%d\n{\n    PRE_A = %d,\n    PRE_B\n};\n", "// one line\n/** Doc. */\nsubtype uint32 PreS%d;\n// %d\n",
          "choice PreC%d(uint8 p) on p\n{\n    case %d:\n        bool x;\n    default:\n        ;\n};\n"]


def shifted(rng, text):
    """Declarations and comments put before the first declaration: ({package: text}, number of new lines)."""
    lines = text.split("\n")
    at = None
    for i, s in enumerate(lines):
        w = s.split(" ")[0]
        if w in ("struct", "enum", "choice", "union", "const", "subtype", "bitmask", "sql_table", "service", "pubsub",
                 "sql_database", "rule_group"):
            at = i
            break
        if w and w not in ("package", "import") or "package" in s and not s.startswith("package"):
            return None
    if at is None or not any(s.startswith("package") for s in lines[:at]):
        return None
    pre = []
    for n in range(rng.randint(1, 4)):
        k = rng.choice(FILLER)
        pre += (k % ((n, n + 1) if k.count("%d") == 2 and not k.startswith("/*") else (n + 1, n))).rstrip("\n").split("\n")
        pre += [""] * rng.randint(0, 2)
    return "\n".join(lines[:at] + pre + lines[at:]), at, len(pre)


def variants(chk, name, files, places):
    """[(label, files, root, places)]"""
    out = [("plain", files, next(iter(files)), places)]
    r = chk.rng("shift", name)
    s = shifted(r, next(iter(files.values())))
    if s:
        root = next(iter(files))
        text, at, n = s
        pl = None if places is None else {(p, l + n if p == root and l > at else l) for p, l in places}
        out.append(("shifted", dict(files, **{root: text}), root, pl))
    # the whole thing imported by another package
    if next(iter(files.values())).lstrip().startswith("package p;"):
        main = dict([("mainpkg", "package mainpkg;\n\nimport p.*;\n\nstruct Main\n{\n    uint8 z;\n};\n")] + list(files.items()))
        out.append(("imported", main, "mainpkg", places))
    return out


def run(chk):
    batch = zbatch.Batch(chk)
    jobs, meta = [], []
    for i, (name, text, kw) in enumerate(zillegal.CASES):
        if kw.get("skip"):
            continue
        legal, illegal, places = zillegal.expand(name, text, kw)
        opts = list(kw.get("options", []))
        if kw.get("implicit"):
            opts += ["-allowImplicitArrays"]
        for legality, files in (("legal", legal), ("illegal", illegal)):
            vs = variants(chk, name, files, places)
            if not chk.thorough:
                # all plain ones, one other per twin
                vs = vs[:1] + ([chk.rng("v", name, chk.seed).choice(vs[1:])] if vs[1:] else [])
            for label, fs, root, pl in vs:
                base = "%s/%d-%s-%s" % (chk.dir, i, legality, label)
                zbatch.write(base, fs)
                jobs.append(["-src", base] + opts + [root.replace(".", "/") + ".zs"])
                meta.append((name, legality, label, fs, root, pl, base))
    res = batch.run(jobs)
    for (name, legality, label, files, root, places, base), r, job in zip(meta, res, jobs):
        chk.eval()
        chk.count("%s %s" % (legality, label))
        rep = {"case": name, "variant": label, "files": files, "command": job, "output": r.out[:3000]}
        key = "rule:" + name.replace(" ", "_")
        errors = r.messages("ERROR")
        if r.crashed():
            chk.violation("%s (%s, %s): the compiler crashed\n%s" % (name, legality, label, r.out[:1500]), rep, key)
        elif legality == "legal":
            if not r.accepted or errors:
                chk.violation("%s (%s): refused although it follows the rules\n%s" % (name, label, r.out[:800]), rep, key)
        elif r.accepted:
            chk.violation("%s (%s): accepted although it breaks a rule of the language\n%s" % (
                name, label, files[root][:800]), rep, key)
        elif not errors:
            chk.violation("%s (%s): refused without an error message\n%s" % (name, label, r.out[:800]), rep, key)
        else:
            # related places come first, as indented notes
            f, line, col, text = next((e for e in errors if not e[3].startswith("    ")), errors[0])
            if name == "import unknown package":
                chk.nontrivial(name, label)
                continue
            if f is None:
                where = None
            else:
                pkg = os.path.relpath(f, base)[:-3].replace("/", ".")
                where = (pkg, line)
            if f is None or pkg not in files or not 1 <= line <= files[pkg].count("\n") + 1:
                chk.violation("%s (%s): the error has no place in the schema: %r" % (name, label, errors[0]), rep, key)
            elif places is not None and where not in places:
                chk.violation("%s (%s): the error is located at %s, expected %s\n%s" % (
                    name, label, where, sorted(places), r.out[:800]), rep, key)
            else:
                chk.nontrivial(name, label)
                chk.count("errors located")
                chk.sample("%s: %s" % (name, text))
    chk.rule = ("distinct (rule, context) pairs whose legal form was accepted and whose illegal twin was refused with an "
                "error located at the line which breaks the rule")
    chk.extra["rules"] = len({m[0] for m in meta})


if __name__ == "__main__":
    zcheck.main("C27", run)
