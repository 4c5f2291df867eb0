"""S23: SQL databases of the schema are created, written, read and updated as documented, in all languages."""
import os

import common
import zcheck
import zgen
import zsql


def specs(chk, n, rnd):
    out = []
    for i, s in enumerate(chk.seeds(n, "schema%d" % rnd)):
        def make(pkg, s=s, i=i):
            g = zgen.gen_schema(s, zgen.Opts(packages=1 + i % 2, compounds=3, fields=(2, 5)), pkg)
            zsql.add_db(g, chk.rng("db", rnd, i))
            return g
        out.append((s, make))
    return out


def script(w, r, start):
    """Operations of one session with the expected results."""
    ops = []

    def add(x):
        if x is not None:
            ops.append(x)
    names = [n for n, t in w.db.tables]
    if start:
        if r.random() < 0.7:
            add(w.schema())
        else:
            for n in r.sample(names, r.randint(1, len(names))):
                add(w.create(n))
    if r.random() < 0.3:
        add(("names", ",".join([w.db.name] + names)))
    for _ in range(r.choice([3, 6, 10])):
        live = list(w.live)
        if not live:
            break
        n = r.choice(live)
        k = r.random()
        if k < 0.45:
            add(w.write(n))
        elif k < 0.75:
            add(w.read(n))
        elif k < 0.95:
            add(w.update(n))
        elif k < 0.98:
            add(w.drop(n))
        elif set(live) == set(names):
            add(w.delschema())
    if w.live and not w.relocs and r.random() < 0.25:
        # the last one fails as a whole, so nothing of it is stored
        add(w.write(r.choice(list(w.live)), fail=True))
    return ops


def validation(w):
    """Expected texts of the validation of a database without errors."""
    rows = {n: w.con.execute("SELECT count(*) FROM %s" % n).fetchone()[0] for n, t in w.db.tables}
    cpp = "db%d " % len(rows) + "".join("%s:%d[ ]%s:%d " % (n, rows[n], n, rows[n]) for n, t in w.db.tables) + "end%d" % len(rows)
    return {"cpp": cpp, "java": "%d %d [ ]" % (len(rows), sum(rows.values()))}


def one(chk, rnd):
    sql = zsql.Sql(chk, specs(chk, chk.pick(4, 6), rnd), prefix="zs%d" % rnd)
    root = sql.lab.root + "/dbs"
    os.makedirs(root)
    worlds = []
    for j in sql.lab.jobs:
        for db in zsql.decls(j.schema):
            for k in range(chk.pick(30, 120)):
                r = chk.rng("session", rnd, j.seed, k)
                w = zsql.World(j.gen, db, r, "%s/@L_%s_%d" % (root, j.name, k))
                w.job, w.r2 = j, chk.rng("second", rnd, j.seed, k)
                w.prepared = k % 3 == 0
                worlds.append(w)
    for phase in (0, 1):
        items = []
        for w in worlds:
            r = chk.rng("ops", rnd, phase, w.path)
            if phase == 0 and w.prepared:
                script(w, r, True)
                for lang in sql.langs:
                    w.save(lang)
                if not w.live:
                    continue
                ops = script(w, r, False)
            else:
                ops = script(w, r, phase == 0)
            if not ops:
                ops = [("names", ",".join([w.db.name] + [n for n, t in w.db.tables]))]
            w.val = None
            if set(w.live) == {n for n, t in w.db.tables} and not any(e == "!sql" for o, e in ops):
                w.val = validation(w)
            items.append((w, [o for o, e in ops], [e for o, e in ops]))
        todo = {id(w): (w, exp) for w, ops, exp in items}
        for with_val in (True, False):
            langs = [x for x in sql.langs if (x != "py") == with_val]
            sel = [(w.job, w.line(ops + (["validate|"] if with_val and w.val else [])), (w, exp)) for w, ops, exp in items]
            for lang, j, cmd, (w, exp), r in sql.core.run(sel, langs=langs):
                got = zsql.split_result(r)
                want = list(exp) + ([w.val[lang]] if with_val and w.val else [])
                bad = None
                if len(got) != len(want):
                    bad = "%d results instead of %d: %s" % (len(got), len(want), r[:600])
                for i, (e, g) in enumerate(zip(want, got)):
                    if bad:
                        break
                    if lang == "py" and g.endswith("~narrow"):
                        g = g[:-7]
                        chk.violation("py: rows of %s have only the given columns" % cmd.split("\t")[5 + i][:200], {"cmd": cmd}, "python-narrow-rows")
                    d = zsql.compare(e, g)
                    if d:
                        bad = "operation %d (%s) resulted in %s: %s" % (i + 1, cmd.split("\t")[5 + i][:500], g[:500], d)
                    elif lang == "java":
                        chk.count("op " + cmd.split("\t")[5 + i].split("|")[0])
                        chk.nontrivial(cmd.split("\t")[5 + i])
                if not bad:
                    d = w.check_file(lang)
                    if d:
                        bad = "after the session: " + d
                if bad:
                    chk.violation("%s: session of %s: %s" % (lang, w.db.full, bad),
                                  {"lang": lang, "cmd": cmd, "got": r[:5000], "schema": sql.core.schema_text(j)})
                else:
                    chk.count("files " + lang)
    if not chk.samples and items:
        chk.sample(sel[0][1][:500])
    corrupted(chk, sql, rnd, root)
    sql.close()


def corrupted(chk, sql, rnd, root):
    """Validation reports exactly the errors of databases which do not match their schema."""
    sel, sel_cpp = [], []
    for j in sql.lab.jobs:
        for db in zsql.decls(j.schema):
            for k in range(chk.pick(60, 250)):
                r = chk.rng("corrupted", rnd, j.seed, k)
                w = zsql.World(j.gen, db, r, "%s/@L_%s_c%d" % (root, j.name, k))
                w.schema()
                for n, t in db.tables:
                    for _ in range(r.choice([0, 1, 2, 3])):
                        w.write(n)
                if any(n not in w.live for n, t in db.tables):
                    continue
                c = zsql.Corruption(w)
                if not c.sql:
                    continue
                for lang in ("java", "cpp"):
                    w.save(lang)
                    c.apply(lang)
                mode = r.choice(["", "", "", "stop", "stop", "one", "skip"])
                (sel if not mode else sel_cpp).append((j, w.line(["validate|" + mode]), (c, mode)))
    for items, langs in ((sel, ["java", "cpp"]), (sel_cpp, ["cpp"])):
        for lang, j, cmd, (c, mode), r in sql.core.run(items, langs=langs):
            d = c.check(lang, mode, r[3:]) if r.startswith("OK|") else "validation failed"
            if d:
                chk.violation("%s: validation of a corrupted database %s (%s): %s: %s" % (
                    lang, c.w.db.full, str([x for s in c.sql.values() for x in s])[:600], d, r[:600]),
                    {"lang": lang, "cmd": cmd, "got": r[:5000], "schema": sql.core.schema_text(j)})
            else:
                chk.count("validation " + lang)
                if lang == "cpp":
                    chk.nontrivial(cmd)
                    for e in c.schema_errors.values():
                        for x in e:
                            chk.count("reported " + x[1])
                    for e in c.rows.values():
                        for x in e.values():
                            chk.count("reported " + x[1][0])


def run(chk):
    rnd = 0
    while True:
        one(chk, rnd)
        rnd += 1
        if not chk.thorough or chk.left() < 200 or chk.nviol > chk.MAX:
            break
    chk.rule = ("distinct operations (create, write, read, update, delete of tables with random columns, rows and conditions) whose "
                "result and whose effect on the database files was the one of SQLite itself")


if __name__ == "__main__":
    zcheck.main("S23", run)
