"""Driver of generated SQL databases in Python: one session (command) per line."""
import os
import sys

argv = sys.argv
sys.argv = argv[:5]
_stdin, sys.stdin = sys.stdin, open(os.devnull)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pydrv  # noqa: E402  (reads the descriptor; its command loop sees no command)
sys.stdin = _stdin
import apsw  # noqa: E402
import zserio  # noqa: E402
from pydrv import Build, TYPES, dumps, load, snake, tok  # noqa: E402

TABLES, DBS = {}, {}
for line in open(argv[5]):
    w = line.split()
    if w[0] == "T":
        cur = TABLES[w[1]] = {"cols": [], "exp": []}
    elif w[0] == "K":
        cur["cols"].append(w[1:])
    elif w[0] == "X":
        cur["exp"].append(w[1:])
    elif w[0] == "D":
        DBS[w[1]] = tabs = {}
    elif w[0] == "I":
        tabs[w[1]] = w[2]


def parse(text, sub):
    b = Build(text.split(" "))
    if text.startswith("{"):
        b.next()
        return b.compound()
    return b.simple(b.next(), sub)


def cell(kind, sub, v):
    if v is None:
        return "n"
    if kind == "c":
        if type(v) is not TYPES[sub].cls:
            return "TYPE " + type(v).__name__
        return dumps(TYPES[sub], v)
    return tok(kind, v)


def provider(full, params):
    t = TABLES[full]
    if not t["exp"]:
        return None
    ns = {}
    for n, kind, sub in t["exp"]:
        ns[snake(n)] = lambda self, row, n=n, sub=sub: parse(params[n], sub)
    return type("Prov", (load(full).IParameterProvider,), ns)()


def op(db, inst, a, params):
    if a[0] == "schema":
        if a[1]:
            db.create_schema(a[1].split(","))
        else:
            db.create_schema()
        return "ok"
    if a[0] == "delschema":
        db.delete_schema()
        return "ok"
    if a[0] == "names":
        names = [getattr(db, "TABLE_NAME_" + s) for s in [snake(n).upper() for n in inst]]
        return ",".join([db.DATABASE_NAME] + names)
    t = getattr(db, snake(a[1]))
    full = inst[a[1]]
    if a[0] == "create":
        t.create_table()
        return "ok"
    if a[0] == "createrowid":
        t.create_ordinary_rowid_table()
        return "ok"
    if a[0] == "drop":
        t.delete_table()
        return "ok"
    info = TABLES[full]["cols"]
    cols = None if a[2] == "*" else a[2].split(",")
    # known finding: rows of tables which need no conversion have only the given columns
    narrow = cols is not None and not any(i[1] in "cem" for i in info)
    if a[0] in ("write", "update"):
        rows = []
        narrow = narrow and not hasattr(load(full), "_write_row")
        for r in a[3].split(";") if a[3] else []:
            rows.append(tuple(parse(c, i[2]) for c, i in zip(r.split(","), info) if not narrow or i[0] in cols))
        if a[0] == "write":
            t.write(rows, cols) if cols is not None else t.write(rows)
        elif cols is None:
            t.update(rows[0], a[4])
        else:
            t.update_columns(rows[0], cols, a[4])
        return "ok"
    args = [provider(full, params)] if TABLES[full]["exp"] else []
    if cols is None:
        res = t.read(*args, a[3]) if a[3] else t.read(*args)
    else:
        res = t.read_columns(*args, cols, a[3]) if a[3] else t.read_columns(*args, cols)
    out, mark = [], ""
    for row in res:
        if narrow and len(row) != len(info) and len(row) == sum(i[0] in cols for i in info):
            mark = "~narrow"
            it = iter(row)
            row = [next(it) if i[0] in cols else None for i in info]
        if len(row) != len(info):
            return "%d columns" % len(row)
        out.append(",".join(("SET" if cols is not None and i[0] not in cols and v is not None else "") + cell(i[1], i[2], v)
                            for i, v in zip(info, row)))
    return "[" + ";".join(out) + "]" + mark


def session(a):
    cls = load(a[0])
    relocs = dict(x.split("=") for x in a[2].split(",")) if a[2] != "-" else {}
    params = dict(x.split("=") for x in a[4].split(";")) if a[4] != "-" else {}
    con = None
    if a[3] == "1":
        con = apsw.Connection(a[1])
        files = sorted(set(relocs.values()))
        for i, f in enumerate(files):
            con.cursor().execute("ATTACH DATABASE '%s' AS att_%d" % (f, i))
        db = cls(con, {t: "att_%d" % files.index(f) for t, f in relocs.items()})
    else:
        db = cls.from_file(a[1], relocs) if relocs else cls.from_file(a[1])
    out = []
    try:
        for o in a[5:]:
            try:
                out.append(op(db, DBS[a[0]], o.split("|"), params))
            except apsw.Error as e:
                out.append("!sql" + str(e).replace("#", " "))
            except zserio.PythonRuntimeException:
                out.append("!runtime")
            except ValueError:
                out.append("!runtime")
    finally:
        db.close()
        if con is not None:
            con.cursor().execute("SELECT 1")    # still open
            con.close()
    return " # ".join(out)


for line in sys.stdin:
    try:
        r = "OK|" + session(line.rstrip("\n").replace("@L", "py").split("\t"))
    except Exception as e:  # noqa: B902
        r = "ERR|%s|%s" % (type(e).__name__, e)
    print(r.replace("\n", " "), flush=True)
