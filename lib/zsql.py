"""SQL databases: their definitions in a schema, the drivers of all languages and an oracle on SQLite itself."""
import os
import re
import sqlite3
import struct

import zbuild
import zdesc
import zgen
import zlab
import zmodel
from zmodel import Bool, Bitmask, Compound, Enum, Float, Int, Str, Subtype, lit


class Col:
    def __init__(self, name, type, args=(), constraint="", virtual=False):
        # args: (kind, text, value type) with kind col (name of a column), exp (explicit, name) or lit
        self.name, self.type, self.args, self.constraint, self.virtual = name, type, list(args), constraint, virtual
        self.small = False          # used as a length

    @property
    def kind(self):
        return zdesc.kind(self.type)

    def sqltype(self):
        return {"c": "BLOB", "s": "TEXT", "d": "REAL"}.get(self.kind[0], "INTEGER")

    def decl(self):
        a = ", ".join("explicit " + x[1] if x[0] == "exp" else x[1] for x in self.args)
        return "    %s%s%s %s%s;\n" % ("sql_virtual " if self.virtual else "", self.type.zs(), "(%s)" % a if a else "",
                                       self.name, ' sql "%s"' % self.constraint if self.constraint else "")


class Table:
    def __init__(self, pkg, name, cols, constraint="", using=None, norowid=False):
        self.pkg, self.name, self.cols, self.constraint, self.using, self.norowid = pkg, name, cols, constraint, using, norowid
        self.full = pkg + "." + name

    def decl(self):
        return "sql_table %s%s\n{\n%s%s%s};\n" % (
            self.name, " using " + self.using if self.using else "", "".join(c.decl() for c in self.cols),
            '\n    sql "%s";\n' % self.constraint if self.constraint else "", "\n    sql_without_rowid;\n" if self.norowid else "")

    def explicit(self):
        """[(name, type)] of the explicit parameters, in order and each once."""
        out = []
        for c in self.cols:
            for k, n, t in c.args:
                if k == "exp" and n not in [x[0] for x in out]:
                    out.append((n, t))
        return out

    def keys(self):
        out = [c.name for c in self.cols if "PRIMARY KEY" in c.constraint]
        if "PRIMARY KEY(" in self.constraint:
            out += [x.strip() for x in self.constraint.split("PRIMARY KEY(")[1].split(")")[0].split(",")]
        return out

    def col(self, n):
        return next(c for c in self.cols if c.name == n)

    def create(self, name, norowid=None):
        """The statement which the documentation describes, written by the harness."""
        norowid = self.norowid if norowid is None else norowid
        # columns of fts5 tables have no types
        body = ["%s %s %s" % (c.name, "" if self.using == "fts5" else c.sqltype(), c.constraint) for c in self.cols if not c.virtual]
        if self.constraint:
            body.append(self.constraint)
        if self.using:
            return "CREATE VIRTUAL TABLE %s USING %s(%s)" % (name, self.using, ", ".join(body))
        return "CREATE TABLE %s (%s)%s" % (name, ", ".join(body), " WITHOUT ROWID" if norowid else "")


class Db:
    def __init__(self, pkg, name, tables):
        self.pkg, self.name, self.tables = pkg, name, tables    # [(instance name, Table)]
        self.full = pkg + "." + name

    def decl(self):
        return "sql_database %s\n{\n%s};\n" % (self.name, "".join("    %s %s;\n" % (t.name, n) for n, t in self.tables))

    def table(self, n):
        return next(t for m, t in self.tables if m == n)


NAMES = ["name", "value", "tileId", "x1", "data2Set", "level", "isUsed", "sizeOfX", "payload", "kindA", "w", "note", "cAMEL", "under_score",
         "count", "blobX", "row", "connection", "tableName", "result", "index2"]
TNAMES = ["america", "europe", "t1", "worldTiles", "aB", "x", "tab_name", "regionA2"]


def param_blob(gen, pkg, r):
    """A compound with parameters of simple types."""
    n = zmodel.Compound("struct", pkg, "ParamBlob%d" % gen.uid())
    lt = Int(r.choice(["uint8", "uint16", "uint32", "bit:7", "int32", "varuint16", "int8"]))
    n.params = [(lt, "len")]
    flag = r.random() < 0.5
    if flag:
        n.params.append((zmodel.BOOL, "withText"))
    path = zmodel.Path(["len"])
    n.fields.append(zmodel.Field("head", Int(r.choice(["uint16", "bit:3", "int:13"]))))
    n.fields.append(zmodel.Field("arr", Int(r.choice(["uint8", "int32", "bit:11"])), array="fixed", length=path))
    n.fields.append(zmodel.Field("text", zmodel.STR, optional=zmodel.Path(["withText"]) if flag else None))
    return gen.schema.add(n)


def simple_types(gen):
    pkgs = gen.schema.packages
    subs = [s for p in pkgs for s in pkgs[p] if isinstance(s, Subtype) and isinstance(s.base(), (Int, Str, Float, Bool, Enum, Bitmask))]
    # known finding: Java code of enum and bitmask columns which are stored as BigInteger does not compile
    return [t for t in subs + gen.enums * 2 + gen.bitmasks * 2
            if not isinstance(t.base(), (Enum, Bitmask)) or t.base().under.base().hi < 1 << 63]


def rand_type(gen, r, blobs):
    w = r.random()
    if w < 0.3:
        return gen.int_type()
    if w < 0.4:
        return zmodel.STR
    if w < 0.47:
        return zmodel.BOOL
    if w < 0.57:
        return Float(r.choice([16, 32, 64]))
    st = simple_types(gen)
    if w < 0.75 and st:
        return r.choice(st)
    return r.choice(blobs)


def add_db(gen, r, big=False):
    """Adds tables and a database to the root package."""
    pkg = gen.schema.order[0]
    if not gen.bitmasks:
        gen.new_bitmask(pkg)
    blobs = [c for c in gen.schema.roots if not c.tparams]
    pb = [param_blob(gen, pkg, r) for _ in range(2)]
    tabs = []
    for i in range(r.choice([2, 3])):
        names = r.sample(NAMES, r.choice([3, 5, 8, 12]))
        cols = []
        nn = lambda p: "NOT NULL" if r.random() < p else ""
        for k, n in enumerate(names):
            if k and r.random() < 0.22:
                # a blob with parameters: from columns before, explicit or literal
                b = r.choice(pb)
                args = []
                for pt, pn in b.params:
                    if isinstance(pt, Bool):
                        args.append(r.choice([("lit", "true", None), ("exp", "flagOf%d" % gen.uid(), pt), ("lit", "false", None)]))
                        continue
                    src = [c for c in cols if c.small and c.type is pt]
                    w = r.random()
                    if w < 0.6:
                        if not src or r.random() < 0.3:
                            src = [Col("len%d" % k, pt, constraint=nn(0.5))]
                            src[0].small = True
                            cols += src
                        args.append(("col", r.choice(src).name, pt))
                    elif w < 0.85:
                        args.append(("exp", "lenOf%d" % gen.uid(), pt))
                    else:
                        args.append(("lit", str(r.choice([0, 1, 3])), None))
                cols.append(Col(n, b, args, nn(0.3)))
                continue
            t = rand_type(gen, r, blobs)
            cols.append(Col(n, t, (), r.choice(["UNIQUE", "DEFAULT 7"]) if r.random() < 0.08 and isinstance(t, Int) and t.hi > 100 else nn(0.3)))
        norowid, cons = False, ""
        simple = [c for c in cols if c.kind[0] in "is" and c.type.base() and not c.constraint.startswith(("UNIQUE", "DEF"))
                  and not c.small and not (isinstance(c.type, Int) and c.type.hi < 1000)]
        w = r.random()
        pk = Col("id", Int(r.choice(["int32", "uint32", "uint16", "int64", "varuint32"])), (), r.choice(["PRIMARY KEY", "PRIMARY KEY NOT NULL"]))
        if w < 0.45 or not simple:
            cols.insert(r.choice([0, len(cols)]), pk)
            norowid = r.random() < 0.3
        elif w < 0.8:
            ks = r.sample(simple, min(len(simple), r.choice([1, 2])))
            for c in ks:
                c.constraint = "NOT NULL"
            cons = "PRIMARY KEY(%s)" % ", ".join(c.name for c in ks)
            norowid = r.random() < 0.5
        if not cons and len(simple) > 1 and r.random() < 0.2:
            cons = "UNIQUE(%s)" % ", ".join(c.name for c in simple[:2])
        tabs.append(gen.schema.add(Table(pkg, "Table%d%s" % (i, r.choice(["", "X", "Geo"])), cols, cons, None, norowid)))
    w = r.random()
    if w < 0.35:
        tabs.append(gen.schema.add(Table(pkg, "Fts", [Col("docid", Int("int64"), virtual=True), Col("title", zmodel.STR), Col("body", zmodel.STR)][::r.choice([1, -1])],
                                         using="fts4")))
    elif w < 0.7:
        tabs.append(gen.schema.add(Table(pkg, "Pages", [Col("body", zmodel.STR), Col("rowid", Int("int64"), virtual=True)], using="fts5")))
    else:
        tabs.append(gen.schema.add(Table(pkg, "Boxes", [Col("id", Int("int32")), Col("minX", Float(32)), Col("maxX", Float(32))], using="rtree")))
    inst = [(n, r.choice(tabs)) for n in r.sample(TNAMES, r.choice([0, 1, 2]))]
    for t in tabs:
        inst.append((next(n for n in r.sample(TNAMES, len(TNAMES)) if n not in [x[0] for x in inst]), t))
    r.shuffle(inst)
    return gen.schema.add(Db(pkg, "WorldDb", inst))


def decls(schema, cls=Db):
    return [d for n in schema.order for d in schema.packages[n] if isinstance(d, cls)]


def descriptor(schema):
    o = []
    for t in decls(schema, Table):
        o.append("T " + t.full)
        o += ["K %s %s %s" % ((c.name,) + c.kind) for c in t.cols]
        o += ["X %s %s %s" % ((n,) + zdesc.kind(x)) for n, x in t.explicit()]
    for d in decls(schema):
        o.append("D " + d.full)
        o += ["I %s %s" % (n, t.full) for n, t in d.tables]
    return "\n".join(o) + "\n"


def cpp_driver(schema):
    o = []
    for c in schema.compounds() + decls(schema, Table) + decls(schema):
        o.append('#include "%s/%s.h"' % (c.pkg.replace(".", "/"), c.name))
    o.append('#include "sql.hpp"')
    full = zdesc.cpp_driver(schema, []).split("int main(")[0]
    o.append("\n".join(x for x in full.split("\n")))
    cap, cname = zdesc.cap, zdesc.cname
    for i, t in enumerate(decls(schema, Table)):
        t.index = i
        n = cname(t.full)
        o.append("struct Tr%d\n{\n    using Table = %s; using Row = %s::Row;" % (i, n, n))
        ex = t.explicit()
        if ex:
            o.append("    struct Prov : %s::IParameterProvider { Session* s;" % n)
            for e, x in ex:
                o.append("        auto get%s(Row& r) -> decltype(std::declval<%s::IParameterProvider>().get%s(r)) override "
                         '{ typename std::decay<decltype(std::declval<%s::IParameterProvider>().get%s(r))>::type v; s->param("%s", v); return v; }'
                         % (cap(e), n, cap(e), n, cap(e), e))
            o.append("    };")
        o.append("    static size_t columns() { return %d; }" % len(t.cols))
        o.append("    static const char* name(size_t i) { static const char* n[] = {%s}; return n[i]; }" % ", ".join('"%s"' % c.name for c in t.cols))
        o.append("    static void set(Row& r, size_t i, Tok& t)\n    {\n        switch (i)\n        {")
        for k, c in enumerate(t.cols):
            o.append("        case %d: if (t.peek() == \"n\") { t.next(); r.reset%s(); } else { typename std::decay<decltype(r.get%s())>::type v; "
                     "parse(t, v); r.set%s(std::move(v)); } break;" % (k, cap(c.name), cap(c.name), cap(c.name)))
        o.append("        }\n    }\n    static void get(const Row& r, size_t i, std::string& s)\n    {\n        switch (i)\n        {")
        for k, c in enumerate(t.cols):
            o.append('        case %d: if (r.is%sSet()) put(s, r.get%s()); else s += "n "; break;' % (k, cap(c.name), cap(c.name)))
        o.append("        }\n    }")
        p = "p, " if ex else ""
        o.append("    template <typename P> static void write(Table& t, P& p, zserio::Span<Row> rows, const Strs& c, bool all) "
                 "{ if (all) t.write(%srows); else t.write(%srows, c); }" % (p, p))
        o.append("    template <typename P> static void update(Table& t, P& p, Row& row, const Strs& c, bool all, const std::string& w) "
                 "{ if (all) t.update(%srow, w); else t.update(%srow, c, w); }" % (p, p))
        o.append("    template <typename P> static typename Table::Reader read(Table& t, P& p, const Strs& c, bool all, const std::string& w) "
                 "{ if (all) return w.empty() ? t.createReader(%s) : t.createReader(%sw); return w.empty() ? t.createReader(%sc) : t.createReader(%sc, w); }"
                 % (p[:-2], p, p, p))
        o.append("    static void rowid(Table& t) { %s }" % ("t.createOrdinaryRowIdTable();" if t.norowid else ""))
        o.append("};")
    o.append("int main()\n{\n    std::map<std::string, std::function<std::string(Session&)>> dbs;")
    for d in decls(schema):
        n = cname(d.full)
        o.append('    dbs["%s"] = [](Session& s)\n    {' % d.full)
        for tn, t in d.tables:
            if t.explicit():
                o.append("        Tr%d::Prov p_%s; p_%s.s = &s;" % (t.index, tn, tn))
            else:
                o.append("        NoProv p_%s;" % tn)
        exs = [(tn, t) for tn, t in d.tables if t.explicit()]
        if exs:
            o.append("        struct Provs : %s::IParameterProvider {" % n)
            for tn, t in exs:
                o.append("            Tr%d::Prov* q_%s; %s::IParameterProvider& get%sParameterProvider() override { return *q_%s; }" % (
                    t.index, tn, cname(t.full), cap(tn), tn))
            o.append("        } provs;")
            for tn, t in exs:
                o.append("        provs.q_%s = &p_%s;" % (tn, tn))
        o.append("        %s::TRelocationMap m; for (auto& x : s.relocs) m[x.first] = x.second;" % n)
        o.append("        std::unique_ptr<%s> h; std::unique_ptr<External> ext;" % n)
        o.append("        if (s.external) { ext.reset(new External(s.file)); ext->attach(s.relocs); h.reset(new %s(ext->db, s.attached(m))); } "
                 "else if (m.empty()) h.reset(new %s(s.file)); else h.reset(new %s(s.file, m));" % (n, n, n))
        o.append("        %s& db = *h;" % n)
        o.append("        while (s.next())\n        {\n            s.guard([&]() {")
        o.append('            if (s.op == "schema") { if (s.a[1].empty()) db.createSchema(); else { std::set<zserio::string<>> b; '
                 "for (auto& x : split(s.a[1], ',')) b.insert(x); db.createSchema(b); } return std::string(\"ok\"); }")
        o.append('            if (s.op == "delschema") { db.deleteSchema(); return std::string("ok"); }')
        o.append('            if (s.op == "names") { std::string r(db.databaseName().begin(), db.databaseName().end()); for (auto& x : db.tableNames()) '
                 'r += "," + std::string(x.begin(), x.end()); return r; }')
        o.append('            if (s.op == "validate") { Observer ob(s.a[1]); db.validate(ob%s); return ob.text(); }' % (", provs" if exs else ""))
        for tn, t in d.tables:
            o.append('            if (s.a[1] == "%s") return tableOp<Tr%d>(s, db.get%s(), p_%s);' % (tn, t.index, cap(tn), tn))
        o.append('            throw std::logic_error("op " + s.op); });\n        }\n        return s.out;\n    };')
    o.append("    return loop(dbs);\n}")
    return "\n".join(o) + "\n"


class Sql:
    """Builds and runs the drivers for the jobs of a lab whose schemas have databases."""

    def __init__(self, chk, specs, extra=("-withValidationCode",), prefix="zs", langs=("py", "java", "cpp")):
        import zcore
        self.core = core = zcore.Core(chk, specs, langs=langs, extra=extra, prefix=prefix, build=False)
        lab = self.lab = core.lab
        self.chk, self.langs = chk, langs
        lab.desc_all()
        self.desc = lab.root + "/sql.desc"
        with open(self.desc, "w") as f:
            f.write("".join(descriptor(j.schema) for j in lab.jobs))
        try:
            srcs = [zlab.DRIVERS + "/Drv.java", zlab.DRIVERS + "/Extra.java", zlab.DRIVERS + "/Sql.java", zlab.DRIVERS + "/SqliteMock.java"]
            for j in lab.jobs:
                srcs += zbuild.java_files(j.dir + "/java")
            zbuild.javac(lab.root + "/javac", srcs, [lab.built["java"]])
        except zbuild.BuildError as e:
            chk.violation("generated Java code does not compile: %s" % str(e)[-1500:],
                          {"schemas": [core.schema_text(j) for j in lab.jobs][:4], "output": str(e)[-4000:]})
            self.langs = core.langs = tuple(x for x in self.langs if x != "java")
        real, realx = zdesc.cpp_driver, zbuild.cxx
        zdesc.cpp_driver = lambda schema, only=None: cpp_driver_with(real, schema)
        link = lab.cpp_link
        lab.cpp_link = lambda j, objs, **kw: link(j, objs, libs=("-l:libsqlite3.so.0",), **kw)
        try:
            for j, e in lab.cpp(groups=4, includes=[zbuild.REPO + "/3rdparty/cpp/sqlite"]):
                chk.violation("generated C++ code does not compile: %s" % e[:1500], {"schema": core.schema_text(j), "output": e})
        finally:
            zdesc.cpp_driver = real
        core.cmd = self.cmd

    def cmd(self, lang, j=None):
        lab = self.lab
        if lang == "py":
            return [zbuild.PYTHON, zlab.DRIVERS + "/sqldrv.py", zbuild.PY_RUNTIME, "-", ":".join(x.dir + "/python" for x in lab.jobs),
                    lab.desc_all(), self.desc]
        if lang == "java":
            return ["java", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-cp", "%s/javac:%s" % (lab.root, lab.built["java"]), "Sql",
                    lab.desc_all(), self.desc, "python3", zlab.DRIVERS + "/sqlserver.py"]
        return [j.exe]

    def close(self):
        self.core.close()


def cpp_driver_with(real, schema):
    saved = zdesc.cpp_driver
    zdesc.cpp_driver = real
    try:
        return cpp_driver(schema)
    finally:
        zdesc.cpp_driver = saved


# ---- values

class Cell:
    """A value of a column: what the drivers build it from, what is stored and what is dumped."""
    __slots__ = ("build", "store", "dump")

    def __init__(self, build, store, dump):
        self.build, self.store, self.dump = build, store, dump


NULL = Cell("n", None, "n")


def simple_cell(t, v):
    b = t.base()
    tok = zmodel.tok_simple(b, v)
    if isinstance(b, Float):
        store = b.to_double(v)
    elif isinstance(b, Bool):
        store = 1 if v else 0
    else:
        store = v
    return Cell(tok, store, tok)


def storable(t, v):
    b = t.base()
    if isinstance(b, Float):
        d = b.to_double(v)
        return d == d and not (d == 0 and str(d).startswith("-"))
    if isinstance(b, Str):
        return "\0" not in v
    if isinstance(b, Bool):
        return True
    return -(1 << 63) <= v < 1 << 63


def cell(gen, r, col, row, params):
    """A random cell; row has the values (not the cells) of the columns before."""
    gen.rng = r
    t = col.type.base()
    if t.is_compound:
        args = []
        for (k, n, _), (pt, pn) in zip(col.args, t.params):
            if k == "col":
                if row.get(n) is None:
                    return NULL, None
                args.append(row[n])
            elif k == "exp":
                args.append(params[n])
            else:
                args.append({"true": True, "false": False}.get(n, None) if n in ("true", "false") else int(n))
        for _ in range(20):
            try:
                gen.budget = 2500
                v = gen.value(t, args)
                zmodel.layout(v)
                nb, b = zmodel.encode(v)
            except (zmodel.Reject, zgen.GiveUp):
                continue
            if nb > 20000 or v.ext != v.t.num_extended():
                continue
            # e.g. extended fields which take no bits are absent after reading
            data = zmodel.to_bytes(nb, b)
            if zmodel.dump(zmodel.decode(t, args, 8 * len(data), int.from_bytes(data, "big"))[0]) != zmodel.dump(v):
                continue
            return Cell(zmodel.dump(v, True), zmodel.to_bytes(nb, b), zmodel.dump(v)), v
        return NULL, None
    for _ in range(50):
        v = r.randint(0, 5) if col.small else gen.simple_value(t, None)
        if storable(t, v):
            return simple_cell(t, v), v
    return NULL, None


def load_cell(col, x, blobs):
    """Dump of a stored value."""
    if x is None:
        return "n"
    k = col.kind[0]
    if k == "c":
        return blobs.get((col.type.name, bytes(x)))
    if k == "s":
        return "s" + x.encode().hex()
    if k == "d":
        return "d" + struct.pack(">d", float(x)).hex()
    return k + str(x)


# ---- the oracle

def closure(t, cols):
    """Columns whose values belong together (blobs and what their parameters come from)."""
    cols = set(cols)
    while True:
        n = len(cols)
        for c in t.cols:
            deps = [x[1] for x in c.args if x[0] == "col"]
            if deps and (c.name in cols or cols & set(deps)):
                cols |= set(deps) | {c.name}
        if len(cols) == n:
            return cols


class World:
    """The expected content of one database, kept in SQLite by statements which the harness writes itself."""

    def __init__(self, gen, db, rng, path):
        self.gen, self.db, self.r, self.path = gen, db, rng, path
        self.con = sqlite3.connect(":memory:", isolation_level=None)
        self.blobs = {}
        self.live = {}              # table -> WITHOUT ROWID?
        self.params = {}
        for n, t in db.tables:
            for p, ty in t.explicit():
                self.params[p] = bool(rng.getrandbits(1)) if isinstance(ty.base(), Bool) else rng.randint(0, 4)
        self.relocs = {}
        names = [n for n, t in db.tables]
        if rng.random() < 0.4:
            for n in rng.sample(names, rng.choice([1, min(2, len(names))])):
                self.relocs[n] = path + rng.choice(["_r1.db", "_r2.db"])
        self.external = rng.random() < 0.3
        self.nextid = 0

    def line(self, ops):
        ps = []
        for n, t in self.db.tables:
            for p, ty in t.explicit():
                ps.append("%s=%s" % (p, zmodel.tok_simple(ty.base(), self.params[p])))
        return "\t".join([self.db.full, self.path + ".db", ",".join("%s=%s" % x for x in self.relocs.items()) or "-",
                          "1" if self.external else "0", ";".join(sorted(set(ps))) or "-"] + ops)

    def file(self, table, lang):
        return self.relocs.get(table, self.path + ".db").replace("@L", lang)

    # ---- rows

    def row(self, t):
        """One random row: (cells by name, values by name); keys are mostly new."""
        r = self.r
        cells, vals = {}, {}
        keys = t.keys()
        for c in t.cols:
            need = "NOT NULL" in c.constraint or c.name in keys or c.name in ("docid", "rowid", "id", "minX", "maxX")
            if not need and r.random() < 0.15:
                cells[c.name], vals[c.name] = NULL, None
                continue
            for _ in range(10):
                x, v = cell(self.gen, r, c, vals, self.params)
                if c.name in keys or c.name in ("docid", "rowid", "id") or c.constraint == "UNIQUE":
                    if isinstance(c.type.base(), Int) and not c.small:
                        self.nextid += r.choice([1, 1, 2, 30])
                        v = min(self.nextid, c.type.base().hi)
                        x = simple_cell(c.type, v)
                    elif isinstance(c.type.base(), Str) and r.random() < 0.7:
                        self.nextid += 1
                        v = v[:5] + str(self.nextid)
                        x = simple_cell(c.type, v)
                if not need or x is not NULL:
                    break
            cells[c.name], vals[c.name] = x, v
        if t.using == "rtree":
            lo, hi = sorted(float(r.randint(-1000, 1000)) / 4 for _ in range(2))
            for n, d in (("minX", lo), ("maxX", hi)):
                k = "d" + struct.pack(">d", d).hex()
                cells[n] = Cell(k, d, k)
        return cells

    def rowtext(self, t, cells):
        return ",".join(cells[c.name].build for c in t.cols)

    def remember(self, t, cells):
        for c in t.cols:
            x = cells[c.name]
            if c.kind[0] == "c" and x is not NULL:
                self.blobs[self.blobkey(c, x.store, {k: v.store for k, v in cells.items()})] = x.dump

    def blobkey(self, c, data, row):
        return (c.type.base().name, bytes(data)) + tuple(row.get(a[1]) if a[0] == "col" else a[1] for a in c.args)

    def usable(self, t, cells):
        return all(cells[c.name] is not NULL for c in t.cols if "NOT NULL" in c.constraint or "PRIMARY" in c.constraint)

    # ---- operations: they return (op text, expected result) and change the expected content

    def create(self, n):
        t = self.db.table(n)
        ordinary = t.norowid and self.r.random() < 0.3
        self.con.execute(t.create(n, t.norowid and not ordinary))
        self.live[n] = t.norowid and not ordinary
        return "%s|%s" % ("createrowid" if ordinary else "create", n), "ok"

    def schema(self):
        black = [n for n, t in self.db.tables if t.norowid and self.r.random() < 0.4]
        if black and self.r.random() < 0.3:
            black.append("noSuchTable")
        for n, t in self.db.tables:
            self.con.execute(t.create(n, t.norowid and n not in black))
            self.live[n] = t.norowid and n not in black
        return "schema|%s" % ",".join(black), "ok"

    def delschema(self):
        for n in list(self.live):
            self.con.execute("DROP TABLE %s" % n)
        self.live = {}
        return "delschema|", "ok"

    def drop(self, n):
        self.con.execute("DROP TABLE %s" % n)
        del self.live[n]
        return "drop|%s" % n, "ok"

    def cols(self, t, need=()):
        r = self.r
        if r.random() < 0.5:
            return "*", [c.name for c in t.cols]
        names = [c.name for c in t.cols]
        k = set(r.sample(names, r.randint(1, len(names)))) | set(need)
        k = closure(t, k)
        out = [n for n in names if n in k]
        given = list(out)
        r.shuffle(given)
        return ",".join(given), out

    def write(self, n, fail=False):
        t, r = self.db.table(n), self.r
        must = [c.name for c in t.cols if "NOT NULL" in c.constraint or c.name in t.keys() or c.name in ("minX", "maxX", "id", "docid", "rowid")]
        given, cols = self.cols(t, must)
        rows = []
        for _ in range(r.choice([0, 1, 2, 5, 9])):
            x = self.row(t)
            if self.usable(t, x):
                rows.append(x)
        if fail:
            if len(rows) < 2 or not t.keys() or t.using:
                return None
            rows.append(rows[0])
        self.con.execute("BEGIN")
        try:
            for x in rows:
                self.con.execute("INSERT INTO %s (%s) VALUES (%s)" % (n, ",".join(cols), ",".join("?" * len(cols))), [x[c].store for c in cols])
        except sqlite3.Error:
            self.con.execute("ROLLBACK")
            return ("write|%s|%s|%s" % (n, given, ";".join(self.rowtext(t, x) for x in rows)), "!sql") if fail else None
        if fail:
            self.con.execute("ROLLBACK")
            return None
        self.con.execute("COMMIT")
        for x in rows:
            self.remember(t, x)
        return "write|%s|%s|%s" % (n, given, ";".join(self.rowtext(t, x) for x in rows)), "ok"

    def quote(self, v):
        return "'%s'" % v.replace("'", "''") if isinstance(v, str) else repr(v) if isinstance(v, float) else str(v)

    def condition(self, n, update=False):
        t, r = self.db.table(n), self.r
        cs = [c for c in t.cols if c.kind[0] in "ibems" and c.name not in ("docid",)]
        if t.using or not cs or (r.random() < 0.2 and not update):
            return ""
        c = r.choice(cs)
        vals = [x[0] for x in self.con.execute("SELECT %s FROM %s" % (c.name, n)) if x[0] is not None]
        vals = [v for v in vals if not isinstance(v, str) or not set(v) & set("|\t\n\r;")] or [5]
        v = r.choice(vals)
        w = r.random()
        if w < 0.45:
            return "%s = %s" % (c.name, self.quote(v))
        if w < 0.6:
            return "%s %s %s" % (c.name, r.choice(["<", ">", ">=", "!="]), self.quote(v))
        if w < 0.7:
            return "%s IS %sNULL" % (c.name, r.choice(["", "NOT "]))
        if w < 0.85:
            return "%s IN (%s)" % (c.name, ", ".join(self.quote(x) for x in r.sample(vals, min(len(vals), 3))))
        if not update and t.keys():
            return "1 = 1 ORDER BY %s LIMIT 4" % ", ".join(k + r.choice([" DESC", ""]) for k in t.keys())
        return "%s = %s OR %s IS NULL" % (c.name, self.quote(v), c.name)

    def dump_row(self, t, cols, vals):
        row = dict(zip(cols, vals))
        out = []
        for c in t.cols:
            v = row.get(c.name)
            if v is None:
                out.append("n")
            elif c.kind[0] == "c":
                out.append(self.blobs[self.blobkey(c, v, row)])
            elif c.kind[0] == "d":
                out.append("d" + struct.pack(">d", float(v)).hex())
            elif c.kind[0] == "s":
                out.append("s" + v.encode().hex())
            else:
                out.append(c.kind[0] + str(v))
        return ",".join(out)

    def read(self, n):
        t, r = self.db.table(n), self.r
        names = [c.name for c in t.cols]
        if r.random() < 0.4:
            given, cols = "*", names
        else:
            k = set(r.sample(names, r.randint(1, len(names))))
            for c in t.cols:
                if c.name in k:
                    k |= {x[1] for x in c.args if x[0] == "col"}
            cols = [x for x in names if x in k]
            given = list(cols)
            r.shuffle(given)
            given = ",".join(given)
        cond = self.condition(n)
        rows = [self.dump_row(t, cols, v) for v in
                self.con.execute("SELECT %s FROM %s%s" % (",".join(cols), n, " WHERE " + cond if cond else ""))]
        return "read|%s|%s|%s" % (n, given, cond), ("rows", "ORDER" in cond, rows)

    def update(self, n):
        t, r = self.db.table(n), self.r
        if t.using:
            return None
        keys = t.keys()
        x = self.row(t)
        given, cols = self.cols(t)
        if r.random() < 0.7:
            cols = [c for c in cols if c not in keys]
            cols = [c.name for c in t.cols if c.name in closure(t, cols)]
            given = ",".join(cols)
            if not cols:
                return None
        cond = self.condition(n, True)
        if not cond:
            return None
        if not self.usable(t, x):
            return None
        self.remember(t, x)
        op = "update|%s|%s|%s|%s" % (n, given, self.rowtext(t, x), cond)
        try:
            self.con.execute("UPDATE %s SET %s WHERE %s" % (n, ",".join(c + "=?" for c in cols), cond), [x[c].store for c in cols])
        except sqlite3.Error:
            return op, "!sql"
        return op, "ok"

    # ---- files

    def content(self):
        return {n: self.state(self.con, n) for n in self.live}

    def state(self, con, n):
        t = self.db.table(n)
        info = [x[1:4] + x[5:] for x in con.execute("PRAGMA table_info(%s)" % n)]
        idx = sorted([x[2:] + (tuple(y[2] for y in con.execute("PRAGMA index_info('%s')" % x[1])),) for x in
                      con.execute("PRAGMA index_list(%s)" % n)], key=repr)
        try:
            con.execute("SELECT rowid FROM %s LIMIT 0" % n)
            rowid = True
        except sqlite3.Error:
            rowid = False
        cols = ",".join(c.name for c in t.cols)
        rows = sorted(((tuple((type(v).__name__, v) for v in row)) for row in con.execute("SELECT %s FROM %s" % (cols, n))), key=repr)
        return info, idx, rowid, rows

    def check_file(self, lang):
        """None or what is different in the files written by one language."""
        files = {}
        for n, t in self.db.tables:
            files.setdefault(self.file(n, lang), []).append(n)
        files.setdefault(self.path.replace("@L", lang) + ".db", [])
        for f, tabs in files.items():
            if not os.path.exists(f):
                return "%s does not exist" % os.path.basename(f)
            con = sqlite3.connect(f)
            try:
                exist = {x[0] for x in con.execute("SELECT name FROM sqlite_master WHERE type = 'table'")}
                shadow = {x for x in exist if any(x.startswith(n + "_") for n, t in self.db.tables if t.using)}
                want = {n for n in tabs if n in self.live}
                if exist - shadow != want:
                    return "tables %s instead of %s in %s" % (sorted(exist - shadow), sorted(want), os.path.basename(f))
                for n in want:
                    a, b = self.state(con, n), self.state(self.con, n)
                    for what, x, y in zip(("columns", "indices", "rowid", "rows"), a, b):
                        if x != y:
                            if what == "rows":
                                x, y = [v for v in x if v not in y][:2] or len(x), [v for v in y if v not in x][:2] or len(y)
                            return "%s of table %s: %s instead of %s" % (what, n, str(x)[:500], str(y)[:500])
            except sqlite3.Error as e:
                return "%s: %s" % (os.path.basename(f), e)
            finally:
                con.close()
        return None

    def save(self, lang):
        """Writes the expected content as files of one language."""
        cons = {}
        for n in self.live:
            f = self.file(n, lang)
            if f not in cons:
                cons[f] = sqlite3.connect(f, isolation_level=None)
            con, t = cons[f], self.db.table(n)
            con.execute(t.create(n, self.live[n]))
            cols = ",".join(c.name for c in t.cols)
            for row in self.con.execute("SELECT %s FROM %s" % (cols, n)):
                con.execute("INSERT INTO %s (%s) VALUES (%s)" % (n, cols, ",".join("?" * len(row))), row)
        for c in cons.values():
            c.close()


# ---- corrupted databases

def scan(con, t, n):
    """The rows in the order of a full scan, each as (key texts of C++, values by column)."""
    names = [c.name for c in t.cols]
    keys = t.keys()
    out = []
    for x in con.execute("SELECT %s%s FROM %s" % (",".join(names), "" if keys else ",rowid", n)):
        row = dict(zip(names, x))
        out.append(([str(row[k]) for k in names if k in keys] or [str(x[-1])], row))
    return out


class Corruption:
    """Changes of a valid database (as SQL by table) and the errors which its validation has to report."""

    def __init__(self, w):
        self.w, self.sql = w, {}            # table -> statements
        self.schema_errors = {}             # table -> set of (column, kind)
        self.rows = {}                      # table -> {key texts: (column, kinds)}
        r = w.r
        tabs = [n for n, t in w.db.tables if not t.using]
        for n in r.sample(tabs, min(len(tabs), r.choice([1, 1, 2, 3]))):
            t = w.db.table(n)
            con = sqlite3.connect(":memory:", isolation_level=None)
            try:
                con.execute(t.create(n, w.live[n]))
                names = ",".join(c.name for c in t.cols)
                for row in w.con.execute("SELECT %s FROM %s" % (names, n)):
                    con.execute("INSERT INTO %s (%s) VALUES (%s)" % (n, names, ",".join("?" * len(row))), row)
                self.schema(n, t, con) if r.random() < 0.4 else self.cells(n, t, con)
            finally:
                con.close()

    def schema(self, n, t, con):
        r = self.w.r
        refs = set(t.keys())
        if "(" in t.constraint:
            refs |= {x.strip() for x in t.constraint.split("(")[1].split(")")[0].split(",")}
        free = [c for c in t.cols if c.name not in refs]
        how = {c.name: r.choice(["missing", "type", "null"]) for c in r.sample(free, min(len(free), r.choice([1, 1, 2])))}
        if r.random() < 0.3 or not how:
            how["zExtra9"] = "extra"
        if len(how) == 1 and "zExtra9" not in how and len(t.cols) == 1:
            return
        if r.random() < 0.2 and not self.w.live[n]:
            for c in t.cols:
                if c.constraint.startswith("PRIMARY KEY"):
                    how = {c.name: "pk"}
        body, errs = [], set()
        for c in t.cols:
            ty, cons, h = c.sqltype(), c.constraint, how.get(c.name)
            if h == "missing":
                errs.add((c.name, "COLUMN_MISSING"))
                continue
            if h == "type":
                ty = r.choice([x for x in ("INTEGER", "REAL", "TEXT", "BLOB") if x != ty])
                errs.add((c.name, "INVALID_COLUMN_TYPE"))
            elif h == "null":
                cons = cons.replace("NOT NULL", "") if "NOT NULL" in cons else cons + " NOT NULL"
                errs.add((c.name, "INVALID_COLUMN_CONSTRAINT"))
            elif h == "pk":
                cons = cons.replace("PRIMARY KEY", "")
                errs.add((c.name, "INVALID_COLUMN_CONSTRAINT"))
            body.append("%s %s %s" % (c.name, ty, cons))
        if "zExtra9" in how:
            body.append("zExtra9 %s" % r.choice(["INTEGER", "TEXT", "BLOB NOT NULL"]))
            errs.add(("zExtra9", "COLUMN_SUPERFLUOUS"))
        if t.constraint:
            body.append(t.constraint)
        if not body:
            return
        ddl = ["DROP TABLE %s" % n, "CREATE TABLE %s (%s)%s" % (n, ", ".join(body), " WITHOUT ROWID" if self.w.live[n] else "")]
        for x in ddl:
            con.execute(x)
        self.sql[n], self.schema_errors[n] = [(x, ()) for x in ddl], errs

    def cells(self, n, t, con):
        r, w = self.w.r, self.w
        rows = scan(con, t, n)
        used = {a[1] for c in t.cols for a in c.args if a[0] == "col"}
        cols = [c for c in t.cols if c.name not in used and c.name not in t.keys()]
        if not rows or not cols:
            return
        sql, bad = [], {}
        for key, row in r.sample(rows, min(len(rows), r.choice([1, 1, 2, 4]))):
            for c in r.sample(cols, len(cols)):
                x = self.bad(c, row)
                if x is None:
                    continue
                val, kinds = x
                keys = t.keys()
                where = " AND ".join("%s = ?" % k for k in keys) if keys else "rowid = ?"
                st = ("UPDATE %s SET %s = ? WHERE %s" % (n, c.name, where), (val,) + (tuple(row[k] for k in keys) if keys else (int(key[0]),)))
                try:
                    con.execute(*st)
                except sqlite3.Error:
                    continue
                sql.append(st)
                bad[tuple(key)] = (c.name, kinds)
                break
        if sql:
            self.sql[n], self.rows[n] = sql, bad

    def bad(self, c, row):
        """None or (a wrong value, kinds of the error which it causes)."""
        r = self.w.r
        t = c.type.base()
        if r.random() < 0.4:
            vals = {"INTEGER": [b"\1\2", "abc", 2.5], "REAL": [b"\1", "x1"], "TEXT": [b"ab"], "BLOB": [7, "text", 1.5]}[c.sqltype()]
            return r.choice(vals), ("INVALID_COLUMN_TYPE",)
        if t.is_compound:
            data = row[c.name]
            if not data:
                return None
            data = bytes(data[:r.randrange(len(data))])
            if not data:
                return None
            params = []
            for (k, n, _), (pt, pn) in zip(c.args, t.params):
                v = row.get(n) if k == "col" else self.w.params[n] if k == "exp" else {"true": True, "false": False}[n] \
                    if n in ("true", "false") else int(n)
                if v is None:
                    return None
                params.append(v)
            try:
                zmodel.decode(t, params, 8 * len(data), int.from_bytes(data, "big"))
                return None
            except zmodel.Reject:
                return data, ("BLOB_PARSE_FAILED",)
            except Exception:  # noqa: B902 - the model cannot tell
                return None
        if isinstance(t, zmodel.Enum):
            lo, hi = t.under.base().lo, t.under.base().hi
            items = t.values
            v = r.choice([lo - 1, hi + 1, hi, lo, hi - 1, r.randint(lo, hi), 256, 65536 + min(items), min(items) - 1, max(items) + 1])
            if v in items or not -(1 << 63) <= v < 1 << 63:
                return None
            return v, ("INVALID_VALUE", "INVALID_ENUM_VALUE") if lo <= v <= hi else ("INVALID_VALUE", "INVALID_ENUM_VALUE", "VALUE_OUT_OF_RANGE")
        if isinstance(t, Int):
            v = r.choice([t.lo - 1, t.hi + 1, t.hi + 256, t.lo - 256, t.hi * 2 + 2, t.lo - (1 << 32), t.hi + (1 << 32), (1 << 63) - 1, -(1 << 63)])
            # SQLite has no unsigned 64 bit integers: nothing is out of range for them
            if t.lo <= v <= t.hi or not -(1 << 63) <= v < 1 << 63 or t.hi >= 1 << 63:
                return None
            return v, ("VALUE_OUT_OF_RANGE",)
        return None

    def apply(self, lang):
        for n, sts in self.sql.items():
            con = sqlite3.connect(self.w.file(n, lang), isolation_level=None)
            for st in sts:
                con.execute(*st)
            con.close()

    def check(self, lang, mode, got):
        """None or how the report differs from the expected one."""
        w = self.w
        err = re.compile(r"(\w+)\.(\w+)=(\w+)\(([0-9a-f,]*)\) ?")
        tables, total = [], 0
        for n, t in w.db.tables:
            con = sqlite3.connect(w.file(n, lang))
            try:
                rows = scan(con, t, n) if n not in self.schema_errors else []
                count = con.execute("SELECT count(*) FROM %s" % n).fetchone()[0]
            finally:
                con.close()
            tables.append((n, rows, count))
            total += len(rows)
        if lang == "java":
            m = re.fullmatch(r"(\d+) (\d+) \[ (.*)\]", got)
            if not m or (int(m[1]), int(m[2])) != (len(tables), total):
                return "expected a report of %d tables and %d rows" % (len(tables), total)
            parts = {n: [x for x in err.findall(m[3]) if x[0] == n] for n, _, _ in tables}
            if err.sub("", m[3]).strip():
                return "not understood"
        else:
            m = re.fullmatch(r"db(\d+) (.*)end(\d+)", got)
            if not m or int(m[1]) != len(tables):
                return "expected a report of %d tables" % len(tables)
            parts, order, validated = {}, [], {}
            for b in re.findall(r"(\w+):(\d+)\[ (.*?)(?:\](\w+):(\d+) |(?=\w+:\d+\[ )|$)", m[2]):
                order.append((b[0], int(b[1])))
                parts[b[0]] = err.findall(b[2])
                if (b[3] != b[0]) != (mode == "skip"):
                    return "table %s begins, table %s ends" % (b[0], b[3])
                validated[b[0]] = int(b[4] or 0)
            want = [(n, c) for n, _, c in tables]
            ended = len(tables)
            if mode == "one":
                want, ended = want[:1], 1
            if mode == "skip":
                ended = 0
            if order != want:
                return "tables %s instead of %s" % (order, want)
            if int(m[3]) != ended:
                return "%s tables reported at the end instead of %d" % (m[3], ended)
        for n, rows, count in tables:
            if n not in parts:
                continue
            t = w.db.table(n)
            have = parts[n]
            if mode == "skip":
                if have:
                    return "errors of skipped table %s" % n
                continue
            exp = [(c, (k,), None) for c, k in sorted(self.schema_errors.get(n, ()))]
            stop_row = len(rows)
            for i, (key, _) in enumerate(rows):
                x = self.rows.get(n, {}).get(tuple(key))
                if x:
                    exp.append((x[0], x[1], key))
                    if mode == "stop" and stop_row == len(rows):
                        stop_row = i + 1
            if lang == "cpp" and validated[n] != stop_row:
                return "%d validated rows of table %s instead of %d" % (validated[n], n, stop_row)
            if mode == "stop":
                if len(have) != min(1, len(exp)):
                    return "table %s: %d errors, the observer asked to stop after the first one" % (n, len(have))
                if n in self.schema_errors:
                    if have and (have[0][1], have[0][2]) not in self.schema_errors[n]:
                        return "unexpected error %s" % (have[0],)
                    continue
                exp = exp[:1]
            if n in self.schema_errors:
                have = sorted(have, key=lambda x: x[1])
            if len(have) != len(exp):
                return "table %s: %d errors instead of %d (%s)" % (n, len(have), len(exp), exp[:3])
            for (_, col, kind, keys), (c, kinds, key) in zip(have, exp):
                keys = [bytes.fromhex(k).decode() for k in keys.split(",")[:-1]]
                if col != c or kind not in kinds:
                    return "table %s: error %s of column %s instead of %s of %s" % (n, kind, col, kinds[0], c)
                if key is not None and (lang == "cpp" or t.keys()) and keys != key:
                    return "table %s: error in row %s instead of %s" % (n, keys, key)
        return None


def split_result(r):
    return r[3:].split(" # ") if r.startswith("OK|") else [r]


def compare(exp, got):
    """None or a description."""
    if isinstance(exp, tuple) and exp[0] == "rows":
        if not got.startswith("[") or not got.endswith("]"):
            return "rows expected"
        rows = [" ".join(x.split()) for x in got[1:-1].split(";")] if got != "[]" else []
        rows = [",".join(c.strip() for c in x.split(",")) for x in rows]
        if (rows != exp[2]) if exp[1] else (sorted(rows) != sorted(exp[2])):
            miss = [x for x in exp[2] if x not in rows][:1]
            more = [x for x in rows if x not in exp[2]][:1]
            return "%d rows instead of %d, expected %s, got %s" % (len(rows), len(exp[2]), str(miss)[:2000], str(more)[:2000])
        return None
    if exp == "!sql" and got.startswith(exp):
        return None
    return None if exp == got else "expected %s" % str(exp)[:300]
