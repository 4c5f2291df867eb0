"""D30: documentation, XML and code comments show the schema as it is."""
import common
import ast
import os
import re
import shutil
import subprocess
import xml.etree.ElementTree as ET
from html.parser import HTMLParser
from urllib.parse import unquote

import zbuild
import zcheck
import zgen
import zlab
import zrpc
import zsql

VOID = {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"}
DECL = re.compile(r"^(struct|choice|union|enum|bitmask|const|subtype|service|pubsub|sql_table|sql_database|instantiate)\b(.*)")
WORDS = ["alpha", "Beta", "gamma7", "<", ">", "a<z1", "x&y", "&amp;", "\"quoted\"", "'single'", "100%", "C:\\users\\name", "\\N{x}",
         "\\\\", "\"\"\"", "'''", "${x}", "{{y}}", "#if", "// not", "**bold**", "`tick`", "a_b_c", "1.5.", "mail@host", "é", "名",
         "<b>bold</b>", "<code>x</code>", "<4", "\\x", "\\u", "end\\", "*star", "%s", "<#if>", "?"]
PLAIN = ["alpha", "Beta", "gamma7", "delta", "list", "value of", "42", "units", "range", "(see below)"]


class Page(HTMLParser):
    """One page: balance of tags, anchors, links, code and documentation with the anchors they belong to."""

    def __init__(self, path):
        super().__init__(convert_charrefs=True)
        self.problems, self.ids, self.links = [], [], []
        self.code, self.docs = [], []
        self.stack, self.head, self.body = [], None, None
        self.cur = self.doc = None
        self.skip = self.row = 0
        self.feed(open(path, encoding="utf-8").read())
        self.close()
        if self.stack:
            self.problems.append("not closed: " + " ".join(t for t, _ in self.stack[-3:]))

    def handle_starttag(self, t, a):
        a = dict(a)
        if "id" in a:
            self.ids.append(a["id"])
        if t == "tr":
            self.row = 0
        if "href" in a and t == "a":
            self.row += 1
            self.links.append((a["href"], self.head[1] if self.head else None, self.cur is not None and not self.skip, self.doc is not None, self.row))
        if t in ("h1", "h2", "h3"):
            self.head = (t, a.get("id"))
            self.body = None
        if t == "tbody":
            self.body = a.get("id")
        if t in VOID:
            return
        self.stack.append((t, self.getpos()))
        cl = a.get("class", "") or ""
        if t == "tr" and cl == "doc":
            self.skip = len(self.stack)
        if t == "div" and cl == "doc" and self.doc is None:
            self.doc = []
            self.doclevel = len(self.stack)
        if t == "div" and self.cur is None and cl.startswith("code "):
            self.cur = []
            self.level = len(self.stack)
        elif self.cur is not None and t in ("td", "tr") and not self.skip:
            self.cur.append(" ")

    def handle_startendtag(self, t, a):
        if "id" in dict(a):
            self.ids.append(dict(a)["id"])

    def handle_endtag(self, t):
        if t in VOID:
            return
        if not self.stack or self.stack[-1][0] != t:
            self.problems.append("</%s> at %s closes %s" % (t, self.getpos(), self.stack[-1] if self.stack else "nothing"))
            for i in range(len(self.stack) - 1, -1, -1):
                if self.stack[i][0] == t:
                    del self.stack[i + 1:]
                    break
            else:
                return
        if self.skip == len(self.stack):
            self.skip = 0
        if self.doc is not None and len(self.stack) == self.doclevel:
            self.docs.append((self.head, self.body, "".join(self.doc)))
            self.doc = None
        if self.cur is not None and len(self.stack) == self.level:
            self.code.append((self.head, "".join(self.cur)))
            self.cur = None
        self.stack.pop()

    def handle_data(self, d):
        if self.doc is not None:
            self.doc.append(d)
        if self.cur is not None and not self.skip:
            self.cur.append(d)


def squeeze(s):
    return re.sub(r"[\s\u00a0]+", "", s)


def uncomment(text):
    """C++ or Java source without comments and superfluous spaces."""
    out = re.sub(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|//[^\n]*|/\*.*?\*/',
                 lambda m: " " if m.group(0)[0] == "/" else m.group(0), text, flags=re.S)
    return re.sub(r"\s+", " ", out).strip()


def undoc(text):
    """Python source without doc strings and comments, as a tree."""
    tree = ast.parse(text)
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)):
            # doc strings of members are bare strings anywhere in the body
            n.body = [s for s in n.body if not isinstance(s, ast.Pass) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str))]
    return ast.dump(tree)


def files(root, ext=None):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            if ext is None or f.endswith(ext):
                out[os.path.relpath(os.path.join(d, f), root)] = os.path.join(d, f)
    return out


def read(p):
    return open(p, encoding="utf-8").read()


class Commenter:
    """Puts comments before declarations and members."""

    def __init__(self, r, markdown):
        self.r, self.markdown, self.n, self.said = r, markdown, 0, []

    def text(self, classic):
        return " ".join(self.r.choice(WORDS if classic else PLAIN) for _ in range(self.r.randint(1, 7)))

    def comment(self, ind, name, kind, types, tmpl, floating=False):
        self.n += 1
        tok = "tok%dk" % self.n
        if self.markdown and self.r.random() < 0.3:
            body = [tok + " " + self.text(False) for _ in range(self.r.randint(1, 3))]
            self.said.append((tok, name, kind, [" ".join(body)], None, False, tmpl, "markdown", floating))
            return [ind + "/*!"] + [ind + b for b in body] + [ind + "!*/"]
        lines = [tok + " " + self.text(True) for _ in range(self.r.randint(1, 3))]
        parts = [" ".join(lines)]
        see = None
        if self.r.random() < 0.3:
            lines += ["", "second " + tok + " " + self.text(True)]
            parts.append(lines[-1])
        if self.r.random() < 0.3:
            t = self.r.choice(["@todo", "@param someName"]) + " "
            x = [tok + " " + self.text(True) for _ in range(self.r.randint(1, 2))]
            lines += ["", t + x[0]] + x[1:]
            parts.append(" ".join(x))
        if types and self.r.random() < 0.4:
            see = self.r.choice(types)
            lines += ["", "@see " + self.r.choice(["", "\"alias %s\" " % tok]) + see]
        dep = self.r.random() < 0.1
        if dep:
            lines += ["", "@deprecated"]
        self.said.append((tok, name, kind, parts, see, dep, tmpl, "classic", floating))
        if len(lines) == 1 and self.r.random() < 0.4:
            return [ind + "/** " + lines[0] + " */"]
        return [ind + "/**"] + [(ind + " * " + x).rstrip(" ") for x in lines] + [ind + " */"]

    def file(self, text):
        types = [m.group(1) for m in re.finditer(r"^(?:struct|choice|union|enum|bitmask)\b[^\n(<{]*?(\w+)(?=[ (]| *$)(?![^\n]*<)", text, re.M)]
        types = [t for t in types if re.search(r"^(?:struct|choice|union|enum [\w:]+|bitmask [\w:]+) %s\b(?!<)" % t, text, re.M)]
        out, inside, tmpl, kind = [], None, False, None
        for line in text.split("\n"):
            m = DECL.match(line)
            prev = out[-1] if out else ""
            if m:
                kind = m.group(1)
                rest = re.sub(r"<.*", "", m.group(2)) if kind in ("struct", "choice", "union", "sql_table") else m.group(2)
                tmpl = "<" in m.group(2) and kind in ("struct", "choice", "union", "sql_table")
                if kind == "const":
                    name = re.search(r"(\w+) =", rest).group(1)
                elif kind in ("enum", "bitmask", "subtype", "instantiate"):
                    name = re.findall(r"\w+", rest)[-1]
                else:
                    name = re.findall(r"\w+", rest)[0]
                if self.r.random() < 0.7:
                    fl = self.r.random() < 0.2
                    out += self.comment("", name, kind, types, tmpl, fl)
                    if fl:
                        out.append("")
            elif re.match(r"^    (?![ {}])(?!case |default|align|sql|function|return)[^:]*\w[^:\n]*[,;]$|^    \w+( = [^:]*)?,?$", line) \
                    and not prev.rstrip().endswith(":") and kind in ("struct", "union", "enum", "bitmask") \
                    and not re.search(r"^    if |^    \|\|", line):
                if kind in ("enum", "bitmask"):
                    name = re.match(r" +(\w+)", line).group(1)
                else:
                    head = re.sub(r"\[.*", "", re.split(r" = | if | : |;", line)[0])
                    name = re.findall(r"\w+", head)[-1]
                if name and self.r.random() < 0.4:
                    out += self.comment("    ", name, "member of " + kind, types, tmpl)
            out.append(line)
        return "\n".join(out)


def compile_(chk, cp, src, root, out, opts, kinds=("xml", "cpp", "java", "python")):
    args = ["-src", src, root, "-allowImplicitArrays"] + opts
    for k in kinds:
        args += ["-" + k, out + "/" + k]
    r = zlab.zserio(args, cp)
    chk.eval()
    chk.count("runs of the compiler")
    return r.returncode == 0 and "[ERROR]" not in r.stdout and "Exception" not in r.stdout, r.stdout


def uses_of_constants(r):
    """Declarations which name constants wherever an expression can stand."""
    out, n = [], r.randint(4, 9)
    for i in range(n):
        out.append("const uint8 USED_CONST%d = %s;" % (i, r.randint(1, 8) if not i or r.random() < 0.6 else "USED_CONST%d" % r.randrange(i)))
    C = lambda: "USED_CONST%d" % r.randrange(n)
    forms = [lambda i: "bit<%s> f%d;" % (C(), i), lambda i: "bit<%s> f%d[];" % (C(), i), lambda i: "int<%s + 1> f%d[%s];" % (C(), i, C()),
             lambda i: "packed bit<%s> f%d[2];" % (C(), i), lambda i: "string f%d[%s];" % (i, C()), lambda i: "optional bit<%s> f%d;" % (C(), i),
             lambda i: "UsesParam(%s) f%d;" % (C(), i), lambda i: "UsesParam(%s) f%d[%s];" % (C(), i, C()),
             lambda i: "uint8 f%d = %s;" % (i, C()), lambda i: "uint8 f%d : f%d < %s;" % (i, i, C()),
             lambda i: "uint8 f%d if %s > 2;" % (i, C()), lambda i: "align(%s):\n    uint8 f%d;" % (C(), i)]
    for k in range(r.randint(2, 4)):
        fs = ["    " + r.choice(forms)(i) for i in range(r.randint(1, 3))]
        if r.random() < 0.3:
            fs += ["", "    function uint8 usedFun()", "    {", "        return %s;" % C(), "    }"]
        out.append("struct UsesConst%d\n{\n%s\n};" % (k, "\n".join(fs)))
    out.append("struct UsesParam(uint8 p)\n{\n    uint8 x : x < %s;\n    uint8 y if p == %s;\n};" % (C(), C()))
    out.append("choice UsesChoice(uint8 p) on p + %s\n{\ncase %s:\n    uint8 a;\ndefault:\n    bit<%s> b[];\n};" % (C(), C(), C()))
    out.append("union UsesUnion\n{\n    bit<%s> a[];\n    uint8 b[%s];\n};" % (C(), C()))
    out.append("enum uint16 UsesEnum\n{\n    UE_A = %s,\n    UE_B = 100 + %s\n};" % (C(), C()))
    out.append("bitmask uint16 UsesBitmask\n{\n    UB_A = %s,\n    UB_B = 128 + %s\n};" % (C(), C()))
    r.shuffle(out[n:])
    return "\n" + "\n\n".join(out) + "\n"


class One:
    def __init__(self, chk, lab, root, gen, seed, r):
        self.chk, self.lab, self.root, self.gen, self.seed, self.r = chk, lab, root, gen, seed, r
        self.cp = lab.built["compiler"]

    def bad(self, what, **info):
        self.chk.violation("schema %s: %s" % (self.seed, what[:1500]),
                           dict(info, schema={f: read(p) for f, p in files(self.root + "/src").items()},
                                commented={f: read(p) for f, p in files(self.root + "/com").items()}))

    def pages(self, doc):
        """Parses all pages and checks their structure; returns {path: Page}."""
        pages = {}
        for f, p in sorted(files(doc, ".html").items()):
            pg = Page(p)
            self.chk.count("pages")
            if pg.problems:
                self.bad("%s is not balanced: %s" % (f, "; ".join(pg.problems[:4])), page=read(p)[:20000])
                return None
            twice = {i for i in pg.ids if pg.ids.count(i) > 1}
            if twice:
                self.bad("%s has anchors twice: %s" % (f, sorted(twice)[:5]))
                return None
            pages[f] = pg
        for f, pg in pages.items():
            for href, head, code, isdoc, row in pg.links:
                if re.match(r"[a-z]+:", href) or href == "":
                    continue
                self.chk.count("links")
                path, _, frag = href.partition("#")
                to = os.path.normpath(os.path.join(os.path.dirname(f), unquote(path))) if path else f
                if not os.path.exists(os.path.join(doc, to)):
                    self.bad("%s links to %s which doesn't exist" % (f, href))
                    return None
                if frag and unquote(frag) not in pages[to].ids:
                    self.bad("%s links to %s, there is no such anchor" % (f, href))
                    return None
        return pages

    def used_by(self, pages):
        """What the code of a symbol links to has the symbol in its list of users, and nothing else has."""
        uses, users = set(), set()
        for f, pg in pages.items():
            for href, head, code, isdoc, row in pg.links:
                path, _, frag = href.partition("#")
                if not frag or not head or not path.startswith(".."):
                    continue
                to = os.path.basename(path) + "#" + frag
                me = os.path.basename(f) + "#" + head
                if head.endswith("_used_by"):
                    # links after the first one are arguments of templates
                    if row == 1:
                        users.add((to, me[:-8]))
                elif code and not isdoc and to != me:
                    uses.add((me, to))
        return uses, users

    def rebuild(self, pages, to):
        """The sources as the documentation shows them."""
        for f, pg in pages.items():
            if not f.startswith("content/packages/"):
                continue
            name = os.path.basename(f)[:-5]
            text = "".join(re.sub(r"[\s\u00a0]+", " ", c) + "\n" for h, c in pg.code if h and h[0] != "h3")
            p = to + "/" + name.replace(".", "/") + ".zs"
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w", encoding="utf-8").write(text)

    def same(self, what, a, b, norm=lambda f, s: s):
        fa, fb = files(a), files(b)
        if set(fa) != set(fb):
            self.bad("%s: other files are generated: %s" % (what, sorted(set(fa) ^ set(fb))[:5]))
            return False
        for f in sorted(fa):
            x, y = norm(f, read(fa[f])), norm(f, read(fb[f]))
            self.chk.count("files compared")
            if x != y:
                k = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
                self.bad("%s: %s differs: %r, original %r" % (what, f, y[max(0, k - 60):k + 100], x[max(0, k - 60):k + 100]))
                return False
        return True

    def comments(self, said, pages, opts):
        """Every comment is shown where it belongs."""
        docs = [(f, h, b, squeeze(t)) for f, pg in pages.items() for h, b, t in pg.docs]
        for tok, name, kind, parts, see, dep, tmpl, form, floating in said:
            where = [d for d in docs if tok in d[3]]
            self.chk.count("comments shown")
            if not where:
                self.bad("comment %s of %s %s is missing in the documentation: %s" % (tok, kind, name, parts[0]))
                return
            for f, h, b, t in where:
                for p in parts:
                    want = squeeze(re.sub(r"</?(b|code)>", "", p)) if form == "classic" else squeeze(p)
                    if want.replace("</td>", "") not in t.replace("</td>", ""):
                        self.bad("comment of %s %s isn't shown as written: %s, shown %s" % (kind, name, p, t[:500]))
                        return
                if see and squeeze(see) not in t and "alias" + tok not in t:
                    self.bad("reference to %s in the comment of %s %s isn't shown: %s" % (see, kind, name, t[:500]))
                    return
                if dep and "deprecated" not in t:
                    self.bad("deprecation of %s %s isn't shown: %s" % (kind, name, t[:500]))
                    return
            ids = [b or h[1] for f, h, b, t in where if h]
            if name and not floating and not any(i and re.search(r"(^|[-_])%s$" % re.escape(name), i) for i in ids):
                self.bad("comment %s of %s %s is shown at %s" % (tok, kind, name, ids))
                return
            self.chk.nontrivial(self.seed, tok, kind, form)

    def code_comments(self, said, out):
        """Comments are in the code of every language and are nothing but comments."""
        texts = {"cpp": squeeze("".join(re.sub(r"(?m)^ *\*(?!/)", "", read(p)) for p in files(out + "/cpp").values())),
                 "java": squeeze("".join(re.sub(r"(?m)^ *\*(?!/)", "", read(p)) for p in files(out + "/java").values())).replace("&#92;", "\\")}
        py = []
        for p in files(out + "/python").values():
            py += [n.value for n in ast.walk(ast.parse(read(p))) if isinstance(n, ast.Constant) and isinstance(n.value, str)]
        texts["python"] = squeeze("".join(py))
        for tok, name, kind, parts, see, dep, tmpl, form, floating in said:
            if floating or tmpl or kind not in ("struct", "choice", "union", "enum", "bitmask", "sql_table", "service", "pubsub"):
                continue
            for lang, t in texts.items():
                self.chk.count("comments in code " + lang)
                for p in parts:
                    if squeeze(p) not in t:
                        self.bad("comment of %s %s isn't in the %s code as written: %s, there is %s" % (
                            kind, name, lang, p, t[max(0, t.find(tok)):][:200] if tok in t else "nothing"))
                        return

    def run(self):
        src, com = self.root + "/src", self.root + "/com"
        os.makedirs(src)
        self.gen.schema.write(src)
        main = self.gen.schema.root_file()
        open(src + "/" + main, "a").write(uses_of_constants(self.r))
        opts = self.r.choice([["-withTypeInfoCode"], ["-withTypeInfoCode", "-withReflectionCode"], []])
        ok, out = compile_(self.chk, self.cp, src, main, self.root + "/a", opts, ("xml", "cpp", "java", "python", "doc"))
        if not ok:
            return self.bad("valid schema refused: " + out[-800:])
        pages = self.pages(self.root + "/a/doc")
        if pages is None:
            return
        uses, users = self.used_by(pages)
        self.chk.count("uses", len(uses))
        self.relation(uses, users, pages)
        self.chk.nontrivial("pages", self.seed, len(pages), len(uses))
        # the schema as shown is the schema
        self.rebuild(pages, self.root + "/re")
        ok, out = compile_(self.chk, self.cp, self.root + "/re", main, self.root + "/b", opts)
        if not ok:
            return self.bad("the schema shown in the documentation is refused: " + out[-800:], shown={f: read(p) for f, p in files(self.root + "/re").items()})
        norm = lambda f, s: re.sub(r'(line|column|fileName)="[^"]*"', "", s)
        for k in ("xml", "cpp", "java", "python"):
            if not self.same("the schema shown in the documentation, " + k, self.root + "/a/" + k, self.root + "/b/" + k, norm):
                return
        for f, p in files(self.root + "/a/xml").items():
            ET.parse(p)
        # comments
        c = Commenter(self.r, True)
        for f, p in files(src).items():
            os.makedirs(os.path.dirname(com + "/" + f), exist_ok=True)
            open(com + "/" + f, "w", encoding="utf-8").write(c.file(read(p)))
        ok, out = compile_(self.chk, self.cp, com, main, self.root + "/c", opts + ["-withCodeComments"], ("xml", "cpp", "java", "python", "doc"))
        if not ok:
            return self.bad("schema with comments refused: " + out[-800:])
        pages = self.pages(self.root + "/c/doc")
        if pages is None:
            return
        self.comments(c.said, pages, opts)
        self.rebuild(pages, self.root + "/re2")
        ok, out = compile_(self.chk, self.cp, self.root + "/re2", main, self.root + "/d", [], ("xml",))
        if not ok:
            return self.bad("the commented schema shown in the documentation is refused: " + out[-800:])
        if not self.same("the commented schema shown in the documentation", self.root + "/a/xml", self.root + "/d/xml", norm):
            return
        for k in ("cpp", "java"):
            if not self.same("code with comments, " + k, self.root + "/a/" + k, self.root + "/c/" + k, lambda f, s: uncomment(s)):
                return
        try:
            if not self.same("code with comments, python", self.root + "/a/python", self.root + "/c/python", lambda f, s: undoc(s)):
                return
        except SyntaxError as e:
            return self.bad("python code with comments is not valid: %s" % e)
        self.code_comments(c.said, self.root + "/c")
        jf = list(files(self.root + "/c/java", ".java").values())
        zj = subprocess.run(["javac", "-proc:none", "-nowarn", "-Xlint:none", "-cp", self.lab.built["java"], "-d", self.root + "/classes"] + jf,
                            capture_output=True, text=True)
        if zj.returncode:
            return self.bad("java code with comments is not valid: " + zj.stderr[:1000])
        for f, p in files(self.root + "/c/xml").items():
            try:
                self.chk.count("xml elements", sum(1 for _ in ET.parse(p).iter()))
            except ET.ParseError as e:
                return self.bad("XML of the schema with comments is not well formed: %s" % e)

    def relation(self, uses, users, pages):
        """Lists of users and collaboration diagrams agree with the code which is shown."""
        lost = sorted({x for x in uses if x[1].count("-") == 1} - users)
        if lost:
            return self.bad("%s refers to %s but is not in its list of users" % lost[0], lost=lost)
        text = {}
        for f, pg in pages.items():
            for h, t in pg.code:
                if h and h[1]:
                    text[os.path.basename(f) + "#" + h[1]] = set(re.findall(r"\w+", t))
        short = lambda x: x.split("#")[1].split("-")[1]
        # constants are named in expressions without links: whoever names one (in array lengths, bit field lengths, conditions,
        # arguments, ...) is among its users
        plain = {os.path.basename(f) + "#" + h[1]: set(re.findall(r"(?<![\w.])[A-Za-z_]\w*", re.sub(r'"(?:\\.|[^"\\])*"', " ", t)))
                 for f, pg in pages.items() for h, t in pg.code if h and h[1] and h[1].count("-") == 1 and h[0] != "h3"}
        consts = [x for x in plain if x.split("#")[1].startswith("Constant-")]
        for c in consts:
            if sum(short(x) == short(c) for x in plain) > 1:
                continue
            for a, words in sorted(plain.items()):
                if a != c and short(c) in words and "Templ" not in a and "Instantiate" not in a:
                    self.chk.count("uses in expressions")
                    if (a, c) not in users:
                        return self.bad("%s names %s in an expression but is not in its list of users" % (a, c))
        for a, b in sorted(users):
            self.chk.count("users")
            if a != b and a in text and "Templ" not in a and short(b) not in text[a] and short(a) not in text.get(b, ()):
                return self.bad("%s is in the list of users of %s but does not refer to it" % (a, b))
        for f, p in files(self.root + "/a/doc/resources", ".dot").items():
            name = re.sub(r"^.*?_", "", os.path.basename(f)[:-4])
            t = read(p)
            edges = {(x, y) for x, y in re.findall(r'(?m)^ *"([^"]*)" -> "([^"]*)" \[label="uses"', t)}
            nodes = set(re.findall(r'(?m)^ *"([^"]*)" \[', t))
            self.chk.count("diagrams")
            cut = lambda n: re.sub(r"&lt;.*", "", n).split(".")[-1]
            if {x for e in edges for x in e} - nodes:
                return self.bad("%s has edges of unknown nodes" % f)
            got = {(cut(x), cut(y)) for x, y in edges}
            want = {(short(x), short(y)) for x, y in users if name in (short(x), short(y))}
            wrong = sorted(x for x in got ^ want)
            if wrong:
                return self.bad("diagram %s does not agree with the lists of users: %s" % (f, wrong[:4]), dot=t)


def round_(chk, rnd, n):
    lab = zlab.Lab("%s/lab%d" % (chk.dir, rnd))
    lab.prepare("compiler", "java")
    jobs = []
    for i, s in enumerate(chk.seeds(n, "schema%d" % rnd)):
        r = chk.rng("opts", rnd, i)
        g = zgen.gen_schema(s, zgen.Opts(packages=r.choice([1, 2, 3]), compounds=r.choice([5, 9]), fields=(2, 6)), "zd%d" % i)
        if i % 3 == 0:
            zsql.add_db(g, r)
        elif i % 3 == 1:
            zrpc.add_services(g, r, 2)
            zrpc.add_pubsubs(g, r, 2)
        jobs.append(One(chk, lab, "%s/t%d" % (lab.root, i), g, s, r))
    list(lab.pool.map(lambda x: x.run(), jobs))
    shutil.rmtree(lab.root, ignore_errors=True)
    lab.pool.shutdown()


def check(chk):
    chk.rule = ("documentation, XML and commented code of random schemas, plain and with random comments; the schema shown by the "
                "documentation is compiled again; non-trivial = distinct (schema, comment) and (schema, pages, uses)")
    chk.assumptions = ["html.parser of Python", "comments are removed from C++ and Java by a regular expression"]
    if not chk.thorough:
        round_(chk, 0, 16)
    rnd = 0
    while chk.thorough and chk.left() > 0 and rnd < 20:
        round_(chk, rnd, 40)
        rnd += 1


if __name__ == "__main__":
    zcheck.main("D30", check)
