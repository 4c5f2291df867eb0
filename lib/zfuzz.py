"""Mutations of zserio schemas: tokens, declarations and raw characters."""
import os
import re
import shutil

import zbuild

TOKEN = re.compile(r"//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"\\\n])*\"|'(?:\\.|[^'\\\n])*'|[A-Za-z_][A-Za-z0-9_]*|"
                   r"0[xX][0-9a-fA-F]+|[0-9]+[bB]\b|[0-9]+(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?f?|\.[0-9]+|"
                   r"<<|<=|>=|==|!=|&&|\|\||\.\.|[ \t\r\n\f]+|.", re.S)
KEYWORDS = """align as bitmask bool bit bytes case choice const default deprecated enum explicit extend extern false float16
float32 float64 function if implicit import in index instantiate int int16 int32 int64 int8 isset lengthof numbits on optional
packed publish pubsub removed return rule_group service sql sql_database sql_table sql_virtual sql_without_rowid string struct
subscribe subtype topic true uint16 uint32 uint64 uint8 union using valueof varint varint16 varint32 varint64 varsize varuint
varuint16 varuint32 varuint64 zserio_compatibility_version package""".split()
NUMBERS = ["0", "1", "2", "7", "8", "31", "32", "33", "63", "64", "65", "127", "128", "255", "256", "65535", "65536", "2147483647",
           "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615",
           "18446744073709551616", "0x7fffffffffffffffff", "1.5", "1e400", "0.0f", "017", "0101b", "3.14f", "00", "-1"]
SYMBOLS = list("{}()[]<>;:,.?=+-*/%&|^~!@#") + ["<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "..", "@index", ">", "?", "$"]
TYPES = """bool bit:3 bit:64 int:9 uint8 int8 uint16 int16 uint32 int32 uint64 int64 varint16 varint varuint varsize varuint32 varint64
float16 float32 float64 string bytes extern bit<7> int<x>""".split()


def tokens(text):
    return TOKEN.findall(text)


def corpus():
    """[(root, relative path)] of the schemas of the repository which come with all they import."""
    res = []
    for base in ("test",):
        for d, dirs, files in os.walk(os.path.join(zbuild.REPO, base)):
            dirs.sort()
            i = d.find("/zs")
            if i < 0 or not (d.endswith("/zs") or "/zs/" in d):
                continue
            root = d[:d.index("/zs") + 3]
            for f in sorted(files):
                if f.endswith(".zs"):
                    res.append((root, os.path.relpath(os.path.join(d, f), root)))
    return res


def blank(t):
    return t[0] in " \t\r\n\f" or t.startswith("//") or t.startswith("/*")


FAMILIES = [
    "bool uint8 int8 uint16 int16 uint32 int32 uint64 int64 varint16 varint32 varint64 varint varuint16 varuint32 varuint64 varuint "
    "varsize float16 float32 float64 string bytes extern bit:1 bit:63 bit:64 int:1 int:64 bit<8>".split(),
    "+ - * / % << >> & ^ | < > <= >= == != && ||".split(), "! ~ - +".split(), ["struct", "union"], ["true", "false"],
    ["enum uint8", "bitmask uint8", "enum varint"], ["publish", "subscribe", "pubsub", "topic"], ["sql_table", "struct"],
    ["lengthof", "valueof", "numbits", "isset"], ["const", "subtype"]]
PREFIXES = ["optional ", "packed ", "implicit ", "align(8): ", "extend ", "explicit ", "sql_virtual ", "@removed ", "@deprecated ",
            "function ", "default ", ".", "const "]
SUFFIXES = ["[]", "[3]", "[x]", "(1)", "(@index)", "<uint8>", " if x", " = 1", " : x > 1", ".x", " sql \"NULL\"", "[@index]", "()"]


def statements(ts):
    """(start, end, depth) of the statements between ; { and }."""
    res, start, depth = [], 0, 0
    for i, t in enumerate(ts):
        if t in ("{", "}", ";"):
            if t != "{" and i > start:
                res.append((start, i + (t == ";"), depth))
            start = i + 1
            depth += (t == "{") - (t == "}")
    return res


def whole(ts):
    """(start, end) of the top level declarations with their bodies."""
    res, start, depth = [], 0, 0
    for i, t in enumerate(ts):
        depth += (t == "{") - (t == "}")
        if t == ";" and depth == 0:
            res.append((start, i + 1))
            start = i + 1
    return res


def mutate(rng, text, others, n):
    """A mutant of text by n changes; others are texts to take declarations and tokens from."""
    ts = tokens(text)
    names = sorted({t for t in ts if re.match(r"[A-Za-z_]", t) and t not in KEYWORDS}) or ["x"]
    done = []
    for _ in range(n):
        code = [i for i, t in enumerate(ts) if t and not blank(t)]
        if len(code) < 4:
            break
        idents = [i for i in code if re.match(r"[A-Za-z_]", ts[i]) and ts[i] not in KEYWORDS]
        nums = [i for i in code if re.match(r"[0-9]", ts[i])]
        i = rng.choice(code)
        k = rng.random()
        if k < 0.18 and idents:
            done.append("name")
            ts[rng.choice(idents)] = rng.choice(names)
        elif k < 0.28 and nums:
            done.append("number")
            ts[rng.choice(nums)] = rng.choice(NUMBERS)
        elif k < 0.45:
            fam = [(j, f) for j in code for f in FAMILIES if ts[j] in f or ts[j] == f[0].split(" ")[0]]
            if fam:
                done.append("family")
                j, f = rng.choice(fam)
                ts[j] = rng.choice(f)
        elif k < 0.57:
            done.append("expression")
            j = rng.choice(idents + nums or code)
            a, b = rng.choice(names + NUMBERS + [ts[j]] * 8), rng.choice(names + NUMBERS + [ts[j]] * 8)
            ts[j] = rng.choice(["(%s + %s)", "(%s - %s)", "(%s * %s)", "(%s / %s)", "(%s %% %s)", "(%s << %s)", "(%s >> %s)",
                                "(%s & %s)", "(%s == %s ? 1 : 2)", "valueof(%s.%s)", "lengthof(%s) + %s", "numbits(%s) * %s",
                                "%s.%s", "%s[%s]", "isset(%s, %s)", "-%s + %s", "~%s | %s", "!(%s < %s)",
                                "%s[@index + %s]", "(%s ? %s : 0)"]) % (a, b)
        elif k < 0.63:
            done.append("prefix")
            ts[i] = rng.choice(PREFIXES) + ts[i]
        elif k < 0.69:
            done.append("suffix")
            j = rng.choice(idents or code)
            ts[j] += rng.choice(SUFFIXES)
        elif k < 0.83:
            st = statements(ts)
            if st:
                a, b, d = rng.choice(st)
                part = ts[a:b]
                w = rng.random()
                if w < 0.3:
                    done.append("delete statement")
                    ts[a:b] = []
                elif w < 0.6:
                    done.append("repeat statement")
                    ts[a:a] = part
                else:
                    done.append("move statement")
                    ts[a:b] = []
                    at = [x for x in statements(ts) if x[2] == d] or [(0, 0, 0)]
                    p = rng.choice(at)[0]
                    ts[p:p] = part
        elif k < 0.93:
            done.append("declaration")
            o = tokens(rng.choice(others))
            if rng.random() < 0.5:
                w = whole(o)
                if w:
                    a, b = rng.choice(w)
                    mine = whole(ts)
                    p = rng.choice(mine)[1] if mine else len(ts)
                    ts[p:p] = ["\n"] + o[a:b]
            else:
                w = [x for x in statements(o) if x[2] > 0]
                m = [x for x in statements(ts) if x[2] > 0]
                if w and m:
                    a, b, _d = rng.choice(w)
                    p = rng.choice(m)[0]
                    ts[p:p] = o[a:b]
        else:
            w = rng.randrange(6)
            done.append(["delete token", "repeat token", "swap tokens", "any token", "insert token", "characters"][w])
            if w == 0:
                ts[i] = ""
            elif w == 1:
                ts.insert(i, ts[i] + " ")
            elif w == 2:
                j = rng.choice(code)
                ts[i], ts[j] = ts[j], ts[i]
            elif w in (3, 4):
                t = " " + rng.choice([rng.choice(KEYWORDS), rng.choice(names), rng.choice(NUMBERS), rng.choice(SYMBOLS),
                                      rng.choice(TYPES)]) + " "
                ts[i:i + (w == 3)] = [t]
            else:
                ts[i] += rng.choice(["/*", "\"", "\x00", "\u00e9", "\ufeff", "\t", "\x0c", "//", "/**", "/*!", "\\", "'", "*/",
                                     "\u2028", "/** @see a.b */", "/*! ![x](y.png) !*/", "/** @param */", "/**/"])
    return "".join(ts), done


def copy_with(root, rel, text, dst):
    """The tree below root copied to dst with one file replaced."""
    shutil.copytree(root, dst, dirs_exist_ok=True, ignore=lambda d, fs: [f for f in fs if not (f.endswith(".zs") or os.path.isdir(os.path.join(d, f)))])
    with open(os.path.join(dst, rel), "w", encoding="utf-8", errors="surrogatepass", newline="") as f:
        f.write(text)
