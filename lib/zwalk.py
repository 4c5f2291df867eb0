"""What a walk over an object visits under walk filters, and scripts for the tree creator: written from the documentation."""
import re

from zmodel import *


class Filter:
    """Base: lets everything pass."""
    def before(self, kind, node):
        return True

    def after(self, kind, node):
        return True


class Depth(Filter):
    def __init__(self, n):
        self.max = n

    def before(self, kind, node):
        return node.depth <= self.max


class Length(Filter):
    def __init__(self, n):
        self.max = n

    def before(self, kind, node):
        return kind == "array" or node.idx is None or node.idx < self.max

    after = before


class Regex(Filter):
    def __init__(self, text):
        self.re = re.compile(text)

    def hit(self, node):
        return self.re.fullmatch(node.path) is not None or any(self.hit(c) for c in node.children)

    def before(self, kind, node):
        return self.hit(node)


class Custom(Filter):
    def __init__(self, no, log):
        self.no, self.log, self.n = no, log, 0

    def decide(self, letter, node):
        self.log.append("?%s%s:%s" % (letter, node.name, "-" if node.idx is None else node.idx))
        self.n += 1
        return self.n - 1 not in self.no

    def before(self, kind, node):
        return self.decide({"array": "A", "compound": "C", "value": "V"}[kind], node)

    def after(self, kind, node):
        return self.decide({"array": "a", "compound": "c", "value": "v"}[kind], node)


class And(Filter):
    def __init__(self, fs):
        self.fs = fs

    def before(self, kind, node):
        return all([f.before(kind, node) for f in self.fs])

    def after(self, kind, node):
        return all([f.after(kind, node) for f in self.fs])


class Node:
    """kind: array, compound or value; the depth of the members of the root is 1."""
    def __init__(self, kind, name, idx, path, depth, text):
        self.kind, self.name, self.idx, self.path, self.depth, self.text = kind, name, idx, path, depth, text
        self.children = []


def full(t):
    return "%s.%s" % (t.pkg, t.name)


def active(v):
    return [f for f in v.t.fields if not isinstance(f.type, Nothing) and (v.t.kind == "struct" or f.name == v.sel)]


def tree(v, prefix="", depth=1):
    out = []
    for f in active(v):
        x, path = v.f.get(f.name), prefix + f.name

        def one(e, idx, p, d):
            et = f.elem()
            if et.is_compound and e is not None:
                n = Node("compound", f.name, idx, p, d, full(e.t))
                n.children = tree(e, p + ".", d + 1)
                return n
            return Node("value", f.name, idx, p, d, "n" if e is None else tok_simple(et, e))
        if x is not None and f.array:
            n = Node("array", f.name, None, path, depth, str(len(x)))
            n.children = [one(e, i, "%s[%d]" % (path, i), depth + 1) for i, e in enumerate(x)]
        elif x is None:
            n = Node("value", f.name, None, path, depth, "n")
        else:
            n = one(x, None, path, depth)
        out.append(n)
    return out


def walk(v, nodes, flt, log):
    def sub(ns):
        for n in ns:
            if flt.before(n.kind, n):
                a = n.name + ":"
                if n.kind != "array":
                    a += ("-" if n.idx is None else str(n.idx)) + ":"
                a += n.text
                if n.kind == "value":
                    log.append("V" + a)
                else:
                    k = "A" if n.kind == "array" else "C"
                    log.append(k + a)
                    sub(n.children)
                    log.append(k.lower() + a)
            if not flt.after(n.kind, n):
                return
    log.append("R" + full(v.t))
    sub(nodes)
    log.append("r" + full(v.t))


def make(spec, log):
    k, r = spec[0], spec[1:]
    if k == "&":
        return And([make(s, log) for s in r.split("&") if s])
    if k in "-N":
        return Filter()
    if k == "D":
        return Depth(int(r))
    if k == "L":
        return Length(int(r))
    if k == "X":
        return Regex(bytes.fromhex(r).decode())
    return Custom(set(int(x) for x in r.split(",") if x), log)


def expected(v, spec):
    log = []
    walk(v, tree(v), make(spec, log), log)
    return " ".join(log)


def paths(nodes):
    for n in nodes:
        yield n
        yield from paths(n.children)


def regex(r, nodes):
    """A pattern which means the same in all the languages (anchored, no special syntax)."""
    all_ = list(paths(nodes))
    if not all_:
        return ".*$"

    def esc(p):
        return re.sub(r"([.\[\]])", r"\\\1", p)

    def one():
        p = esc(r.choice(all_).path)
        k = r.randrange(7)
        if k == 0:
            p = re.sub(r"\d+(?=\\\])", r"[0-9]+", p)
        elif k == 1:
            i = p.rfind("\\.")
            p = (p[:i] if i > 0 else p) + ".*"
        elif k == 2:
            p = ".*" + p[p.rfind("\\.") + 2 if "\\." in p else 0:]
        elif k == 3:
            p = re.sub(r"\d+(?=\\\])", lambda m: str(int(m.group()) + r.choice((0, 1))), p)
        elif k == 4:
            p = p[:r.randint(0, len(p))].rstrip("\\")
        return p
    if r.random() < 0.3:
        return "(%s|%s)$" % (one(), one())
    return one() + "$"


def spec(r, nodes, calls):
    def one():
        k = r.random()
        if k < 0.2:
            return "D%d" % r.randint(0, 6)
        if k < 0.4:
            return "L%d" % r.randint(0, 4)
        if k < 0.65:
            return "X" + regex(r, nodes).encode().hex()
        if k < 0.68:
            return "N"
        return "C" + ",".join(str(r.randrange(max(1, calls))) for _ in range(r.choice((0, 1, 1, 2, 4))))
    k = r.random()
    if k < 0.05:
        return "-"
    if k < 0.7:
        return one()
    return "&" + "&".join(one() for _ in range(r.choice((0, 1, 2, 2, 3))))


class Script:
    """A script of tree creator calls which builds v, with calls which must fail put in between, and the expected results."""

    def __init__(self, v, r, p_bad):
        self.r, self.p, self.ops, self.exp = r, p_bad, [], []
        self.bad = 0
        self.v = v
        self.wrong("before", None, None, False)
        self.do("R")
        self.comp(v, True, False)
        self.do("r", "RESULT")
        self.wrong("before", None, None, False)

    def do(self, op, exp="."):
        self.ops.append(op)
        self.exp.append(exp)

    def wrong(self, state, v, f, root, elem=False):
        """Calls which are not allowed now."""
        r = self.r
        while r.random() < self.p:
            c = ["noSuchField"]
            ops = []
            if state == "before":
                ops = ["r", "A=x", "a", "C=x", "c", "V=x=i1", "E", "e", "v=i1", "T=x", "t"]
            elif state == "compound":
                ops = ["R", "a", "E", "v=i1", "v=s41", "t", "A=noSuchField", "C=noSuchField", "V=noSuchField=i1", "T=noSuchField"]
                if not root:
                    ops.append("r")
                if root or elem:
                    ops.append("c")
                if root or not elem:
                    ops.append("e")
                for g in r.sample(v.t.fields, min(3, len(v.t.fields))):
                    if isinstance(g.type, Nothing):
                        continue
                    et = g.elem()
                    if g.array:
                        ops += ["C=" + g.name, "V=%s=i1" % g.name, "V=%s=s41" % g.name]
                    else:
                        ops += ["A=" + g.name]
                        if et.is_compound:
                            ops += ["V=%s=s41" % g.name]
                        else:
                            ops += ["C=" + g.name]
                            if isinstance(et, (Int, DynBit, Bool, Float)):
                                ops += ["V=%s=s41" % g.name]
                            elif isinstance(et, Str):
                                ops += ["V=%s=i1" % g.name]
            else:
                ops = ["R", "r", "A=x", "C=x", "c", "e", "V=x=i1", "T=x"]
                if f.elem().is_compound:
                    ops += ["v=i1", "v=s41"]
                else:
                    ops.append("E")
                    if isinstance(f.elem(), (Int, DynBit, Bool, Float)):
                        ops.append("v=s41")
                    elif isinstance(f.elem(), Str):
                        ops.append("v=i1")
            self.do(r.choice(ops), "x")
            self.bad += 1

    def comp(self, v, root, elem):
        for f in active(v):
            self.wrong("compound", v, None, root, elem)
            x, et = v.f.get(f.name), f.elem()
            if self.r.random() < 0.1 and et.is_compound:
                self.do("T=" + f.name, full(et))
            if x is None:
                if self.r.random() < 0.7:
                    self.do("V=%s=n" % f.name)
            elif f.array:
                if self.r.random() < 0.1 and x and not et.is_compound:
                    # the second beginning starts with an empty array
                    self.do("A=" + f.name)
                    self.do("v=" + tok_simple(et, x[0]))
                    self.do("a")
                self.do("A=" + f.name)
                for e in x:
                    self.wrong("array", v, f, False)
                    if et.is_compound:
                        if self.r.random() < 0.1:
                            self.do("t", full(et))
                        self.do("E")
                        self.comp(e, False, True)
                        self.do("e")
                    else:
                        self.do("v=" + tok_simple(et, e))
                self.wrong("array", v, f, False)
                self.do("a")
            elif et.is_compound:
                self.do("C=" + f.name)
                self.comp(x, False, False)
                self.do("c")
            else:
                self.do("V=%s=%s" % (f.name, tok_simple(et, x)))
        self.wrong("compound", v, None, root, elem)

    def text(self):
        return " ".join(self.ops)

    def expected(self, result):
        return " ".join(result if e == "RESULT" else e for e in self.exp)
