"""Services and pubsubs: their definitions in a schema, the drivers of all languages and the expected event logs."""
import glob
import os

import zbuild
import zdesc
import zlab
import zmodel

METHODS = ["get", "getValue", "ping2Pong", "aB", "x", "sendURL", "power_of_two", "processRequest", "setX1", "find", "findAll",
           "store", "value", "request", "callback", "data", "m", "doIt", "writeAll", "readAll2", "zzTop", "alpha", "beta",
           "name", "response", "reader", "allocator", "client"]
TOPICS = ["a", "a/b", "a/b/c", "zserio/test", "A", "x/+/y", "#", "weather/warnings", "topic with space", "t\\u00e4", "q-1"]


class Service:
    def __init__(self, pkg, name, methods):
        self.pkg, self.name, self.methods = pkg, name, methods
        self.full = pkg + "." + name

    def decl(self):
        return "service %s\n{\n%s};\n" % (self.name, "".join("    %s %s(%s);\n" % (tname(r), m, tname(q)) for m, q, r in self.methods))


class Pubsub:
    def __init__(self, pkg, name, messages):
        self.pkg, self.name, self.messages = pkg, name, messages    # name, type, kind, topic, topic text
        self.full = pkg + "." + name

    def decl(self):
        return "pubsub %s\n{\n%s};\n" % (self.name, "".join("    %s topic(%s) %s %s;\n" % (
            {"p": "publish", "s": "subscribe", "b": ""}[k], txt, tname(t), n) for n, t, k, topic, txt in self.messages))


class StrConst:
    def __init__(self, pkg, name, value):
        self.pkg, self.name, self.value = pkg, name, value

    def decl(self):
        return 'const string %s = "%s";\n' % (self.name, self.value)


def tname(t):
    return "bytes" if t is None else t.name


def full(t):
    return "bytes" if t is None else "%s.%s" % (t.pkg, t.name)


def types(gen):
    return [c for c in gen.schema.roots if not c.params and not c.tparams]


def add_services(gen, rng, n):
    """Adds n services; types of other packages are visible in the root package."""
    ts = types(gen)
    out = []
    pkg = gen.schema.order[0]
    for i in range(n):
        ms = []
        for m in rng.sample(METHODS, rng.choice([1, 2, 3, 5, 8, 12])):
            q = rng.choice(ts) if rng.random() < 0.8 else None
            r = rng.choice(ts) if rng.random() < 0.8 else None
            ms.append((m, q, r))
        out.append(gen.schema.add(Service(pkg, ["Svc", "MathService", "X", "Y"][i % 4] + "%d" % i, ms)))
    return out


def add_pubsubs(gen, rng, n):
    ts = types(gen)
    pkg = gen.schema.order[0]
    consts = [gen.schema.add(StrConst(pkg, "PREFIX_%d" % i, t)) for i, t in enumerate(["pre/", "zs/root"])]
    out = []
    for i in range(n):
        ms = []
        topics = rng.sample(TOPICS, rng.choice([1, 2, 3]))
        for m in rng.sample(METHODS, rng.choice([1, 2, 4, 6, 9])):
            t = rng.choice(ts) if rng.random() < 0.8 else None
            topic = rng.choice(topics)
            txt = '"%s"' % topic
            value = topic.encode().decode("unicode_escape")
            if rng.random() < 0.3:
                c = rng.choice(consts)
                w = rng.random()
                if w < 0.3:
                    txt, value = c.name, c.value
                elif w < 0.7:
                    txt, value = "%s + %s" % (c.name, txt), c.value + value
                else:
                    txt, value = "%s + %s" % (txt, c.name), value + c.value
            ms.append((m, t, rng.choice("psbb"), value, txt))
        out.append(gen.schema.add(Pubsub(pkg, "Ps%d" % i, ms)))
    return out


def descriptor(schema):
    o = []
    for d in decls(schema, Service):
        o.append("S " + d.full)
        o += ["M %s %s %s" % (m, full(q), full(r)) for m, q, r in d.methods]
    for d in decls(schema, Pubsub):
        o.append("B " + d.full)
        o += ["T %s %s %s" % (n, full(t), k) for n, t, k, topic, txt in d.messages]
    return "\n".join(o) + "\n"


def decls(schema, cls):
    return [d for n in schema.order for d in schema.packages[n] if isinstance(d, cls)]


def java_impls(jobs):
    o = ["public class RpcImpls {", "public static zserio.runtime.service.ServiceInterface make(String n, Rpc.Script s) {"]
    for j in jobs:
        for d in decls(j.schema, Service):
            c = "%s.%s.%sService" % (d.pkg, d.name, d.name)
            o.append('if (n.equals("%s")) return new %s() {' % (d.full, c))
            for m, q, r in d.methods:
                jq, jr = ("byte[]" if t is None else full(t) for t in (q, r))
                o.append('protected %s %sImpl(%s request, Object context) { return (%s)s.call(this, "%s", "%s", "%s", request, context); }'
                         % (jr, m, jq, jr, m, full(q), full(r)))
            o.append("};")
    o.append('throw new IllegalStateException(n);\n}\n}')
    return "\n".join(o) + "\n"


def cpp_driver(schema):
    o = ['#include "rpc.hpp"']
    svcs, pss = decls(schema, Service), decls(schema, Pubsub)
    for c in schema.compounds():
        o.append('#include "%s/%s.h"' % (c.pkg.replace(".", "/"), c.name))
    for d in svcs + pss:
        o.append('#include "%s/%s.h"' % (d.pkg.replace(".", "/"), d.name))

    def cn(t):
        return "Bytes" if t is None else zdesc.cname(full(t))

    def arg(t):
        return "::zserio::Span<const uint8_t>" if t is None else "const %s&" % cn(t)
    for i, d in enumerate(svcs):
        o.append("struct Impl%d : %s::Service { Script& s; Impl%d(Script& s_) : s(s_) {}" % (i, zdesc.cname(d.full), i))
        for m, q, r in d.methods:
            o.append('%s %sImpl(%s request, void* ctx) override { return s.call<%s>(*this, "%s", request, ctx); }' % (
                cn(r), m, arg(q), cn(r), m))
        o.append("};")
    o.append("int main()\n{\n    Svcs svcs;\n    Pss pss;")
    for i, d in enumerate(svcs):
        n = zdesc.cname(d.full)
        o.append("    { Svc v; v.make = [](Script& s) { return std::unique_ptr<zserio::IService>(new Impl%d(s)); };" % i)
        o.append("    v.names = []() { string r = sv(%s::Service::serviceFullName()) + \" \"; bool f = true; "
                 "for (auto& x : %s::Service::methodNames()) { if (!f) r += \",\"; f = false; r += sv(x); } return r; };" % (n, n))
        for m, q, r in d.methods:
            o.append('    v.call["%s"] = [](Transport& t, const string& req, void* ctx, bool none) { %s::Client c(t); '
                     "auto o = Maker<%s>::make(req); %s r = none ? c.%sMethod(o) : c.%sMethod(o, ctx); return rehex(r); };" % (
                         m, n, cn(q), cn(r), m, m))
        o.append('    svcs["%s"] = v; }' % d.full)
    for i, d in enumerate(pss):
        n = zdesc.cname(d.full)
        o.append('    pss["%s"] = [](const string& ops) { Log log; Broker b(log); %s ps(b); PsOps p;' % (d.full, n))
        for m, t, k, topic, txt in d.messages:
            cm = zdesc.cap(m)
            if k in "pb":
                o.append('        p.publish["%s"] = [&](const string& h, void* ctx, bool none) { auto o = Maker<%s>::make(h); '
                         "if (none) ps.publish%s(o); else ps.publish%s(o, ctx); };" % (m, cn(t), cm, cm))
            if k in "sb":
                ct = "::zserio::Span<const uint8_t>" if t is None else cn(t)
                at = "const %s&" % ct
                o.append("        { using F = std::function<void(const string&, const string&)>;\n"
                         "        struct Cb : %s::%sCallback<%s> { F f; void operator()(::zserio::StringView t, %s m) override "
                         "{ f(sv(t), rehex(m)); } };\n"
                         '        p.subscribe["%s"] = [&](F f, void* ctx, bool none) { auto cb = std::make_shared<Cb>(); cb->f = f; '
                         "return none ? ps.subscribe%s(cb) : ps.subscribe%s(cb, ctx); }; }" % (n, d.name, ct, at, m, cm, cm))
        if any(k in "sb" for m, t, k, topic, txt in d.messages):
            o.append("        p.unsubscribe = [&](size_t id) { ps.unsubscribe(id); };")
        o.append("        return runPubsub(p, b, log, ops); };")
    o.append("    return loop(svcs, pss);\n}")
    return "\n".join(o) + "\n"


class Rpc:
    """Builds and runs the drivers for the jobs of a lab whose schemas have services or pubsubs."""

    def __init__(self, chk, specs, extra=(), prefix="zr", langs=("py", "java", "cpp")):
        import zcore
        self.core = core = zcore.Core(chk, specs, langs=langs, extra=extra, prefix=prefix, build=False)
        lab = self.lab = core.lab
        self.chk, self.langs = chk, langs
        self.desc = lab.root + "/rpc.desc"
        with open(self.desc, "w") as f:
            f.write("".join(descriptor(j.schema) for j in lab.jobs))
        try:
            with open(lab.root + "/RpcImpls.java", "w") as f:
                f.write(java_impls(lab.jobs))
            srcs = [zlab.DRIVERS + "/Rpc.java", lab.root + "/RpcImpls.java"]
            for j in lab.jobs:
                srcs += zbuild.java_files(j.dir + "/java")
            zbuild.javac(lab.root + "/javac", srcs, [lab.built["java"]])
        except zbuild.BuildError as e:
            chk.violation("generated Java code does not compile: %s" % str(e)[-1500:],
                          {"schemas": [core.schema_text(j) for j in lab.jobs][:4], "output": str(e)[-4000:]})
            self.langs = core.langs = tuple(l for l in self.langs if l != "java")
        real = zdesc.cpp_driver
        zdesc.cpp_driver = lambda schema, only=None: cpp_driver(schema)
        try:
            for j, e in lab.cpp(groups=4):
                chk.violation("generated C++ code does not compile: %s" % e[:1500], {"schema": core.schema_text(j), "output": e})
        finally:
            zdesc.cpp_driver = real
        core.cmd = self.cmd

    def cmd(self, lang, j=None):
        lab = self.lab
        if lang in ("py", "pycpp"):
            code = ":".join(x.dir + "/python" for x in lab.jobs)
            return [zbuild.PYTHON, zlab.DRIVERS + "/rpcdrv.py", zbuild.PY_RUNTIME, lab.built["pybind"] if lang == "pycpp" else "-",
                    code, self.desc]
        if lang == "java":
            return ["java", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-cp",
                    "%s/javac:%s" % (lab.root, lab.built["java"]), "Rpc", self.desc]
        return [j.exe]

    def run(self, items):
        for lang, j, cmd, tag, r in self.core.run(items):
            yield lang, j, cmd, tag, r.replace(",null", ",None")

    def close(self):
        self.core.close()


def payload(rng, j, chk, t):
    """(bytes in hex, canonical bytes in hex) of a value of a type or of raw bytes."""
    import zgen
    if t is None:
        n = rng.choice([0, 1, 2, 7, 64, 300])
        h = bytes(rng.getrandbits(8) for _ in range(n)).hex()
        return h, h
    for k in range(20):
        v = zgen.gen_value(j.gen, rng, t)
        if v is not None:
            nb, b = zmodel.encode(v)
            data = zmodel.to_bytes(nb, b)
            return data.hex(), data.hex()
    return None, None


def truncated(rng, t, h):
    """A prefix of the bytes which is too short for the type, or None."""
    if t is None or len(h) < 2:
        return None
    n = rng.choice([len(h) // 2 - 1, rng.randrange(len(h) // 2)])
    try:
        zmodel.decode(t, [], n * 8, int(h[:2 * n] or "0", 16))
    except zmodel.Reject as e:
        return h[:2 * n] if str(e) == "end of stream" else None
    except zmodel.Unsure:
        return None
    return None
