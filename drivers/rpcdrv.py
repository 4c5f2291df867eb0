"""Driver of generated services and pubsubs in Python: one command per line, one result line each."""
import importlib
import sys

rt, binding, code, desc = sys.argv[1:5]
sys.path.insert(0, rt)
if binding != "-":
    sys.path.insert(0, binding)
for c in code.split(":"):
    sys.path.insert(0, c)
import zserio  # noqa: E402


def snake(n):
    o = ""
    for i, c in enumerate(n):
        if c.isupper() and i and (n[i - 1].islower() or n[i - 1].isdigit()):
            o += "_"
        o += c.lower()
    return o


def load(full):
    pkg, name = full.rsplit(".", 1)
    return getattr(importlib.import_module(pkg + ".api"), name)


SVC, PS = {}, {}
for line in open(desc):
    w = line.split()
    if w[0] == "S":
        SVC[w[1]] = cur = {}
    elif w[0] == "M":
        cur[w[1]] = (w[2], w[3])
    elif w[0] == "B":
        PS[w[1]] = cur = {}
    elif w[0] == "T":
        cur[w[1]] = (w[2], w[3])


def obj(type_, hx):
    data = bytes.fromhex(hx)
    if type_ == "bytes":
        return data
    return load(type_).from_reader(zserio.BitStreamReader(data))


def rehex(o):
    if isinstance(o, (bytes, bytearray, memoryview)):
        return bytes(o).hex()
    w = zserio.BitStreamWriter()
    o.write(w)
    return w.byte_array.hex()


class Boom(Exception):
    pass


class Script:
    def __init__(self, mode, resp, log):
        self.mode, self.resp, self.log = mode, resp, log


def make_impl(svc, script):
    methods = SVC[svc]
    ns = {}
    for m, (req, resp) in methods.items():
        def impl(self, request, context=None, m=m, req=req, resp=resp):
            ok = isinstance(request, (bytes, bytearray, memoryview)) if req == "bytes" else type(request) is load(req)
            script.log.append("%s(%s,%s)%s" % (m, rehex(request), context, "" if ok else "TYPE"))
            if script.mode == "throw":
                raise Boom("boom")
            if script.mode == "nest":
                script.mode = "ok"
                d = self.call_method(m, bytes.fromhex(script.req), 77)
                script.log.append("nested(%s)" % bytes(d.byte_array).hex())
            return obj(resp, script.resp)
        ns["_%s_impl" % snake(m)] = impl
    return type("Impl", (load(svc).Service,), ns)()


class Transport(zserio.ServiceClientInterface):
    def __init__(self, script, impl=None):
        self.script, self.impl = script, impl

    def call_method(self, method_name, request, context=None):
        a = request.byte_array
        b = request.byte_array
        self.script.log.append("%s[%s,%s]%s" % (method_name, bytes(a).hex(), context, "" if bytes(a) == bytes(b) else "DIFF"))
        if self.impl is not None:
            return self.impl.call_method(method_name, a, context).byte_array
        if self.script.mode == "throw":
            raise zserio.ServiceException("down")
        return bytes.fromhex(self.script.resp)


class Broker(zserio.PubsubInterface):
    def __init__(self, log):
        self.log, self.subs, self.next = log, [], 5

    def publish(self, topic, data, context=None):
        self.log.append("pub(%s,%s,%s)" % (topic, bytes(data).hex(), context))
        self.deliver(topic, bytes(data))

    def deliver(self, topic, data):
        for s in list(self.subs):
            if s[1] == topic:
                try:
                    s[2](topic, data)
                except zserio.PythonRuntimeException:
                    self.log.append("err(%d)" % s[0])

    def subscribe(self, topic, callback, context=None):
        self.next += 3
        self.log.append("sub(%s,%s)=%d" % (topic, context, self.next))
        self.subs.append((self.next, topic, callback))
        return self.next

    def unsubscribe(self, subscription_id):
        self.log.append("uns(%d)" % subscription_id)
        n = [s for s in self.subs if s[0] != subscription_id]
        if len(n) == len(self.subs):
            raise zserio.PubsubException("no subscription")
        self.subs = n


def run_pubsub(name, ops):
    log = []
    broker = Broker(log)
    ps = load(name)(broker)
    ids = []
    for op in ops.split(";"):
        w = op.split(":")
        try:
            if w[0] == "p":
                args = [] if w[3] == "-" else [int(w[3])]
                getattr(ps, "publish_" + snake(w[1]))(obj(PS[name][w[1]][0], w[2]), *args)
            elif w[0] == "s":
                k = len(ids)
                ids.append(None)

                def cb(topic, message, k=k, mode=w[3], m=w[1]):
                    t = PS[name][m][0]
                    ok = isinstance(message, (bytes, bytearray, memoryview)) if t == "bytes" else type(message) is load(t)
                    log.append("cb%d(%s,%s)%s" % (k, topic, rehex(message), "" if ok else "TYPE"))
                    if mode == "once":
                        ps.unsubscribe(ids[k])
                args = [] if w[2] == "-" else [int(w[2])]
                ids[k] = getattr(ps, "subscribe_" + snake(w[1]))(cb, *args)
                log.append("id%d=%d" % (k, ids[k]))
            elif w[0] == "u":
                ps.unsubscribe(ids[int(w[1])])
            elif w[0] == "d":
                broker.deliver(w[1], bytes.fromhex(w[2]))
        except zserio.PubsubException:
            log.append("PubsubException")
    return " ".join(log)


def execute(a):
    if a[0] == "N":
        s = load(a[1]).Service()
        return "%s %s" % (s.service_full_name, ",".join(s.method_names))
    if a[0] == "API":
        c = load(a[1])
        return " ".join(m for m in a[2].split(",") if hasattr(c, m[0:m.index("_") + 1] + snake(m[m.index("_") + 1:])
                                                              if "_" in m else m))
    if a[0] == "Q":
        return run_pubsub(a[1], a[2])
    log = []
    script = Script(a[6], a[5], log)
    script.req = a[4]
    ctx = None if a[3] == "-" else int(a[3])
    try:
        if a[0] == "S":
            impl = make_impl(a[1], script)
            d = impl.call_method(a[2], bytes.fromhex(a[4]), ctx)
            r = bytes(d.byte_array).hex()
            r2 = bytes(d.byte_array).hex()
            log.append("=%s%s" % (r, "" if r == r2 else "DIFF"))
        else:
            req, resp = SVC[a[1]][a[2]]
            impl = make_impl(a[1], script) if a[0] == "L" else None
            c = load(a[1]).Client(Transport(script, impl))
            f = getattr(c, snake(a[2]))
            r = f(obj(req, a[4])) if ctx is None else f(obj(req, a[4]), ctx)
            ok = isinstance(r, (bytes, bytearray, memoryview)) if resp == "bytes" else type(r) is load(resp)
            log.append("=%s%s" % (rehex(r), "" if ok else "TYPE"))
    except Boom:
        log.append("Boom")
    except zserio.ServiceException:
        log.append("ServiceException")
    except zserio.PythonRuntimeException:
        log.append("error")
    return " ".join(log)


for line in sys.stdin:
    try:
        r = "OK|" + execute(line.rstrip("\n").split("\t"))
    except Exception as e:  # pylint: disable=broad-except
        r = "ERR|%s|%s" % (type(e).__name__, str(e).replace("\n", " "))
    print(r, flush=True)
