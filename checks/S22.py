"""S22: pubsubs publish, subscribe and deliver messages of their topics unchanged and to the right callbacks."""
import common
import zcheck
import zgen
import zrpc


def specs(chk, n, rnd):
    out = []
    for i, s in enumerate(chk.seeds(n, "schema%d" % rnd)):
        def make(pkg, s=s, i=i):
            r = chk.rng("ps", rnd, i)
            g = zgen.gen_schema(s, zgen.Opts(packages=1 + i % 2, compounds=4), pkg)
            zrpc.add_pubsubs(g, r, 5)
            return g
        out.append((s, make))
    return out


class Model:
    """The broker of the drivers and the generated pubsub."""

    def __init__(self, ps, rng, j, chk):
        self.ps, self.rng, self.j, self.chk = ps, rng, j, chk
        self.log, self.subs, self.next, self.ids, self.modes = [], [], 5, [], []
        self.ops = []

    def deliver(self, topic, h):
        for id, tp, k, t in list(self.subs):
            if tp != topic:
                continue
            if t is not None and self.state(t, h) != "ok":
                self.log.append("err(%d)" % id)
                continue
            self.log.append("cb%d(%s,%s)" % (k, topic, h if t is None else self.canon))
            if self.modes[k] == "once":
                if not self.unsub(id):
                    return False
        return True

    def state(self, t, h):
        import zmodel
        n = len(h) // 2
        try:
            v, used = zmodel.decode(t, [], n * 8, int(h or "0", 16))
            nb, b = zmodel.encode(v)
            self.canon = zmodel.to_bytes(nb, b).hex()
            return "ok"
        except zmodel.Reject as e:
            if str(e) != "end of stream":
                raise zmodel.Unsure("other")
            return "err"

    def unsub(self, id):
        self.log.append("uns(%d)" % id)
        n = [s for s in self.subs if s[0] != id]
        if len(n) == len(self.subs):
            return False
        self.subs = n
        return True

    def step(self):
        r = self.rng
        w = r.random()
        m, t, k, topic, txt = r.choice(self.ps.messages)
        ctx = r.choice([None, 3, 99])
        c = "-" if ctx is None else str(ctx)
        if w < 0.4 and k in "pb":
            h, canon = zrpc.payload(r, self.j, self.chk, t)
            if h is None:
                return
            # other messages with the same topic have to understand it
            self.ops.append("p:%s:%s:%s" % (m, h, c))
            self.log.append("pub(%s,%s,%s)" % (topic, canon, ctx))
            if not self.deliver(topic, canon):
                self.log.append("PubsubException")
        elif w < 0.7 and k in "sb":
            mode = "once" if r.random() < 0.25 else "keep"
            self.ops.append("s:%s:%s:%s" % (m, c, mode))
            self.next += 3
            self.log.append("sub(%s,%s)=%d" % (topic, ctx, self.next))
            self.log.append("id%d=%d" % (len(self.ids), self.next))
            self.subs.append((self.next, topic, len(self.ids), t))
            self.ids.append(self.next)
            self.modes.append(mode)
        elif w < 0.8 and self.ids:
            i = r.randrange(len(self.ids))
            self.ops.append("u:%d" % i)
            if not self.unsub(self.ids[i]):
                self.log.append("PubsubException")
        elif w < 0.95 and all(x < "\x7f" and x not in ":;" for x in topic):
            h, canon = zrpc.payload(r, self.j, self.chk, t)
            if h is None:
                return
            if r.random() < 0.3:
                h = zrpc.truncated(r, t, h) or h
            if r.random() < 0.2:
                topic = topic + "/z"
            self.ops.append("d:%s:%s" % (topic, h))
            if not self.deliver(topic, h):
                self.log.append("PubsubException")


def one(chk, rnd, extra):
    import zmodel
    rpc = zrpc.Rpc(chk, specs(chk, chk.pick(2, 4), rnd), extra=extra, prefix="zp%d" % rnd)
    items = []
    for j in rpc.lab.jobs:
        for ps in zrpc.decls(j.schema, zrpc.Pubsub):
            for k in range(chk.pick(14, 40)):
                m = Model(ps, chk.rng("ops", rnd, j.seed, ps.name, k), j, chk)
                n = m.rng.choice([3, 8, 15, 30])
                try:
                    for _ in range(n):
                        m.step()
                except zmodel.Unsure:
                    chk.count("sequences left out (decoding not specified)")
                    continue
                if m.ops:
                    items.append((j, "Q\t%s\t%s" % (ps.full, ";".join(m.ops)), ("OK|" + " ".join(m.log), m)))
            pub = [x[0] for x in ps.messages if x[2] in "pb"]
            sub = [x[0] for x in ps.messages if x[2] in "sb"]
            ask = ["publish_" + x[0] for x in ps.messages] + ["subscribe_" + x[0] for x in ps.messages] + ["unsubscribe"]
            have = ["publish_" + x for x in pub] + ["subscribe_" + x for x in sub] + (["unsubscribe"] if sub else [])
            items.append((j, "API\t%s\t%s" % (ps.full, ",".join(ask)), ("OK|" + " ".join(x for x in ask if x in have), None)))
    for lang, j, cmd, (exp, m), r in rpc.run([i for i in items if i[1][0] == "Q"]):
        if r != exp:
            rpc.core.mismatch(lang, j, cmd, "event log of a pubsub", exp, r)
        else:
            chk.nontrivial(cmd)
            chk.count("events", len(m.log))
            for e in m.log:
                chk.count("event " + "".join(x for x in e.split("(")[0].split("=")[0] if x.isalpha()))
    for lang, j, cmd, (exp, m), r in rpc.core.run([i for i in items if i[1][0] == "A"], langs=[l for l in rpc.core.langs if l != "cpp"]):
        if r != exp:
            rpc.core.mismatch(lang, j, cmd, "methods of a pubsub", exp, r)
        else:
            chk.count("interfaces of pubsubs")
    if not chk.samples and items:
        chk.sample(items[0][1][:300] + " -> " + items[0][2][0][:300])
    rpc.close()


def run(chk):
    rnd = 0
    opts = [(), ("-withTypeInfoCode", "-withReflectionCode"), ("-withCodeComments",), ("-withoutSourcesAmalgamation",)]
    while True:
        one(chk, rnd, opts[rnd % len(opts)])
        rnd += 1
        if rnd >= 2 and (not chk.thorough or chk.left() < 200 or chk.nviol > chk.MAX):
            break
    chk.rule = "distinct sequences of pubsub operations whose event log was exactly the one of the model"


if __name__ == "__main__":
    zcheck.main("S22", run)
