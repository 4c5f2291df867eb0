"""S21: services deliver every request to its method and every response to its caller, unchanged, in all languages."""
import common
import zcheck
import zgen
import zrpc


def specs(chk, n, rnd):
    out = []
    for i, s in enumerate(chk.seeds(n, "schema%d" % rnd)):
        def make(pkg, s=s, i=i):
            r = chk.rng("svc", rnd, i)
            g = zgen.gen_schema(s, zgen.Opts(packages=1 + i % 2, compounds=4), pkg)
            zrpc.add_services(g, r, 4)
            return g
        out.append((s, make))
    return out


def one(chk, rnd, extra):
    rpc = zrpc.Rpc(chk, specs(chk, chk.pick(2, 4), rnd), extra=extra, prefix="zs%d" % rnd)
    items = []

    def add(j, kind, s, m, ctx, req, resp, mode, exp):
        items.append((j, "\t".join([kind, s.full, m, "-" if ctx is None else str(ctx), req, resp, mode]), ("OK|" + exp, mode)))
    for j in rpc.lab.jobs:
        for s in zrpc.decls(j.schema, zrpc.Service):
            items.append((j, "N\t" + s.full, ("OK|%s %s" % (s.full, ",".join(m for m, q, r in s.methods)), "names")))
            names = [m for m, q, r in s.methods]
            for mi, (m, q, r) in enumerate(s.methods):
                rng = chk.rng("call", rnd, j.seed, s.name, m)
                for k in range(chk.pick(3, 8)):
                    ctx = rng.choice([None, 1, 42, 123456])
                    req, creq = zrpc.payload(rng, j, chk, q)
                    resp, cresp = zrpc.payload(rng, j, chk, r)
                    if req is None or resp is None:
                        continue
                    a = (req, resp)
                    add(j, "S", s, m, ctx, *a, "ok", "%s(%s,%s) =%s" % (m, creq, ctx, cresp))
                    add(j, "C", s, m, ctx, *a, "ok", "%s[%s,%s] =%s" % (m, creq, ctx, cresp))
                    add(j, "L", s, m, ctx, *a, "ok", "%s[%s,%s] %s(%s,%s) =%s" % (m, creq, ctx, m, creq, ctx, cresp))
                    if k == 0:
                        add(j, "S", s, m, ctx, *a, "throw", "%s(%s,%s) Boom" % (m, creq, ctx))
                        add(j, "C", s, m, ctx, *a, "throw", "%s[%s,%s] ServiceException" % (m, creq, ctx))
                        add(j, "L", s, m, ctx, *a, "throw", "%s[%s,%s] %s(%s,%s) Boom" % (m, creq, ctx, m, creq, ctx))
                        add(j, "S", s, m, ctx, *a, "nest", "%s(%s,%s) %s(%s,77) nested(%s) =%s" % (m, creq, ctx, m, creq, cresp, cresp))
                    t = zrpc.truncated(rng, q, req)
                    if t is not None:
                        add(j, "S", s, m, ctx, t, resp, "ok", "error")
                    t = zrpc.truncated(rng, r, resp)
                    if t is not None:
                        add(j, "C", s, m, ctx, req, t, "ok", "%s[%s,%s] error" % (m, creq, ctx))
                    bad = rng.choice([m + "x", m[:-1], m.upper() + "_", "", s.full + "." + m, m + " ", "call" + m, m.swapcase()])
                    if bad not in names:
                        add(j, "S", s, bad, ctx, *a, "ok", "ServiceException")
    for lang, j, cmd, (exp, what), r in rpc.run(items):
        if r != exp:
            rpc.core.mismatch(lang, j, cmd, "event log of a service", exp, r)
        else:
            chk.nontrivial(cmd)
            chk.count("%s %s" % (cmd.split("\t")[0], what if not exp.endswith(("error", "ServiceException")) else exp.split(" ")[-1][-16:]))
    if not chk.samples and items:
        chk.sample(items[1][1][:300] + " -> " + items[1][2][0][:300])
    rpc.close()


def run(chk):
    rnd = 0
    opts = [(), ("-withTypeInfoCode", "-withReflectionCode"), ("-withCodeComments", "-withTypeInfoCode"), ("-withoutSourcesAmalgamation",)]
    while True:
        one(chk, rnd, opts[rnd % len(opts)])
        rnd += 1
        if rnd >= 2 and (not chk.thorough or chk.left() < 200 or chk.nviol > chk.MAX):
            break
    chk.rule = ("distinct calls (side, method, context, request, response, mode) whose whole event log (method invoked, request and "
                "context received, data exchanged, result or error) was the expected one")


if __name__ == "__main__":
    zcheck.main("S21", run)
