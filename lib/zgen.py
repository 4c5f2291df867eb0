"""Random schemas and values (for lib/zmodel.py)."""
import random

from zmodel import *

FIXED_INTS = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64"]
VAR_INTS = sorted(VARS)
OFFSET_TYPES = ["uint32", "uint32", "uint64", "uint16", "bit:24", "bit:31", "bit:17", "bit:33"]


def bitint(rng):
    n = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 11, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 47, 48, 55, 56, 57, 62, 63, 64])
    return "%s:%d" % (rng.choice(["bit", "int"]), n)


class GiveUp(Exception):
    pass


class Opts:
    """What a generated schema may contain."""
    def __init__(self, **kw):
        self.params = True
        self.optional = True
        self.offsets = True
        self.align = True
        self.packed = 0.35
        self.choices = True
        self.unions = True
        self.constraints = True
        self.functions = True
        self.templates = True
        self.dynbits = True
        self.inits = True
        self.extend = True
        self.implicit = True
        self.subtypes = True
        self.packages = 1
        self.compounds = 6
        self.fields = (2, 7)
        self.floats = True
        self.extern = True
        self.recursion = True
        self.removed = False
        self.stringfields = True
        self.__dict__.update(kw)


class Gen:
    def __init__(self, rng, opts=None, pkg="zt"):
        self.rng = rng
        self.o = opts or Opts()
        self.pkg = pkg
        self.n = 0
        self.enums, self.bitmasks, self.subs, self.comps, self.consts = [], [], [], [], []
        self.templates = []
        self.schema = Schema()

    def uid(self):
        self.n += 1
        return self.n

    def fname(self):
        k = self.uid()
        return self.rng.choice(["f%d", "val%d", "someField%d", "aB%d", "x%d"]) % k

    def chance(self, p):
        return self.rng.random() < p

    # ---- types
    def int_type(self, unsigned_fixed=False):
        r = self.rng
        k = r.random()
        if k < 0.35:
            return Int(r.choice(FIXED_INTS))
        if k < 0.65:
            return Int(bitint(r))
        return Int(r.choice(VAR_INTS))

    def new_enum(self, pkg):
        r = self.rng
        under = self.int_type()
        name = "Enum%d" % self.uid()
        items, used, nxt = [], set(), 0
        n = r.randint(1, min(6, under.hi - under.lo + 1))
        for i in range(n):
            explicit = self.chance(0.5) or nxt > under.hi or nxt in used
            v = nxt
            if explicit:
                for _ in range(50):
                    v = r.choice([under.lo, under.hi, r.randint(max(under.lo, -9), min(under.hi, 60)),
                                  self.int_value(under)])
                    if v not in used and not (under.code == "varint" and v == under.lo):
                        break
                else:
                    break
                if v in used:
                    break
            ann = ""
            if self.o.removed and i > 0 and self.chance(0.25):
                ann = r.choice(["removed", "deprecated"])
            used.add(v)
            nxt = v + 1
            items.append(("%s%d" % (r.choice(["RED", "ITEM_", "X", "ALPHA_BETA"]), self.uid()), v, ann, explicit))
        e = Enum(pkg, name, under, items)
        self.schema.add(e)
        self.enums.append(e)
        return e

    def new_bitmask(self, pkg):
        r = self.rng
        while True:
            under = self.int_type()
            if not under.signed:
                break
        name = "Mask%d" % self.uid()
        items, used = [], set()
        nbits = under.hi.bit_length()
        bit = 0
        for i in range(r.randint(1, min(5, nbits))):
            if i and bit >= nbits:
                break
            explicit = self.chance(0.4)
            v = 1 << bit
            if explicit:
                v = r.choice([v, 1 << r.randrange(bit, nbits), (1 << min(bit + 2, nbits)) - 1 & ~((1 << bit) - 1)])
            if v in used or v == 0:
                continue
            used.add(v)
            bit = v.bit_length()
            items.append(("M%d" % self.uid(), v, explicit or v != 1 << (bit - 1)))
        # automatic values continue with the next bit of the previous one
        fixed, prev = [], 0
        for n, v, e in items:
            auto = 1 << prev.bit_length()
            fixed.append((n, v, e or v != auto))
            prev = v
        b = Bitmask(pkg, name, under, fixed)
        self.schema.add(b)
        self.bitmasks.append(b)
        return b

    def scalar(self, packish=False):
        r = self.rng
        k = r.random()
        if k < (0.62 if not packish else 0.75):
            return self.int_type()
        if k < 0.76 and self.enums:
            return r.choice(self.enums)
        if k < 0.84 and self.bitmasks:
            return r.choice(self.bitmasks)
        c = [BOOL]
        if self.o.stringfields:
            c += [STR, BYTES]
        if self.o.extern:
            c.append(EXTERN)
        if self.o.floats:
            c += [Float(16), Float(32), Float(64)]
        return r.choice(c)

    def new_subtype(self, pkg):
        t = self.rng.choice([self.int_type(), self.scalar()] +
                            [c for c in self.comps if c.kind == "struct" and not c.params][:2] + self.subs[:2])
        s = Subtype(pkg, "Sub%d" % self.uid(), t)
        self.schema.add(s)
        self.subs.append(s)
        return s

    # ---- expressions over an environment
    def cond(self, env):
        """Boolean expression over what is visible, or None."""
        r = self.rng
        c = []
        for p in env.ints:
            k = r.randint(0, 4)
            op = r.choice(["<", ">", "<=", ">=", "==", "!="])
            c.append(cmp_expr(p, op, k))
        for p in env.bools:
            c.append(p)
            c.append(E("!" + p.zs(), lambda x, p=p: not p.ev(x)))
        for p, e in env.enums:
            it = r.choice(e.items)
            op = r.choice(["==", "!="])
            c.append(E("%s %s %s.%s" % (p.zs(), op, e.name, it[0]),
                       lambda x, p=p, v=it[1], op=op: (p.ev(x) == v) == (op == "==")))
        for p, b in env.masks:
            it = r.choice(b.items)
            c.append(E("isset(%s, %s.%s)" % (p.zs(), b.name, it[0]),
                       lambda x, p=p, v=it[1]: (p.ev(x) & v) == v))
        for p in env.arrays:
            k = r.randint(0, 3)
            op = r.choice(["<", ">", "==", "!="])
            le = E("lengthof(%s)" % p.zs(), lambda x, p=p: len(p.ev(x)))
            c.append(cmp_expr(le, op, k))
        if not c:
            return None
        e = r.choice(c)
        if len(c) > 1 and self.chance(0.3):
            e2 = r.choice(c)
            if self.chance(0.5):
                return E("(%s) && (%s)" % (e.zs(), e2.zs()), lambda x: bool(e.ev(x)) and bool(e2.ev(x)))
            return E("(%s) || (%s)" % (e.zs(), e2.zs()), lambda x: bool(e.ev(x)) or bool(e2.ev(x)))
        return e

    def length(self, env):
        r = self.rng
        c = [lit(r.randint(0, 4))]
        for p in env.ints:
            c += [p, p]
            c.append(E("%s + 1" % p.zs(), lambda x, p=p: p.ev(x) + 1))
            c.append(E("%s * 2" % p.zs(), lambda x, p=p: p.ev(x) * 2))
        for p in env.arrays:
            c.append(E("lengthof(%s)" % p.zs(), lambda x, p=p: len(p.ev(x))))
        for k in self.consts:
            if isinstance(k.value, int) and not isinstance(k.value, bool) and 0 <= k.value < 6:
                c.append(k)
        return r.choice(c)

    # ---- compounds
    def new_params(self):
        r = self.rng
        ps = []
        for _ in range(r.randint(1, 3)):
            k = r.random()
            if k < 0.45:
                t = Int(r.choice(["uint8", "uint16", "bit:5", "uint32", "varsize", "varuint16"]))
                role = "len"
            elif k < 0.6 and self.enums:
                t, role = r.choice(self.enums), "enum"
            elif k < 0.7 and self.bitmasks:
                t, role = r.choice(self.bitmasks), "mask"
            elif k < 0.82:
                t, role = BOOL, "bool"
            else:
                cand = [c for c in self.comps if c.kind == "struct" and not c.params and c.template is None]
                if not cand:
                    continue
                t, role = r.choice(cand), "comp"
            ps.append((t, "p%d" % self.uid(), role))
        return ps

    def new_compound(self, pkg, kind=None, root=False, tparam=None, nopar=False):
        r = self.rng
        o = self.o
        if kind is None:
            kind = r.choice(["struct"] * 5 + (["choice"] * 2 if o.choices else []) + (["union"] * 2 if o.unions else []))
        params = []
        if not root and not nopar and o.params and (kind == "choice" or self.chance(0.3)):
            params = self.new_params()
        name = {"struct": "Struct", "choice": "Choice", "union": "Union"}[kind] + str(self.uid())
        if root:
            name = "Root"
        c = Compound(kind, pkg, name, [(t, n) for t, n, _ in params])
        if tparam:
            c.tparams = [tparam.name]
        env = Env()
        for t, n, role in params:
            p = Path([n])
            if role == "len":
                env.ints.append(p)
            elif role == "enum":
                env.enums.append((p, t))
            elif role == "mask":
                env.masks.append((p, t))
            elif role == "bool":
                env.bools.append(p)
            else:
                env.add_comp(p, t)
        if kind == "struct":
            self.struct_fields(c, env, root, tparam)
        elif kind == "union":
            for _ in range(r.randint(1, 5)):
                c.fields.append(self.simple_field(env, c, tparam))
        else:
            self.choice_fields(c, env, params, tparam)
        if o.functions and kind == "struct":
            self.functions(c, env)
        self.schema.add(c)
        return c

    def functions(self, c, env):
        for _ in range(self.rng.randint(0, 2)):
            if env.ints and self.chance(0.7):
                p = self.rng.choice(env.ints)
                k = self.rng.randint(0, 7)
                e = E("%s + %s" % (p.zs(), spell(k)), lambda x, p=p, k=k: p.ev(x) + k)
                c.funcs.append((Int("uint32"), "fun%d" % self.uid(), e))
            else:
                e = self.cond(env)
                if e:
                    c.funcs.append((BOOL, "fun%d" % self.uid(), e))

    def choice_fields(self, c, env, params, tparam):
        r = self.rng
        sel = [x for x in params if x[2] != "comp"]
        if not sel:
            t = Int("uint8")
            p = (t, "p%d" % self.uid(), "len")
            params.append(p)
            c.params.append((t, p[1]))
            sel = [p]
        t, n, role = r.choice(sel)
        c.on = Path([n])
        if role == "enum":
            vals = [(r.choice(["%s.%s" % (t.name, i[0]), i[0]]), i[1]) for i in t.items if not i[2]]
        elif role == "mask":
            vals = [("%s.%s" % (t.name, i[0]), i[1]) for i in t.items]
        elif role == "bool":
            vals = [("true", True), ("false", False)]
        else:
            vals = [(str(v), v) for v in range(0, 6)]
            if self.chance(0.3):
                c.on = E("%s + 1" % n, lambda x, n=n: lookup(x.val, n) + 1)
        r.shuffle(vals)
        vals = vals[:r.randint(1, len(vals))]
        while vals:
            k = r.randint(1, min(2, len(vals)))
            cs, vals = vals[:k], vals[k:]
            if self.chance(0.12):
                f = Field("", NOTHING)
            else:
                f = self.simple_field(env, c, tparam)
            f.cases = cs
            c.fields.append(f)
        full = role == "bool" and sum(len(f.cases) for f in c.fields) == 2
        if not full and self.chance(0.6):
            # 'default' is not allowed when all enum items are handled
            if not (role == "enum" and sum(len(f.cases) for f in c.fields) == len(t.items)):
                f = Field("", NOTHING) if self.chance(0.3) else self.simple_field(env, c, tparam)
                f.cases = None
                c.fields.append(f)
        if all(isinstance(f.type, Nothing) for f in c.fields):
            f = self.simple_field(env, c, tparam)
            f.cases = c.fields[0].cases
            c.fields[0] = f

    def simple_field(self, env, c, tparam):
        """Field type, possibly array, for choices and unions."""
        f = self.typed_field(env, c, tparam)
        self.maybe_constraint(f)
        return f

    def typed_field(self, env, c, tparam, allow_comp=True):
        r = self.rng
        o = self.o
        name = self.fname()
        if tparam and self.chance(0.5):
            f = Field(name, tparam)
        elif allow_comp and self.comps and self.chance(0.4):
            t = r.choice(self.comps[-5:])
            args = self.args_for(t, env)
            if args is None:
                f = Field(name, self.scalar())
            else:
                if self.subs and self.chance(0.2):
                    ss = [s for s in self.subs if s.base() is t]
                    f = Field(name, r.choice(ss) if ss else t, args)
                else:
                    f = Field(name, t, args)
        elif o.subtypes and self.subs and self.chance(0.15):
            f = Field(name, r.choice(self.subs))
        elif o.dynbits and self.chance(0.1):
            w = [p for p in env.widths]
            if w and self.chance(0.7):
                e = r.choice(w)
            elif env.ints and self.chance(0.5):
                p = r.choice(env.ints)
                e = E("%s %% 30 + 1" % p.zs(), lambda x, p=p: p.ev(x) % 30 + 1)
            else:
                e = lit(r.randint(1, 64))
            f = Field(name, DynBit(self.chance(0.5), e))
        else:
            f = Field(name, self.scalar())
        if self.chance(0.33):
            f.array = r.choice(["auto", "auto", "fixed"])
            if f.array == "fixed":
                f.length = self.length(env)
            b = f.type.base()
            if self.chance(o.packed) and (isinstance(b, TParam) or type_packable(b)) or \
                    (self.chance(0.03) and not b.is_compound):
                f.packed = True
        return f

    def args_for(self, t, env):
        t = t.base()
        if not t.is_compound or not t.params:
            return []
        r = self.rng
        args = []
        for pt, pn in t.params:
            b = pt.base()
            if b.is_compound:
                c = [p for p, ct in env.comps if ct is b]
                if not c:
                    return None
                args.append(r.choice(c))
            elif isinstance(b, Bool):
                c = list(env.bools) + [lit(True), lit(False)]
                if env.ints:
                    p = r.choice(env.ints)
                    c.append(E("%s > 2" % p.zs(), lambda x, p=p: p.ev(x) > 2))
                args.append(r.choice(c))
            elif isinstance(b, Enum):
                c = [p for p, e in env.enums if e is b]
                it = r.choice([i for i in b.items if not i[2]])
                c.append(E("%s.%s" % (b.name, it[0]), lambda x, v=it[1]: v))
                args.append(r.choice(c))
            elif isinstance(b, Bitmask):
                c = [p for p, e in env.masks if e is b]
                it = r.choice(b.items)
                c.append(E("%s.%s" % (b.name, it[0]), lambda x, v=it[1]: v))
                args.append(r.choice(c))
            else:
                c = [lit(r.randint(0, 5))]
                c += [p for p in env.ints if getattr(p, "itype", None) == b.code] * 3
                args.append(r.choice(c))
        return args

    def maybe_constraint(self, f, p=0.15):
        r = self.rng
        if not self.o.constraints or not self.chance(p) or f.name == "":
            return
        t = f.type.base()
        n = f.name
        if f.array:
            k = r.randint(4, 9)
            if f.array == "auto":
                f.constraint = E("lengthof(%s) <= %s" % (n, spell(k)), lambda x: len(x.val.f[n]) <= k)
                f.maxlen = k
        elif isinstance(t, Int):
            v = self.int_value(t)
            if t.code == "varint" and v == t.lo:
                v = -7
            kind = r.choice(["<=", ">=", "!=", "between"])
            # known finding: C++ compares signed fields with literals above 0xFFFFFFFF as unsigned numbers
            lim = (lambda x: min(x, 0xFFFFFFFF)) if t.lo < 0 and kind != "!=" else (lambda x: x)
            v = lim(v)
            if kind == "between":
                a, b = sorted([max(t.lo, min(t.hi, v)), lim(self.int_value(t))])
                if t.code == "varint" and a == t.lo:
                    a += 1
                if a == -(1 << 63):
                    a += 1
                f.constraint = E("%s >= %s && %s <= %s" % (n, spell(a), n, spell(b)), lambda x: a <= x.val.f[n] <= b)
                f.bounds = (a, b)
            elif kind == "!=":
                if v == -(1 << 63):
                    v += 1
                f.constraint = E("%s != %s" % (n, spell(v)), lambda x: x.val.f[n] != v)
            else:
                if v == -(1 << 63):
                    v += 1
                f.constraint = cmp_expr(Path([n]), kind, v)
                f.bounds = (t.lo, v) if kind == "<=" else (v, t.hi)
        elif isinstance(t, Enum) and len(t.items) > 1:
            it = r.choice(t.items)
            f.constraint = E("%s != %s.%s" % (n, t.name, it[0]), lambda x: x.val.f[n] != it[1])
        elif isinstance(t, Bool):
            pass

    def init_for(self, f):
        r = self.rng
        t = f.type.base()
        if f.array or not self.o.inits or not self.chance(0.25):
            return
        if isinstance(t, Int):
            v = self.int_value(t)
            if t.code == "varint" and v == t.lo or v == -(1 << 63):
                v = 5
            b = getattr(f, "bounds", None)
            if b:
                v = b[0]
            f.init = (str(v), v)
        elif isinstance(t, Bool):
            f.init = r.choice([("true", True), ("false", False)])
        elif isinstance(t, Str):
            f.init = r.choice([('"abc"', "abc"), ('"x y"', "x y"), ('""', "")])
        elif isinstance(t, Float):
            d = r.choice([1.0, -2.5, 0.125, 1000.0])
            f.init = (repr(d) + ("f" if t.bits < 64 else ""), t.from_double(d))
        elif isinstance(t, Enum):
            it = r.choice([i for i in t.items if i[2] != "removed"])
            f.init = ("%s.%s" % (t.name, it[0]), it[1])
        elif isinstance(t, Bitmask):
            it = r.choice(t.items)
            f.init = ("%s.%s" % (t.name, it[0]), it[1])

    def struct_fields(self, c, env, root, tparam):
        r = self.rng
        o = self.o
        n = r.randint(*o.fields) + (4 if root else 0)
        self.control_fields(c, env, root)
        pend = []
        for i in range(n):
            if o.offsets and self.chance(0.12 if o.offsets is True else o.offsets):
                # an offset and (later) the field it points to
                ot = Int(r.choice(OFFSET_TYPES))
                f = Field(self.fname(), ot)
                f.role = "offset"
                f.used_as_offset = True
                if self.chance(0.35):
                    f.array = r.choice(["auto", "fixed"])
                    if f.array == "fixed":
                        f.length = self.length(env)
                elif self.chance(0.35):
                    # the offset lives in a header, and the field may live in a body which gets the header
                    pend += self.offset_header(c, env, f)
                    continue
                c.fields.append(f)
                pend.append((f, Path([f.name], index=bool(f.array))))
                continue
            f = self.typed_field(env, c, tparam)
            self.maybe_constraint(f)
            if o.align and self.chance(0.1 if o.align is True else o.align):
                f.align = r.choice([1, 2, 3, 4, 7, 8, 8, 16, 32, 64])
            if pend and self.chance(0.6):
                f = self.offset_target(f, *pend.pop(0))
            if o.optional and f.offset is None and self.chance(0.22):
                e = self.cond(env)
                f.optional = e if e is not None and self.chance(0.5) else True
            if o.optional and f.offset is not None and not f.offset.index and self.chance(0.2):
                f.optional = True
            self.init_for(f)
            if f.init is not None and f.optional is not None and self.chance(0.5):
                f.init = None
            c.fields.append(f)
            self.expose(f, env, Path([f.name]))
        for of in pend:
            # never left dangling
            c.fields.append(self.offset_target(Field(self.fname(), self.int_type()), *of))
        if not root and o.recursion and not c.params and not tparam and self.chance(0.06):
            f = Field(self.fname(), c)
            f.optional = True
            f.role = "recursive"
            c.fields.append(f)
        if root and o.extend and self.chance(0.4):
            for _ in range(r.randint(1, 3)):
                f = self.typed_field(env, c, tparam)
                f.extend = True
                if self.chance(0.4):
                    f.optional = True
                self.init_for(f)
                if f.type.base().is_compound or f.type.base() is None:
                    pass
                c.fields.append(f)
        elif root and o.implicit and self.chance(0.3):
            f = Field(self.fname(), r.choice([Int(r.choice(FIXED_INTS)), Int("bit:24"), Int("int:40"), Float(32),
                                              Float(16), Float(64)]))
            f.array = "implicit"
            c.fields.append(f)

    def offset_target(self, f, of, path):
        f.offset = path
        if not of.array:
            return f
        if not f.array:
            f = Field(f.name, f.type, f.args, align=f.align)
        f.offset = path
        f.array = of.array
        f.length = of.length
        f.match = path.names
        b = f.type.base()
        f.packed = self.chance(0.4) and (isinstance(b, TParam) or type_packable(b))
        f.constraint = None
        return f

    def offset_header(self, c, env, f):
        """Header (and perhaps a body) with the offset field f; returns what is still to be placed."""
        h = Compound("struct", c.pkg, "Head%d" % self.uid(), [], [f])
        if self.chance(0.5):
            h.fields.insert(0, Field(self.fname(), self.int_type()))
        self.schema.add(h)
        hf = Field(self.fname(), h)
        c.fields.append(hf)
        if self.chance(0.5):
            return [(f, Path([hf.name, f.name]))]
        pn = "p%d" % self.uid()
        body = Compound("struct", c.pkg, "Body%d" % self.uid(), [(h, pn)], [])
        if self.chance(0.5):
            body.fields.append(Field(self.fname(), self.scalar()))
        t = Field(self.fname(), self.int_type())
        t.offset = Path([pn, f.name])
        body.fields.append(t)
        self.schema.add(body)
        c.fields.append(Field(self.fname(), body, [Path([hf.name])]))
        return []

    def control_fields(self, c, env, root):
        """Fields which control others: lengths, widths, flags, selectors."""
        r = self.rng
        for _ in range(r.randint(1, 4) if root else r.randint(0, 2)):
            k = r.random()
            if k < 0.5:
                f = Field(self.fname(), Int(r.choice(["uint8", "uint16", "bit:5", "uint32", "varsize", "varuint16"])))
                f.role = "len"
            elif k < 0.65:
                f = Field(self.fname(), BOOL)
            elif k < 0.8 and self.enums:
                f = Field(self.fname(), r.choice(self.enums))
            elif k < 0.9 and self.bitmasks:
                f = Field(self.fname(), r.choice(self.bitmasks))
            else:
                f = Field(self.fname(), Int("uint8"))
                f.role = "width"
                n = f.name
                f.constraint = E("%s >= 1 && %s <= 64" % (n, n), lambda x, n=n: 1 <= x.val.f[n] <= 64)
            c.fields.append(f)
            self.expose(f, env, Path([f.name]))

    def expose(self, f, env, p):
        if f.optional is not None or f.extend:
            return
        t = f.type.base()
        if isinstance(t, TParam):
            return
        if f.array:
            if not f.offset and not f.used_as_offset and f.array != "implicit":
                env.arrays.append(p)
            return
        if f.role == "len":
            p.itype = t.code
            env.ints.append(p)
        elif f.role == "width":
            env.widths.append(p)
        elif isinstance(t, Bool):
            env.bools.append(p)
        elif isinstance(t, Enum):
            env.enums.append((p, t))
        elif isinstance(t, Bitmask):
            env.masks.append((p, t))
        elif t.is_compound and t.kind == "struct":
            env.add_comp(p, t)

    def build(self):
        o = self.o
        s = self.schema
        r = self.rng
        pkgs = [self.pkg]
        for i in range(1, o.packages):
            pkgs.append("%slib%d.%s" % (self.pkg, i, r.choice(["sub", "types", "inner"])))
        for p in pkgs:
            s.package(p)
        # libraries first, so that the root can use all
        for p in reversed(pkgs):
            for q in pkgs[pkgs.index(p) + 1:]:
                s.imports[p].append(q + ".*")
            for _ in range(r.randint(1, 2)):
                self.new_enum(p)
            if self.chance(0.8):
                self.new_bitmask(p)
            if self.chance(0.7):
                k = Const(p, Int("uint16"), "CONST%d" % self.uid(), "", r.randint(0, 5))
                k.txt = str(k.value)
                s.add(k)
                self.consts.append(k)
            n = max(1, o.compounds // len(pkgs))
            for _ in range(n):
                if o.subtypes and self.chance(0.3):
                    self.new_subtype(p)
                if o.templates and self.chance(0.25):
                    self.comps += self.new_template(p)
                else:
                    self.comps.append(self.new_compound(p))
        root = self.new_compound(pkgs[0], "struct", root=True)
        s.roots.append(root)
        for c in s.compounds():
            if c is not root and not c.params and not c.num_extended():
                s.roots.append(c)
        return s

    def new_template(self, pkg):
        r = self.rng
        tp = TParam("T")
        save, self.comps = self.comps, list(self.comps)
        keep_fun, self.o.functions = self.o.functions, False
        rec, self.o.recursion = self.o.recursion, False
        t = self.new_compound(pkg, r.choice(["struct", "union"]), tparam=tp, nopar=True)
        self.o.functions, self.o.recursion = keep_fun, rec
        self.comps = save
        t.name = "Templ%d" % self.uid()
        for f in t.fields:
            if isinstance(f.type, TParam):
                f.init = None
        if not any(isinstance(f.type, TParam) for f in t.fields):
            t.fields.append(Field(self.fname(), tp))
        out = []
        seen = set()
        for _ in range(r.randint(1, 2)):
            cand = [self.int_type(), STR, self.int_type()] + self.enums + [
                c for c in save if c.kind == "struct" and not c.params and not c.template]
            a = r.choice(cand)
            if a.zs() in seen:
                continue
            seen.add(a.zs())
            explicit = "Inst%d" % self.uid()
            inst = instantiate(t, {tp.name: a}, pkg, explicit)
            self.schema.add(inst)
            out.append(inst)
        return out

    # ---- values
    def int_value(self, t):
        r = self.rng
        lo, hi = t.lo, t.hi
        k = r.random()
        if k < 0.12:
            return lo
        if k < 0.24:
            return hi
        if k < 0.36:
            return max(lo, min(hi, r.choice([0, 1, -1, 2, 3])))
        if k < 0.75:
            e = r.randint(0, 64)
            v = (1 << e) + r.choice([-1, 0, 1])
            if t.signed and r.random() < 0.5:
                v = -v
            if lo <= v <= hi:
                return v
        if k < 0.9:
            n = r.randint(1, max(1, hi.bit_length()))
            v = r.getrandbits(n)
            if t.signed and r.random() < 0.5:
                v = -v
            return max(lo, min(hi, v))
        return r.randint(lo, hi)

    def str_value(self):
        r = self.rng
        k = r.random()
        if k < 0.15:
            return ""
        if k < 0.6:
            return "".join(r.choice("abcXYZ 019_-") for _ in range(r.randint(1, 12)))
        if k < 0.9:
            return "".join(r.choice("a\"\\/\n\t\r\x01\x1f\x7fé€ß漢\u2028😀𝄞{}[]:,") for _ in range(r.randint(1, 8)))
        return "y" * r.choice([127, 128, 130, 300])

    def float_value(self, t, nan=False):
        r = self.rng
        eb, mb = {16: (5, 10), 32: (8, 23), 64: (11, 52)}[t.bits]
        k = r.random()
        sign = r.getrandbits(1) << (t.bits - 1)
        if k < 0.2:
            return sign
        if k < 0.3:
            return sign | ((1 << eb) - 1) << mb
        if k < 0.45:
            return sign | r.choice([1, (1 << mb) - 1, r.getrandbits(mb)])
        if k < 0.55:
            return sign | ((1 << eb) - 2) << mb | r.choice([(1 << mb) - 1, 0])
        if nan and k < 0.6:
            return ((1 << eb) - 1) << mb | 1 << (mb - 1)
        return sign | r.randint(0, (1 << eb) - 2) << mb | r.getrandbits(mb)

    nan = False

    def simple_value(self, t, ctx, f=None):
        r = self.rng
        t = t.base()
        if f is not None and getattr(f, "pool", None):
            return r.choice(f.pool)
        if isinstance(t, DynBit):
            t = t.inst(ctx)
        if isinstance(t, Int):
            if f is not None:
                if f.role == "len":
                    return min(t.hi, r.choice([0, 1, 2, 3, 4, 2, 3, 5]))
                if f.role == "width":
                    return r.randint(1, 64)
                if f.role == "offset":
                    return 0
                b = getattr(f, "bounds", None)
                if b:
                    v = self.int_value(t)
                    return v if b[0] <= v <= b[1] else r.choice([b[0], b[1], r.randint(*b)])
            return self.int_value(t)
        if isinstance(t, Bool):
            return self.chance(0.5)
        if isinstance(t, Str):
            return self.str_value()
        if isinstance(t, Bytes):
            return bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 2, 3, 7, 20])))
        if isinstance(t, Extern):
            n = r.choice([0, 1, 3, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 100])
            return (n, r.getrandbits(n) if n else 0)
        if isinstance(t, Float):
            return self.float_value(t, self.nan)
        if isinstance(t, Enum):
            return r.choice([i[1] for i in t.items if i[2] != "removed"])
        if isinstance(t, Bitmask):
            if self.chance(0.6):
                v = 0
                for i in t.items:
                    if self.chance(0.5):
                        v |= i[1]
                return v
            return self.int_value(t.under)
        raise AssertionError(t)

    def value(self, t, params=(), depth=0):
        """Random valid value (offsets not yet initialized); raises Reject if none could be made."""
        v = Val(t, params)
        ctx = Ctx(v)
        r = self.rng
        if t.kind == "struct":
            nx = t.num_extended()
            if nx:
                v.ext = r.choice([0, nx, nx, r.randint(0, nx)])
            ext = 0
            for f in t.fields:
                if f.extend:
                    if ext >= v.ext:
                        break
                    ext += 1
                self.field_value(v, f, ctx, depth)
        elif t.kind == "union":
            order = list(t.fields)
            r.shuffle(order)
            v.sel = order[0].name
            self.field_value(v, order[0], ctx, depth)
        else:
            f = select_case(v)
            if f is None:
                raise Reject("no match")
            if not isinstance(f.type, Nothing):
                v.sel = f.name
                self.field_value(v, f, ctx, depth)
        return v

    def field_value(self, v, f, ctx, depth):
        r = self.rng
        self.budget -= 1
        if self.budget < 0:
            raise GiveUp
        if f.optional is True:
            if f.role == "recursive":
                if depth > 2 or not self.chance(0.5):
                    return
            elif not self.chance(0.6):
                return
        elif f.optional is not None and not f.optional.ev(ctx):
            return
        for attempt in range(5 if f.elem().is_compound else 30):
            try:
                if f.array:
                    v.f[f.name] = self.array_value(v, f, ctx, depth)
                elif f.elem().is_compound:
                    v.f[f.name] = self.value(f.elem(), [a.ev(ctx) for a in f.args], depth + 1)
                else:
                    v.f[f.name] = self.simple_value(f.type, ctx, f)
                if f.constraint is None or f.constraint.ev(ctx):
                    return
            except Reject:
                if f.optional is True:
                    v.f.pop(f.name, None)
                    return
                continue
        v.f.pop(f.name, None)
        if f.optional is True:
            return
        raise Reject("no value for " + f.name)

    def array_value(self, v, f, ctx, depth):
        r = self.rng
        t = f.elem()
        if f.array == "fixed":
            n = f.length.ev(ctx)
            if n > 4000:
                raise Reject("array too long")
        else:
            n = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 9])
            if depth > 1 and t.is_compound:
                n = min(n, 3)
            if not t.is_compound and self.chance(0.04):
                n = r.choice([127, 128, 129, 200])
            if getattr(f, "match", None):
                n = len(Path(f.match).ev(ctx))
            ml = getattr(f, "maxlen", None)
            if ml is not None:
                n = min(n, ml)
        out = []
        v.f[f.name] = out
        mode = r.choice(["rand", "near", "const", "seq"])
        self.budget -= n
        if self.budget < 0:
            raise GiveUp
        for i in range(n):
            ictx = Ctx(ctx.val, i)
            if t.is_compound:
                for _ in range(8):
                    try:
                        e = self.value(t, [a.ev(ictx) for a in f.args], depth + 1)
                        break
                    except Reject:
                        e = None
                if e is None:
                    raise Reject("no element")
                if mode in ("near", "const") and out and self.chance(0.7):
                    perturb(self, out[-1], e, mode)
                out.append(e)
            else:
                x = self.simple_value(f.type, ictx, f)
                b = t.inst(ictx) if isinstance(t, DynBit) else t
                if out and isinstance(b, Int):
                    lo, hi = b.lo, b.hi
                    if mode == "const":
                        x = out[-1]
                    elif mode == "near":
                        x = max(lo, min(hi, out[-1] + r.randint(-3, 3)))
                    elif mode == "seq":
                        x = max(lo, min(hi, out[-1] + 1 + len(out) % 2))
                out.append(x)
        return out


def perturb(gen, prev, cur, mode):
    """Makes unconstrained integer fields of cur similar to those of prev (packing pays off then)."""
    if prev.t is not cur.t or prev.sel != cur.sel:
        return
    for f in cur.t.fields:
        if (f.array or f.constraint is not None or f.role or f.name not in cur.f or f.name not in prev.f or
                getattr(f, "bounds", None) or getattr(f, "pool", None)):
            continue
        t = f.elem()
        a, b = prev.f[f.name], cur.f[f.name]
        if a is None or b is None:
            continue
        if isinstance(t, Int):
            d = 0 if mode == "const" else gen.rng.randint(-4, 4)
            cur.f[f.name] = max(t.lo, min(t.hi, a + d))
        elif t.is_compound and t.kind == "struct":
            perturb(gen, a, b, mode)


def cmp_expr(p, op, k):
    import operator
    fn = {"<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge, "==": operator.eq,
          "!=": operator.ne}[op]
    return E("%s %s %s" % (p.zs(), op, spell(k)), lambda x: fn(p.ev(x), k))


class Env:
    def __init__(self):
        self.ints, self.bools, self.enums, self.masks, self.arrays, self.widths, self.comps = [], [], [], [], [], [], []

    def add_comp(self, p, t):
        self.comps.append((p, t))
        # one level into the compound
        for f in t.fields:
            if f.optional is not None or f.extend or f.array:
                continue
            q = Path(p.names + [f.name])
            b = f.type.base()
            if f.role == "len":
                q.itype = b.code
                self.ints.append(q)
            elif isinstance(b, Bool):
                self.bools.append(q)
            elif isinstance(b, Enum):
                self.enums.append((q, b))


def instantiate(t, mapping, pkg, explicit):
    """Instance of a template with the type arguments in place."""
    def sub(ty):
        return mapping[ty.name] if isinstance(ty, TParam) else ty
    c = Compound(t.kind, pkg, explicit, t.params, [], [], t.on,
                 template=(t, [mapping[p] for p in t.tparams], explicit))
    for f in t.fields:
        g = Field(f.name, sub(f.type), f.args, f.array, f.length, f.packed, f.optional, f.align, f.offset, f.init,
                  f.constraint, f.extend, f.doc, f.cases)
        g.used_as_offset, g.role = f.used_as_offset, f.role
        for a in ("bounds", "maxlen", "match"):
            if hasattr(f, a):
                setattr(g, a, getattr(f, a))
        c.fields.append(g)
    return c


def gen_schema(seed, opts=None, pkg="zt"):
    rng = random.Random(seed)
    g = Gen(rng, opts, pkg)
    g.build()
    return g


def gen_value(gen, rng, root, tries=25):
    """A valid value of a parameterless root with initialized offsets, or None."""
    gen.rng = rng
    for _ in range(tries):
        try:
            gen.budget = 2500
            v = gen.value(root)
            layout(v)
            n, b = encode(v)
            if n > 60000:
                continue
            if v.ext and decode(v.t, v.params, n, b)[0].ext != v.ext:
                continue        # the last extended field has no bits, it cannot be told from an absent one
            return v
        except (Reject, GiveUp):
            continue
    return None
