"""C13: custom coders of every kind in every position, against the reference model
extended with what each custom coder itself does."""
import dataclasses
import decimal
import functools
import itertools

from .. import gen, refabi as R, zoo
from ..api import ABICodec, ENC_EXC, DEC_EXC, X, default_registry
from eth_abi.decoding import BaseDecoder
from eth_abi.encoding import BaseEncoder
from eth_abi.registry import BaseEquals

QUICK_S, THOROUGH_S = 28, 600
RULE = ("a case is (registry with custom coders, type list, values or payload): static coders of 1 to 160 bytes and dynamic ones, as functions, "
        "partials, callable objects, bound methods, plain classes, coder classes and instances, under string, base and function lookups, alone and in compound types; "
        "encode, is_encodable and decode (canonical, rearranged and mutated payloads) are compared with the reference model. Non-trivial: the "
        "type contains a custom coder; distinct by (kind of coder, type, bytes or verdict).")
NEED = {"encoded": 5000, "decoded": 5000, "enc_refused": 1500, "dec_refused": 1500, "dynamic": 3000, "static_wide": 3000, "custom_error": 200, "opaque": 500,
        "kind_callable": 500, "kind_class": 500, "kind_instance": 500, "kind_slots": 300, "kind_method": 300, "kind_partial": 300, "kind_type": 300}
ASSUMPTIONS = ["custom coders are pure, read and write exactly their own data, are at least one byte wide and raise no StopIteration",
               "is_encodable is judged for refusals by EncodingError, as documented",
               "custom names are not malformed spellings of built-in types"]


class MyRefusal(X.EncodingError):
    pass


class MyDecodingError(X.DecodingError):
    pass


class Odd(Exception):
    pass


EXC = dict(ENC_EXC, R=MyRefusal, Z=ZeroDivisionError, A=AttributeError, O=Odd)
DEXC = dict(DEC_EXC, D=MyDecodingError, V=LookupError, O=Odd)
REFUSAL = set("TBIER")
MAGIC = {"zero": "Z", "attr": "A", "odd": "O"}


# ---- models -----------------------------------------------------------------------
class Int(R.Custom):
    """An unsigned integer in `width` bytes."""

    def __init__(self, width):
        self.width = width

    def check(self, v):
        if type(v) is str and v in MAGIC:
            return MAGIC[v]
        if type(v) is not int:
            return "T"
        if v < 0 or v >= 256**self.width:
            return "B"
        return "R" if v == 13 else ""

    def enc(self, v):
        return v.to_bytes(self.width, "big")

    def dec(self, d, p):
        d.steps += 1
        if d.steps > d.budget:
            raise R.Budget
        b = d.d[p : p + self.width]
        if len(b) < self.width:
            d.defects.add("S")
            return R.BAD
        e = {0xEE: "D", 0xDD: "V", 0xCC: "O"}.get(b[0])
        if e:
            d.defects.add(e)
            return R.BAD
        return ["int", int.from_bytes(b, "big")]

    def canon(self, v):
        return ["int", v]

    def rval(self, g):
        v = g.r.randrange(256 ** g.r.randint(1, self.width))
        return v if v != 13 and v.to_bytes(self.width, "big")[0] not in (0xEE, 0xDD, 0xCC) else 7

    # the coder itself
    def real_validate(self, v):
        for c in self.check(v):
            raise EXC[c]("refused")

    def real_encode(self, v):
        self.real_validate(v)
        return self.enc(v)

    def real_decode(self, s):
        b = s.read(self.width)
        if len(b) < self.width:
            raise X.InsufficientDataBytes("short")
        e = {0xEE: MyDecodingError, 0xDD: LookupError, 0xCC: Odd}.get(b[0])
        if e:
            raise e("poison")
        return ["int", int.from_bytes(b, "big")]


class Pas(Int):
    """Dynamic: one length byte, then the content; no padding at all."""

    dyn = True

    def __init__(self):
        pass

    def check(self, v):
        if type(v) is str and v in MAGIC:
            return MAGIC[v]
        if type(v) is not bytes:
            return "T"
        return "B" if len(v) > 255 else "R" if v == b"bad" else ""

    def enc(self, v):
        return bytes([len(v)]) + v

    def dec(self, d, p):
        d.steps += 1
        if d.steps > d.budget:
            raise R.Budget
        n = d.d[p : p + 1]
        if not n or len(d.d) < p + 1 + n[0]:
            d.defects.add("S")
            return R.BAD
        c = d.d[p + 1 : p + 1 + n[0]]
        if c[:1] == b"\xee":
            d.defects.add("D")
            return R.BAD
        return {"pas": c}

    def canon(self, v):
        return {"pas": v}

    def rval(self, g):
        v = g.rbytes(g.r.choice([0, 1, 2, 31, 32, 40, 255]))
        return b"x" if v == b"bad" or v[:1] == b"\xee" else v

    def real_decode(self, s):
        n = s.read(1)
        if not n:
            raise X.InsufficientDataBytes("short")
        c = s.read(n[0])
        if len(c) < n[0]:
            raise X.InsufficientDataBytes("short")
        if c[:1] == b"\xee":
            raise MyDecodingError("poison")
        return {"pas": c}


class Framed(Pas):
    """Dynamic: an offset word relative to its own start, 8 bytes of filler, then a Pas."""

    def enc(self, v):
        return R._word(40) + b"filling!" + Pas.enc(self, v)

    def dec(self, d, p):
        w = d.word(p)
        if w is None:
            return R.BAD
        off = int.from_bytes(w, "big")
        if off > 5000:
            d.defects.add("D")
            return R.BAD
        return Pas.dec(self, d, p + off)

    def real_decode(self, s):
        w = s.read(32)
        if len(w) < 32:
            raise X.InsufficientDataBytes("short")
        off = int.from_bytes(w, "big")
        if off > 5000:
            raise MyDecodingError("far")
        s.push_frame(off)
        try:
            return Pas.real_decode(self, s)
        finally:
            s.pop_frame()


class Opaque:
    """A value nothing but its own coder may look into."""

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return f"Opaque({self.k})"

    def _no(self, *a):
        raise Odd("a custom value was looked into")

    __eq__ = __ne__ = __hash__ = __bool__ = __len__ = __iter__ = __getitem__ = __lt__ = __int__ = __index__ = _no


ALIKE = [1, True, 1.0, decimal.Decimal(1), None, False, 0, 0.0, "", b"", (), [], {}, "1", b"1", float("nan")]


class Alike(Int):
    """A code word standing for a value; the values compare equal, are falsy, or refuse to be compared."""

    def __init__(self):
        self.width = 32

    def key(self, v):
        if type(v) is Opaque:
            return 100 + v.k
        if type(v) is decimal.Decimal and not v.is_finite():
            return None
        for i, x in enumerate(ALIKE):
            if type(x) is type(v) and (x is v or v == v and x == v):
                return i
        return None

    def check(self, v):
        return "T" if self.key(v) is None else ""

    def enc(self, v):
        return R._word(self.key(v))

    def dec(self, d, p):
        w = d.word(p)
        if w is None:
            return R.BAD
        k = int.from_bytes(w, "big")
        return ALIKE[k] if k < len(ALIKE) else Opaque(k - 100)

    def canon(self, v):
        return v

    def rval(self, g):
        return g.r.choice(ALIKE) if g.r.random() < 0.7 else Opaque(g.r.randrange(5))

    def real_decode(self, s):
        w = s.read(32)
        if len(w) < 32:
            raise X.InsufficientDataBytes("short")
        k = int.from_bytes(w, "big")
        return ALIKE[k] if k < len(ALIKE) else Opaque(k - 100)


@dataclasses.dataclass(frozen=True)
class Point:
    a: object
    b: object


class Wrapped(R.Custom):
    """A class coder built from the registry's coders for an inner tuple type."""

    def __init__(self, inner):
        self.t = R.tparse(inner)
        self.dyn = self.t.dyn
        self.width = self.t.hs

    def check(self, v):
        if not isinstance(v, Point):
            return "R"
        return R.faults(self.t, (v.a, v.b))

    def enc(self, v):
        return R.enc(self.t, (v.a, v.b))

    def dec(self, d, p):
        old, d.strict = d.strict, True  # it asked the registry for a strict decoder
        try:
            v = d.value(self.t, p)
        finally:
            d.strict = old
        return v if v is R.BAD else Point(*v)

    def canon(self, v):
        return Point(*R.canon(self.t, (v.a, v.b)))

    def rval(self, g):
        return Point(*g.rval(self.t))


# ---- making real coders of each kind ---------------------------------------------------
class Obj:
    def __init__(self, fn, dyn):
        self.fn = fn
        if dyn:
            self.is_dynamic = True

    def __call__(self, x):
        return self.fn(x)


class Slots:
    __slots__ = ("fn", "is_dynamic")

    def __init__(self, fn, dyn):
        self.fn, self.is_dynamic = fn, dyn

    def __call__(self, x):
        return self.fn(x)


class _Awkward:
    """False as a boolean, neither hashable nor comparable; only to be called."""

    __hash__ = None

    def __len__(self):
        return 0

    def __eq__(self, other):
        raise Odd("a coder was compared")

    def __iter__(self):
        raise Odd("a coder was iterated over")


class Falsy(_Awkward, Obj):
    pass


class Bound:
    def __init__(self, fn):
        self.fn = fn

    def go(self, x):
        return self.fn(x)


def _apply(fn, x):
    return fn(x)


def make_encoder(m, kind):
    if isinstance(m, Wrapped):
        class WEnc(BaseEncoder):
            inner = None

            @property
            def is_dynamic(self):
                return self.inner.is_dynamic

            def validate_value(self, v):
                if not isinstance(v, Point):
                    raise MyRefusal("no Point")
                self.inner.validate_value((v.a, v.b))

            def encode(self, v):
                self.validate_value(v)
                return self.inner((v.a, v.b))

            @classmethod
            def from_type_str(cls, type_str, registry):
                return cls(inner=registry.get_encoder(m.t.s))
        return WEnc
    if kind in ("class", "instance", "novalidate", "awkward"):
        class Enc(BaseEncoder):
            is_dynamic = m.dyn

            def validate_value(self, v):
                if kind != "novalidate":
                    m.real_validate(v)

            def encode(self, v):
                return m.real_encode(v)

            @classmethod
            def from_type_str(cls, type_str, registry):
                return cls()
        if kind == "awkward":
            return type("Awk", (_Awkward, Enc), {})()
        return Enc if kind == "class" else Enc()
    return make_callable(m.real_encode, kind, m.dyn)


def make_callable(fn, kind, dyn):
    if kind == "partial":
        f = functools.partial(_apply, fn)
        if dyn:
            f.is_dynamic = True
        return f
    if kind == "slots":
        return Slots(fn, dyn)
    if kind == "falsy":
        return Falsy(fn, dyn)
    if kind == "type":
        # a class that is no coder class: calling it gives the result
        return type("Plain", (), {"__new__": lambda cls, x: fn(x), **({"is_dynamic": True} if dyn else {})})
    if kind == "method" and not dyn:
        return Bound(fn).go
    if kind == "callable":
        def f(x):
            return fn(x)
        if dyn:
            f.is_dynamic = True
        return f
    return Obj(fn, dyn)


def make_decoder(m, kind):
    if isinstance(m, Wrapped):
        class WDec(BaseDecoder):
            inner = None

            @property
            def is_dynamic(self):
                return self.inner.is_dynamic

            def decode(self, s):
                return Point(*self.inner(s))

            @classmethod
            def from_type_str(cls, type_str, registry):
                return cls(inner=registry.get_decoder(m.t.s))
        return WDec
    if kind in ("class", "instance", "novalidate", "awkward"):
        class Dec(BaseDecoder):
            is_dynamic = m.dyn

            def decode(self, s):
                return m.real_decode(s)

            @classmethod
            def from_type_str(cls, type_str, registry):
                return cls()
        if kind == "awkward":
            return type("Awk", (_Awkward, Dec), {})()
        return Dec if kind == "class" else Dec()
    return make_callable(m.real_decode, kind, m.dyn)


KINDS = ["callable", "partial", "slots", "method", "object", "class", "instance", "type", "falsy", "awkward"]
NAMES = ["foo", "bar", "vec8", "vec16", "quux", "fooint", "zap8x4", "mystring", "Blob"]


class Setup:
    """A registry with custom coders, and the leaves it adds."""

    def __init__(self, ctx, widths=None):
        r = ctx.rng
        self.reg = default_registry.copy()
        self.leaves = []
        self.over = {}
        self.kinds = {}
        names = r.sample(NAMES, 7)
        models = [Int(w) for w in (widths or r.sample([1, 2, 5, 20, 31, 32, 32, 33, 64, 96, 100, 160], 3))]
        models += [Alike(), Pas(), Framed(), Wrapped(r.choice(["(uint8,string)", "(uint8,uint16[2])", "(bytes,(uint16,bytes4))", "(uint256,bytes3)"]))]
        for name, m in zip(names, models):
            self.add(r, name, m)
        if r.random() < 0.4:
            fam = r.choice(["bool", "address", "int"])
            m = r.choice([Int(32), Int(64), Pas()])
            self.reg.unregister(fam)
            k1, k2 = r.choice(KINDS), r.choice(KINDS)
            self.reg.register(BaseEquals(fam), make_encoder(m, k1), make_decoder(m, k2), label=fam)
            self.over[fam] = m
            self.kinds[fam] = (k1, k2)
        self.codec = ABICodec(self.reg)

    def add(self, r, name, m):
        k1, k2 = r.choice(KINDS), r.choice(KINDS)
        e, d = make_encoder(m, k1), make_decoder(m, k2)
        self.kinds[name] = (k1, k2)
        strs = [name]
        c = r.randrange(4)
        base = name.rstrip("0123456789x") if name[-1:].isdigit() else name
        if c == 0:
            self.reg.register(name, e, d)
        elif c == 1:
            self.reg.register(name, e, d, label="label of " + name)
        elif c == 2 and base not in ("vec",):
            self.reg.register(BaseEquals(base), e, d)
            strs.append(base + "64")
            self.kinds[base + "64"] = (k1, k2)
        else:
            self.reg.register(lambda s, n=name: s == n, e, d, label=name)
        self.leaves += [R.mk_custom(s, m) for s in strs]

    def kind_of(self, t):
        return self.kinds.get(t.s) or self.kinds.get(t.s.rstrip("0123456789")) or ("wrapped", "wrapped")

    def fix(self, t):
        """A built-in leaf as this registry sees it."""
        m = self.over.get(t.kind)
        if m is not None:
            return R.mk_custom(t.canon_s, m)
        return t

    def rtype(self, g, depth):
        r = g.r
        if depth <= 0 or r.random() < 0.25:
            return r.choice(self.leaves) if r.random() < 0.65 else self.fix(g.leaf())
        if r.random() < 0.5:
            return R.mk_tuple([self.rtype(g, depth - 1) for _ in range(r.randint(1, 4))])
        return R.mk_array(self.rtype(g, depth - 1), None if r.random() < 0.5 else r.choice([1, 2, 3]))


def customs(t, out):
    if t.kind == "custom":
        out.append(t)
    elif t.kind == "tuple":
        for c in t.items:
            customs(c, out)
    elif t.kind == "array":
        customs(t.item, out)
    return out


def same(a, b):
    if type(a) is not type(b):
        return False
    if type(a) is tuple or type(a) is list:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is Point:
        return same(a.a, b.a) and same(a.b, b.b)
    if type(a) is Opaque:
        return a.k == b.k
    if type(a) is float:
        return repr(a) == repr(b)
    return R.same(a, b)


def note(ctx, su, ts):
    for t in ts:
        for c in customs(t, []):
            if isinstance(c.m, Alike):
                ctx.ev("opaque")
            elif c.m.dyn:
                ctx.ev("dynamic")
            elif c.m.width != 32:
                ctx.ev("static_wide")
            k = su.kind_of(c)
            for x in set(k):
                ctx.ev("kind_" + x)
            return k
    return None


def judge_encode(ctx, su, ts, vs, kind):
    names = gen.strs(ts)
    try:
        codes = set()
        for t, v in zip(ts, vs):
            R.faults(t, v, codes)
    except R.Unspecified:
        return
    k = note(ctx, su, ts)
    o = ctx.call(su.codec.encode, names, vs)
    ctx.ev("evaluations")
    ctx.ev(kind)
    ctx.mark(k, names, zoo.plain(vs) if codes else o.v)
    if not codes:
        want = R.enc_seq(ts, vs)
        ctx.ev("encoded")
        if not (o.ok and type(o.v) is bytes and o.v == want):
            ctx.violate("encode with custom coders differs from the ABI layout", types=names, values=vs, kinds=su.kinds, got=o.v.hex() if o.ok else o.brief(), want=want.hex())
            return None
    else:
        if "K1" in codes:
            return None
        ctx.ev("enc_refused")
        if codes - REFUSAL:
            ctx.ev("custom_error")
        if o.ok or not isinstance(o.e, tuple(EXC[c] for c in codes)):
            ctx.violate("encode did not raise what the custom or built-in coder raises", types=names, values=vs, kinds=su.kinds, got=o.brief(), want=sorted(codes))
            return None
    for t, v in zip(ts, vs):
        cs = R.faults(t, v)
        if cs - REFUSAL:
            continue
        a = ctx.call(su.codec.is_encodable, t.s, v)
        ctx.ev("evaluations")
        if not (a.ok and a.v is (not cs)):
            ctx.violate("is_encodable is wrong for a type with custom coders", type=t.s, value=v, kinds=su.kinds, got=a.brief(), want=not cs)
    return None if codes else o.v


def judge_decode(ctx, su, ts, data, kind):
    names = gen.strs(ts)
    strict = ctx.rng.random() < 0.7
    try:
        want, defects = R.dec(ts, data, strict=strict, budget=4000)
    except R.Budget:
        ctx.ev("skipped")
        return
    o = ctx.call(su.codec.decode, gen.tform(ctx.rng, names), gen.dform(ctx.rng, data), strict=strict)
    ctx.ev("evaluations")
    ctx.ev(kind)
    ctx.mark(names, bytes(data), su.kind_of(customs(ts[0], [])[0]) if ts and customs(ts[0], []) else None)
    if want is not None:
        ctx.ev("decoded")
        good = o.ok and same(o.v, want)
    else:
        ctx.ev("dec_refused")
        if defects & {"D", "V", "O"}:
            ctx.ev("custom_error")
        good = not o.ok and isinstance(o.e, tuple(DEXC[c] for c in defects))
    if not good:
        ctx.violate("decode with custom coders differs from the ABI layout", types=names, data=bytes(data).hex(), strict=strict, kinds=su.kinds,
                    got=o.v if o.ok else o.brief(), want=want if want is not None else sorted(defects))


BADVALS = ["zero", "attr", "odd", 13, -1, 2**300, 256**160, "x", None, b"bad", b"a" * 256, b"ok", 5, Point(1, 2), Point(b"", (1, b"x")), [], True]


def plant(g, t, v):
    r = g.r
    if t.kind in ("tuple", "array") and len(v) and r.random() < 0.9:
        v = list(v)
        i = r.randrange(len(v))
        v[i] = plant(g, t.items[i] if t.kind == "tuple" else t.item, v[i])
        return v
    if t.kind == "custom":
        return r.choice(BADVALS)
    return zoo.plant(g, t, v)


def both(ctx, su, ts, vs, kind):
    b = judge_encode(ctx, su, ts, vs, kind)
    if b is None:
        return
    judge_decode(ctx, su, ts, b, kind)
    if ctx.rng.random() < 0.3:
        judge_decode(ctx, su, ts, gen.random_layout(ctx.g).build(ts, vs), "layouts")
    if ctx.rng.random() < 0.5:
        judge_decode(ctx, su, ts, gen.mutate(ctx.g, b), "mutants")


def twice_validated(ctx):
    """Depth: a callable leaf under many levels still decides."""
    su = Setup(ctx)
    for lf in su.leaves:
        t, v = lf, lf.m.rval(ctx.g)
        for d in range(1, 9):
            t, v = (R.mk_tuple([t]), (v,)) if d % 3 == 0 else (R.mk_array(t, None if d % 2 else 1), [v])
            both(ctx, su, [t], [v], "depth")
            judge_encode(ctx, su, [t], [plant(ctx.g, t, v)], "depth_bad")


def run(ctx):
    g, r = ctx.g, ctx.rng
    for i, w in enumerate(gen.share(list(range(1, 66)) + [95, 96, 97, 128, 160], ctx)):
        su = Setup(ctx, widths=[w, r.choice([32, 64]), 3])
        for lf in su.leaves if i % 3 == 0 else su.leaves[:1]:
            for ts, vs in gen.contexts(lf, lf.m.rval(g), lf.m.rval(g)):
                both(ctx, su, ts, vs, "contexts")
                judge_encode(ctx, su, ts, [plant(g, t, v) for t, v in zip(ts, vs)], "planted")
        if i == 0:
            ctx.sample("setup", su.kinds)
    # every kind on either side, every model
    for k1, k2 in gen.share(itertools.product(KINDS, KINDS), ctx):
        for m in (Int(32), Int(96), Int(7), Pas(), Framed(), Alike()):
            su = Setup(ctx)
            su.reg.register("thing", make_encoder(m, k1), make_decoder(m, k2))
            su.kinds["thing"] = (k1, k2)
            lf = R.mk_custom("thing", m)
            for ts, vs in gen.contexts(lf, m.rval(g), m.rval(g)):
                both(ctx, su, ts, vs, "kinds")
                if r.random() < 0.4:
                    judge_encode(ctx, su, ts, [plant(g, t, v) for t, v in zip(ts, vs)], "planted")
    twice_validated(ctx)
    ctx.ev("systematic_done")
    while ctx.more():
        su = Setup(ctx)
        for _ in range(25):
            ts = [su.rtype(g, r.choice([0, 1, 2, 2, 3])) for _ in range(r.choice([1, 1, 2, 3]))]
            vs = [g.rval(t) for t in ts]
            both(ctx, su, ts, vs, "random")
            judge_encode(ctx, su, ts, [plant(g, t, v) if r.random() < 0.6 else v for t, v in zip(ts, vs)], "planted")
        ctx.sample("random types", gen.strs(ts))
