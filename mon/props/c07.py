"""C07: verdicts of is_encodable / is_encodable_type compared with what encode then does."""
from .. import gen, refabi as R, zoo
from ..api import X, ABICodec, ABIEncoder, encode, encode_packed, is_encodable, is_encodable_packed, is_encodable_type, default_registry
from eth_abi.encoding import BaseEncoder
from eth_abi.packed import default_encoder_packed
from eth_abi.registry import registry_packed
from .c06 import repr_

QUICK_S, THOROUGH_S = 28, 500
RULE = ("a case is (codec, type string, value): valid values, near misses, zoo values and planted faults against valid, invalid and "
        "unknown types, for the standard, packed and custom-registry codecs; the verdict is compared with encode of that single "
        "value and the value with a snapshot of itself. Non-trivial: distinct by (codec, type, printed value).")
NEED = {"large_faults": 100, "true": 3000, "false": 3000, "packed": 2000, "custom": 300, "types": 500, "iterators": 20}
ASSUMPTIONS = ["custom encoders refuse values with EncodingError, as their documentation requires"]

BAD_TYPES = ["", " ", "foo", "uint7", "uint512", "uint0", "int264", "bytes33", "bytes0", "uint8[", "uint8]", "(uint8", "uint8)", "()", "(),uint8", "uint8,uint8",
             "uint8[-1]", "uint8[0]", "uint8 ", " uint8", "uint8[2] ", "string8", "address20", "bool8", "fixed8", "fixed8x0", "fixed8x81", "ufixed7x1", "ufixed264x1",
             "uint8x8", "bytes8x8", "function8", "hash", "hash32", "byte1", "Uint8", "UINT8", "tuple", "uint8[][", "(uint8,)", "(,uint8)", "(uint7)", "uint7[]",
             "(string,uint7)[]", "foo[]", "(foo)", "uint08", "uint8[02]", "uint\u0668", "uint8\n", "(())", "(uint8)x", "[]", "[2]", "x", "int256int256"]


def refused(e):
    return isinstance(e, X.EncodingError)


def judge(ctx, name, isenc, enc, typ, v, kind):
    snap = zoo.plain(v)
    first = ctx.rng.random() < 0.5
    if first:
        e = ctx.call(enc, [typ], [v])
        a = ctx.call(isenc, typ, v)
    else:
        a = ctx.call(isenc, typ, v)
        if zoo.plain(v) != snap:
            ctx.violate("asking is_encodable changed the value", codec=name, type=typ, before=snap, after=v)
            return
        e = ctx.call(enc, [typ], [v])
    ctx.ev("evaluations")
    ctx.ev(kind)
    ctx.ev(name)
    ctx.mark(name, typ, repr_(v))
    if not a.ok or a.v is not True and a.v is not False:
        ctx.violate("is_encodable did not answer True or False", codec=name, type=typ, value=v, got=a.brief(), encode=e.brief())
    elif a.v != e.ok:
        ctx.violate("is_encodable disagrees with encode", codec=name, type=typ, value=v, is_encodable=a.v, encode=e.brief(), encode_first=first)
    else:
        ctx.ev("true" if a.v else "false")
        if zoo.plain(v) != snap:
            ctx.violate("is_encodable or encode changed the value", codec=name, type=typ, before=snap, after=v)


def judge_type(ctx, name, codec, typ):
    a = ctx.call(codec.is_encodable_type, typ)
    e = ctx.call(codec.encode, [typ], [zoo.Obj()])
    found = e.ok or refused(e.e)
    ctx.ev("evaluations")
    ctx.ev("types")
    ctx.mark("type", name, typ)
    if not (a.ok and a.v is found):
        ctx.violate("is_encodable_type disagrees with encode", codec=name, type=typ, got=a.brief(), encode=e.brief())


def iterators(ctx, name, isenc):
    for typ in ("uint8[]", "uint8[2]", "(uint8,uint8)", "string", "bytes", "uint8", "(uint8,uint8)[]"):
        for mk in (lambda: iter([1, 2]), lambda: (x for x in (1, 2)), lambda: map(int, "12")):
            it = mk()
            a = ctx.call(isenc, typ, it)
            left = list(it)
            ctx.ev("evaluations")
            ctx.ev("iterators")
            if not (a.ok and a.v is False and left == [1, 2]):
                ctx.violate("is_encodable consumed or accepted an iterator", codec=name, type=typ, got=a.brief(), left=left)
            it = mk()
            a = ctx.call(isenc, "uint8[][]", [[1], it])
            left = list(it)
            ctx.ev("evaluations")
            if not (a.ok and a.v is False and left == [1, 2]):
                ctx.violate("is_encodable consumed or accepted a nested iterator", codec=name, got=a.brief(), left=left)


class Even(BaseEncoder):
    """A static one-word custom encoder that takes even ints."""

    def validate_value(self, value):
        if type(value) is not int or value % 2 or abs(value) >= 2**255:
            self.invalidate_value(value)

    def encode(self, value):
        self.validate_value(value)
        return value.to_bytes(32, "big", signed=True)

    @classmethod
    def from_type_str(cls, type_str, registry):
        return cls()


class Blob(BaseEncoder):
    is_dynamic = True

    def validate_value(self, value):
        if type(value) is not bytes or len(value) > 9:
            self.invalidate_value(value, exc=X.ValueOutOfBounds)

    def encode(self, value):
        self.validate_value(value)
        return len(value).to_bytes(32, "big") + value.ljust(32, b"\0")

    @classmethod
    def from_type_str(cls, type_str, registry):
        return cls()


def none_only(value):
    if value is not None:
        raise X.IllegalValue("not None")
    return bytes(32)


def custom_codec(base):
    reg = base.copy()
    reg.register_encoder("even", Even, label="even")
    reg.register_encoder("evinst", Even())
    reg.register_encoder("blob", Blob)
    reg.register_encoder("none", none_only)
    reg.register_encoder(lambda s: s.startswith("odd") and s[3:].isdigit(), none_only, label="odd")
    return reg


CUSTOM_TYPES = ["even", "evinst", "blob", "none", "odd8", "odd"]


def custom_value(r, s):
    return r.choice([0, 2, 3, -4, None, b"", b"abc", b"0123456789", "x", True, [], 2**200, 10**5000, 1.0])


def run(ctx):
    g, r = ctx.g, ctx.rng
    std = ("standard", is_encodable, encode)
    pk = ("packed", is_encodable_packed, encode_packed)
    cc = ABICodec(custom_codec(default_registry))
    cp = ABIEncoder(custom_codec(registry_packed))
    customs = [("custom", cc.is_encodable, cc.encode), ("custom_packed", cp.is_encodable, cp.encode)]
    if ctx.shard == 0:
        iterators(ctx, "standard", is_encodable)
        iterators(ctx, "packed", is_encodable_packed)
    for ts, vs in gen.large_value_faults(ctx, g):
        judge(ctx, *r.choice([std, pk]), ts[0].s, vs[0], "large_faults")
    from eth_abi.abi import default_codec

    for typ in gen.share(BAD_TYPES + gen.BASIC_SAMPLE + zoo.ZOO_TYPES + CUSTOM_TYPES + ["even[]", "none[2]", "(blob,uint8)", "odd7[]"], ctx):
        for name, codec in (("standard", default_codec), ("packed", default_encoder_packed), ("custom", cc), ("custom_packed", cp)):
            judge_type(ctx, name, codec, typ)
    if ctx.shard == 1:
        for typ in (None, 5, b"uint8", ["uint8"], 1.5, ("uint8",)):
            judge(ctx, *std, typ, 1, "odd_types")
            judge(ctx, *pk, typ, 1, "odd_types")
    for typ in gen.share(BAD_TYPES, ctx):
        for v in (None, 0, 1, "", b"", [], [1], (), "a", True):
            judge(ctx, *std, typ, v, "bad_types")
            judge(ctx, *pk, typ, v, "bad_types")
    for s in gen.share(gen.BASIC_SAMPLE, ctx):
        t = R.basic(s)
        ok = g.rval(t)
        es = g.edges(t)
        for x in zoo.near_misses(g, t) + es[:3] + es[-3:] + [g.form(t, ok)]:
            judge(ctx, *std, s, x, "near")
            judge(ctx, *pk, s, x, "near")
            if ctx.thorough or r.random() < 0.3:
                for c in (std, pk):
                    judge(ctx, *c, s + "[]", [ok, x], "near_nested")
                    judge(ctx, *c, f"(string,{s}[2])[]", [("s", [x, ok])], "near_nested")
    for s in gen.share(zoo.ZOO_TYPES, ctx):
        for x in zoo.fixed_zoo():
            judge(ctx, *std, s, x, "zoo")
        for x in zoo.fixed_zoo():
            judge(ctx, *pk, s, x, "zoo")
        for x in zoo.fixed_zoo():
            judge(ctx, *std, s + "[]", [x], "zoo")
            judge(ctx, *pk, f"(uint8,{s})", (1, x), "zoo")
    for n in gen.share(list(range(1, 60)) + [128, 256], ctx):
        for item, x in (("uint8", 1), ("string", "a"), ("(uint8,bytes)", (1, b"")), ("uint8[2]", [1, 2])):
            for m in {0, n - 1, n, n + 1, 2 * n}:
                for c in (std, pk):
                    judge(ctx, *c, f"{item}[{n}]", [x] * m, "seq_len")
                    judge(ctx, *c, f"{item}[{n}][]", [[x] * n, [x] * m], "seq_len")
                    judge(ctx, *c, "(" + ",".join([item] * n) + ")", [x] * m, "seq_len")
    for s in gen.share(CUSTOM_TYPES * 3, ctx):
        for name, ie, en in customs:
            for _ in range(30):
                v, w = custom_value(r, s), custom_value(r, s)
                judge(ctx, name, ie, en, s, v, "custom")
                judge(ctx, name, ie, en, s + "[]", [v, w], "custom")
                judge(ctx, name, ie, en, s + "[2]", [v, w], "custom")
                judge(ctx, name, ie, en, f"({s},uint8)", (v, 1), "custom")
                judge(ctx, name, ie, en, f"(string,{s})[]", [("a", v), ("b", w)], "custom")
                judge(ctx, name, ie, en, f"{s}[][2]", [[v], [w, v]], "custom")
    for t, v in zoo.long_values(g, lambda xs: gen.share(xs, ctx)):
        judge(ctx, *(std if r.random() < 0.6 else pk), t.s, v, "long")
    ctx.ev("systematic_done")
    n = 0
    while ctx.more():
        ts, vs = gen.rand_case(g, depth=4)
        if not ts:
            continue
        t, v = ts[0], vs[0]
        if r.random() < 0.3:
            v = g.form(t, v)
        else:
            v = zoo.plant(g, t, v)
        judge(ctx, *(std if r.random() < 0.6 else pk), t.s, v, "planted")
        if n < 3:
            ctx.sample("planted", (t.s, v))
        n += 1
