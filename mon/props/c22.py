"""C22: misused entry points fail cleanly, and every error can be printed."""
import array
import collections
import sys
import traceback
import types

import eth_abi
from eth_abi import abi as A, codec as C, grammar as GR, packed as P, registry as RG

from .. import gen, refabi as R, zoo
from ..api import X
from . import c09

QUICK_S, THOROUGH_S = 24, 300
RULE = ("a case is a call with one argument replaced by an object of another kind, or of a subclass of the right kind, or with a count of values off "
        "by some number; plus hostile values, payloads and type strings whose errors are printed. Verdicts and exception classes are judged by a table; "
        "iterators are watched. Non-trivial: distinct by (entry point, position, kind of object, types).")
NEED = {"wrong_kind": 6000, "subclass_kind": 3000, "count": 3000, "no_types": 200, "printed": 10000, "not_a_type": 3000, "extra_data": 1000}
ASSUMPTIONS = ["where two arguments are wrong, either error is accepted", "objects that equal a type string without being one (UserString) are left out as types: they are found among remembered coders"]


class L(list):
    pass


class T(tuple):
    pass


class B(bytes):
    pass


class BA(bytearray):
    pass


class S(str):
    pass


class Seq(collections.abc.Sequence):
    def __init__(self, xs):
        self.xs = xs

    def __len__(self):
        return len(self.xs)

    def __getitem__(self, i):
        return self.xs[i]


class Watched:
    """An iterator that counts what is taken from it."""

    def __init__(self, xs):
        self.it, self.taken = iter(xs), 0

    def __iter__(self):
        return self

    def __next__(self):
        self.taken += 1
        return next(self.it)


class HasList:
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)

    def __len__(self):
        return len(self.xs)


class HasBytes:
    def __init__(self, b):
        self.b = b

    def __bytes__(self):
        return self.b

    def __len__(self):
        return len(self.b)

    def __getitem__(self, i):
        return self.b[i]


def not_lists(xs):
    """Objects that hold xs but are neither list nor tuple."""
    yield "iterator", Watched(xs)
    yield "generator", (x for x in xs)
    yield "str", "".join(x for x in xs if isinstance(x, str))
    yield "str of it", str(xs)
    yield "bytes", b"uint8"
    yield "bytearray", bytearray(3)
    yield "None", None
    yield "int", len(xs)
    yield "True", True
    yield "range", range(len(xs))
    yield "deque", collections.deque(xs)
    yield "UserList", collections.UserList(xs)
    yield "Sequence", Seq(xs)
    yield "iterable", HasList(xs)
    yield "map", map(lambda x: x, xs)
    yield "zip", zip(xs)
    yield "enumerate", enumerate(xs)
    yield "array", array.array("B", [1] * len(xs))
    yield "memoryview", memoryview(b"x" * len(xs))
    yield "dict by index", dict(enumerate(xs))
    yield "dict view", dict(enumerate(xs)).values()
    yield "object", object()
    yield "type", list
    yield "function", lambda: xs
    yield "float", 1.0
    yield "ellipsis", ...
    yield "namespace", types.SimpleNamespace(items=xs)
    try:
        yield "set", set(xs)
        yield "frozenset", frozenset(xs)
        yield "dict by value", dict.fromkeys(xs)
    except TypeError:
        pass


def not_bytes(b):
    yield "str", b.decode("latin-1")
    yield "hex", "0x" + b.hex()
    yield "list", list(b)
    yield "tuple", tuple(b)
    yield "memoryview", memoryview(b)
    yield "array", array.array("B", b)
    yield "iterator", Watched(b)
    yield "None", None
    yield "int", int.from_bytes(b[:8], "big")
    yield "False", False
    yield "object", HasBytes(b)
    yield "UserString", collections.UserString(b.decode("latin-1"))
    import io

    yield "stream", io.BytesIO(b)
    yield "type", bytes
    yield "dict", {}
    yield "float", 0.5


NOT_TYPES = [None, 0, 1, 8, True, 1.5, b"uint8", bytearray(b"uint8"), ("uint8",), ["uint8"], {"type": "uint8"}, {"uint8"}, frozenset(["uint8"]), object(), int, str, ..., lambda s: True,
             GR.parse("uint8"), R.basic("uint8"), memoryview(b"uint8"), 1j]


def entry_points():
    c = C.ABICodec(RG.registry.copy())
    e, d = C.ABIEncoder(RG.registry), C.ABIDecoder(RG.registry)
    encs = [("encode", eth_abi.encode, False), ("ABICodec.encode", c.encode, False), ("ABIEncoder.encode", e.encode, False), ("encode_packed", P.encode_packed, True),
            ("abi.encode", A.encode, False)]
    decs = [("decode", eth_abi.decode), ("ABICodec.decode", c.decode), ("ABIDecoder.decode", d.decode)]
    iss = [("is_encodable", eth_abi.is_encodable), ("is_encodable_packed", P.is_encodable_packed), ("ABIEncoder.is_encodable", e.is_encodable)]
    ist = [("is_encodable_type", eth_abi.is_encodable_type), ("ABIEncoder.is_encodable_type", e.is_encodable_type), ("has_encoder", RG.registry.has_encoder),
           ("packed.is_encodable_type", P.default_encoder_packed.is_encodable_type)]
    return encs, decs, iss, ist


def printed(ctx, o, **kw):
    """An exception of any refused call prints."""
    if o.ok or not isinstance(o.e, Exception):
        return
    ctx.ev("printed")
    ctx.ev("evaluations")
    try:
        s, r, t = str(o.e), repr(o.e), "".join(traceback.format_exception_only(type(o.e), o.e))
    except Exception as x:
        ctx.violate("an exception cannot be printed", exception=type(o.e).__name__, printing_raised=f"{type(x).__name__}: {x}"[:300], **kw)
        return
    if not all(isinstance(x, str) for x in (s, r, t)) or "unprintable" in t:
        ctx.violate("an exception cannot be printed", exception=type(o.e).__name__, printed=t, **kw)
    if isinstance(o.e, X.ParseError):
        if not (isinstance(o.e.text, str) and isinstance(o.e.pos, int) and 0 <= o.e.pos <= len(o.e.text) and o.e.text in s):
            ctx.violate("a ParseError does not say where in what string", text=o.e.text, pos=o.e.pos, printed=s, **kw)


def wrong_kinds(ctx, ts, vs):
    r, g = ctx.rng, ctx.g
    encs, decs, iss, ist = entry_points()
    names = [t.s for t in ts]
    for name, fn, packed in encs:
        for pos in (0, 1):
            for kind, x in not_lists(names if pos == 0 else vs):
                if r.random() < 0.7:
                    continue
                args = [x, vs] if pos == 0 else [names, x]
                o = ctx.call(fn, *args) if r.random() < 0.7 else ctx.call(fn, types=args[0], args=args[1])
                ctx.ev("evaluations")
                ctx.ev("wrong_kind")
                ctx.mark(name, pos, kind, len(ts))
                kw = dict(entry_point=name, argument=("types", "args")[pos], kind=kind, types=names, values=vs)
                if o.ok or not isinstance(o.e, TypeError):
                    ctx.violate("an argument that is no list or tuple is not refused with TypeError", got=o.brief(), **kw)
                if isinstance(x, Watched) and x.taken:
                    ctx.violate("a refused iterator was read from", taken=x.taken, **kw)
                printed(ctx, o, **kw)
        # subclasses of the right kind are the right kind
        want = R.penc(R.mk_tuple(ts), vs) if packed else R.enc_seq(ts, vs)
        nt = collections.namedtuple("NT", [f"f{i}" for i in range(len(ts))])
        for mk in (L, T, list, tuple, lambda xs: nt(*xs)):
            a, b = mk(S(x) if r.random() < 0.3 else x for x in names), r.choice([L, T, tuple, list, lambda xs: nt(*xs)])(vs)
            o = ctx.call(fn, a, b)
            ctx.ev("evaluations")
            ctx.ev("subclass_kind")
            ctx.mark(name, "ok", type(a).__name__, type(b).__name__)
            if not (o.ok and o.v == want):
                ctx.violate("a list or tuple subclass is treated differently", entry_point=name, kinds=(type(a).__name__, type(b).__name__), types=names, values=vs, got=o.brief())
        # counts
        for n in {0, 1, len(vs) - 1, len(vs) + 1, len(vs) + 2, 2 * len(vs), len(vs) + 32}:
            if n == len(vs) or n < 0:
                continue
            v2 = (list(vs) * 3 + [r.choice([None, 1, "x", b"", []])] * 40)[:n]
            if r.random() < 0.3:
                v2 = tuple(v2)
            o = ctx.call(fn, names, v2)
            ctx.ev("evaluations")
            ctx.ev("count")
            ctx.mark(name, "count", len(ts), n)
            kw = dict(entry_point=name, types=names, values=v2)
            if o.ok or not isinstance(o.e, X.ValueOutOfBounds):
                ctx.violate("a number of values other than the number of types is not refused as out of bounds", got=o.brief(), **kw)
            printed(ctx, o, **kw)
    data = R.enc_seq(ts, vs)
    for name, fn in decs:
        strict = r.choice([{}, {"strict": True}, {"strict": False}])
        for pos in (0, 1):
            for kind, x in not_lists(names) if pos == 0 else not_bytes(data):
                if r.random() < 0.6:
                    continue
                o = ctx.call(fn, *([x, data] if pos == 0 else [names, x]), **strict)
                ctx.ev("evaluations")
                ctx.ev("wrong_kind")
                ctx.mark(name, pos, kind, len(ts))
                kw = dict(entry_point=name, argument=("types", "data")[pos], kind=kind, types=names, data=data.hex())
                if o.ok or not isinstance(o.e, TypeError):
                    ctx.violate("an argument of the wrong kind is not refused with TypeError", got=o.brief(), **kw)
                if isinstance(x, Watched) and x.taken:
                    ctx.violate("a refused iterator was read from", taken=x.taken, **kw)
                printed(ctx, o, **kw)
        want = R.dec(ts, data)[0]
        for mk in (L, T, tuple):
            for mb in (B, BA, bytearray, bytes):
                extra = r.choice([b"", b"", b"\x01", bytes(32), r.randbytes(r.randint(1, 100))])
                o = ctx.call(fn, mk(names), mb(data + extra), **strict)
                ctx.ev("evaluations")
                ctx.ev("subclass_kind")
                ctx.ev("extra_data")
                if not (o.ok and type(o.v) is tuple and R.same(o.v, want)):
                    ctx.violate("decode treats a list, tuple or bytes subclass, or data with more after the values, differently", entry_point=name, kinds=(mk.__name__, mb.__name__), types=names,
                                data=data.hex(), extra=extra.hex(), got=o.v if o.ok else o.brief(), want=want)


def nothing(ctx):
    """No types, no values."""
    r = ctx.rng
    encs, decs, _, _ = entry_points()
    for name, fn, _ in encs:
        for a in ([], (), L(), T()):
            o = ctx.call(fn, a, r.choice([[], (), L()]))
            ctx.ev("evaluations")
            ctx.ev("no_types")
            if not (o.ok and o.v == b"" and type(o.v) is bytes):
                ctx.violate("encoding nothing does not give nothing", entry_point=name, got=o.brief())
            o = ctx.call(fn, a, r.choice([[1], (None,), [[]], [""]]))
            ctx.ev("evaluations")
            ctx.ev("count")
            if o.ok or not isinstance(o.e, X.ValueOutOfBounds):
                ctx.violate("a number of values other than the number of types is not refused as out of bounds", entry_point=name, types=a, got=o.brief())
    for name, fn, _ in encs:  # nothing excuses the wrong kind
        for kind, x in not_lists([]):
            for args in (([], x), (x, []), (x, ()), (x, x)):
                o = ctx.call(fn, *args)
                ctx.ev("evaluations")
                ctx.ev("wrong_kind")
                ctx.mark(name, "nothing", kind)
                if o.ok or not isinstance(o.e, TypeError):
                    ctx.violate("an argument that is no list or tuple is not refused with TypeError", entry_point=name, kind=kind, types=args[0], values=args[1], got=o.brief())
    for name, fn in decs:
        for kind, x in list(not_bytes(b"")) + list(not_bytes(bytes(32))):
            o = ctx.call(fn, r.choice([[], ()]), x)
            ctx.ev("evaluations")
            ctx.ev("wrong_kind")
            ctx.mark(name, "nothing", kind)
            if o.ok or not isinstance(o.e, TypeError):
                ctx.violate("data that is not bytes is not refused with TypeError", entry_point=name, kind=kind, types=[], got=o.brief())
        for kind, x in not_lists([]):
            o = ctx.call(fn, x, b"")
            ctx.ev("evaluations")
            ctx.ev("wrong_kind")
            if o.ok or not isinstance(o.e, TypeError):
                ctx.violate("an argument that is no list or tuple is not refused with TypeError", entry_point=name, kind=kind, got=o.brief())
        for a in ([], (), L(), T()):
            for data in (b"", b"\x00", bytes(32), b"\xff" * 64, r.randbytes(r.randint(1, 90)), bytearray(5)):
                o = ctx.call(fn, a, data, strict=r.random() < 0.5)
                ctx.ev("evaluations")
                ctx.ev("no_types")
                if not (o.ok and o.v == () and type(o.v) is tuple):
                    ctx.violate("decoding no types does not give the empty tuple", entry_point=name, data=bytes(data).hex(), got=o.brief())


def not_types(ctx, ts, vs):
    r = ctx.rng
    encs, decs, iss, ist = entry_points()
    names = [t.s for t in ts]
    data = R.enc_seq(ts, vs) + bytes(64)
    for x in NOT_TYPES:
        i = r.randint(0, len(names))
        n2, v2 = names[:i] + [x] + names[i:], list(vs[:i]) + [1] + list(vs[i:])
        name, fn, _ = r.choice(encs)
        o = ctx.call(fn, n2, v2)
        ctx.ev("evaluations", 4)
        ctx.ev("not_a_type")
        ctx.mark("not a type", name, type(x).__name__, i)
        if o.ok or not isinstance(o.e, TypeError):
            ctx.violate("an entry of types that is no string is not refused with TypeError", entry_point=name, types=n2, values=v2, got=o.brief())
        printed(ctx, o, entry_point=name, types=n2)
        name, fn = r.choice(decs)
        o = ctx.call(fn, n2, data)
        ctx.mark("not a type", name, type(x).__name__, i)
        if o.ok or not isinstance(o.e, TypeError):
            ctx.violate("an entry of types that is no string is not refused with TypeError", entry_point=name, types=n2, got=o.brief())
        printed(ctx, o, entry_point=name, types=n2)
        name, fn = r.choice(iss)
        o = ctx.call(fn, x, r.choice([1, None, "x"]))
        if not (o.ok and o.v is False):
            ctx.violate("something that is no type string counts as encodable", entry_point=name, type=x, got=o.brief())
        name, fn = r.choice(ist)
        o = ctx.call(fn, x)
        if not (o.ok and o.v is False):
            ctx.violate("something that is no type string counts as an encodable type", entry_point=name, type=x, got=o.brief())
        o = ctx.call(GR.parse, x)
        ctx.ev("evaluations")
        if o.ok or not isinstance(o.e, TypeError):
            ctx.violate("parse of something that is no string is not refused with TypeError", type=x, got=o.brief())


def errors(ctx):
    """Errors of all sorts, only to be printed."""
    g, r = ctx.g, ctx.rng
    for _ in range(12):
        s = c09.rstr(r, 2)
        for _ in range(r.randint(1, 3)):
            s = c09.edits(r, s)
        for fn, args in ((GR.parse, (s,)), (eth_abi.encode, ([s], [1])), (eth_abi.decode, ([s], bytes(64))), (RG.registry.get_encoder, (s,)), (P.encode_packed, ([s], [None]))):
            o = ctx.call(fn, *args)
            printed(ctx, o, types=s)
            if not o.ok and isinstance(o.e, RecursionError):
                ctx.violate("a short type string exhausts the stack", type=s)
    t = g.rtype(2)
    for x in r.sample(zoo.fixed_zoo(), 12):
        for fn in (eth_abi.encode, P.encode_packed):
            printed(ctx, ctx.call(fn, [t.s], [x]), type=t.s, value=x)
    v = g.rval(t)
    base = R.enc_seq([t], [v])
    for _ in range(8):
        d = gen.mutate(g, base)
        printed(ctx, ctx.call(eth_abi.decode, [t.s], d), type=t.s, data=d.hex())
    lb = r.choice(["", "nope", "a b", "é", "{}", "%s", "'", "\n", "x" * 500])
    reg = RG.registry.copy()
    for fn in (reg.unregister, reg.unregister_encoder, reg.unregister_decoder):
        printed(ctx, ctx.call(fn, lb), label=lb)
        printed(ctx, ctx.call(fn, r.choice([RG.Equals(lb), RG.BaseEquals(lb), RG.BaseEquals(lb, with_sub=False), 5, None])), label=lb)
    reg.register_encoder(lambda s: True, lambda v: b"", label=lb)
    o = ctx.call(reg.register_encoder, lambda s: True, lambda v: b"", label=lb)
    printed(ctx, o, label=lb)
    o = ctx.call(reg.get_encoder, r.choice(["uint8", "{0}", "%d", "bool[2]"]))
    printed(ctx, o, label=lb)


def run(ctx):
    g, r = ctx.g, ctx.rng
    n = 0
    while ctx.more() or n < 20:
        if n % 8 == 0:
            nothing(ctx)
        ts, vs = gen.rand_case(g, depth=2)
        if not ts or sum(len(t.s) for t in ts) > 300:
            continue
        vs = list(vs)
        if len(R.enc_seq(ts, vs)) > 3000:
            continue
        if n < 2:
            ctx.sample("base", (gen.strs(ts), vs))
        wrong_kinds(ctx, ts, vs)
        not_types(ctx, ts, vs)
        errors(ctx)
        n += 1
    ctx.ev("rounds", n)


sys
