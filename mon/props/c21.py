"""C21: the module-level functions and every codec act through their registry and stream class."""
import itertools

import eth_abi
from eth_abi import abi as A, codec as C, decoding as D, encoding as E, packed as P, registry as RG

from .. import refabi as R, reghist as H, regmodel as M
from ..api import X, dec_expected

QUICK_S, THOROUGH_S = 26, 400
RULE = ("a history is up to 80 operations on the default registry itself, its observations made through a random one of the public names of "
        "the default functions, early and fresh codecs over that registry; the packed functions and registry likewise; bystander codecs over "
        "other registries must keep answering as before. Decoding runs through codecs with their own stream class, whose construction and "
        "use are recorded. Non-trivial: distinct by (entry point, type string, matching registrations, verdict) or (stream class, types, defect).")
NEED = {"histories": 40, "lookups": 8000, "coded": 2500, "packed_calls": 8000, "packed_mutations": 1500, "bystander": 500, "stream_calls": 2000, "restored": 40}
ASSUMPTIONS = ["predicates are pure", "stream classes are subclasses of ContextFramesBytesIO that keep its reading behaviour"]


# ---- the default registry -------------------------------------------------------------
class SubCodec(C.ABICodec):
    pass


EARLY = [C.ABICodec(RG.registry), SubCodec(RG.registry)]
EARLY_E = [C.ABIEncoder(RG.registry)]
EARLY_D = [C.ABIDecoder(RG.registry)]


class Fan:
    """Passes each call on to one of the equivalent entry points."""

    def __init__(self, r, reg):
        self.r, self.reg, self.last = r, reg, None

    def _pick(self, named):
        self.last, fn = self.r.choice(named)
        return fn

    def encode(self, *a, **kw):
        g = self.reg
        return self._pick([
            ("eth_abi.encode", eth_abi.encode), ("eth_abi.abi.encode", A.encode), ("default_codec.encode", A.default_codec.encode),
            ("new codec", C.ABICodec(g).encode), ("new encoder", C.ABIEncoder(g).encode), ("new subclass", SubCodec(g).encode),
            ("early codec", EARLY[0].encode), ("early subclass", EARLY[1].encode), ("early encoder", EARLY_E[0].encode)])(*a, **kw)

    def decode(self, *a, **kw):
        g = self.reg
        return self._pick([
            ("eth_abi.decode", eth_abi.decode), ("eth_abi.abi.decode", A.decode), ("default_codec.decode", A.default_codec.decode),
            ("new codec", C.ABICodec(g).decode), ("new decoder", C.ABIDecoder(g).decode), ("new subclass", SubCodec(g).decode),
            ("early codec", EARLY[0].decode), ("early subclass", EARLY[1].decode), ("early decoder", EARLY_D[0].decode)])(*a, **kw)

    def is_encodable_type(self, *a):
        g = self.reg
        return self._pick([
            ("eth_abi.is_encodable_type", eth_abi.is_encodable_type), ("eth_abi.abi.is_encodable_type", A.is_encodable_type),
            ("default_codec", A.default_codec.is_encodable_type), ("new codec", C.ABICodec(g).is_encodable_type), ("new encoder", C.ABIEncoder(g).is_encodable_type),
            ("early codec", EARLY[0].is_encodable_type), ("early encoder", EARLY_E[0].is_encodable_type)])(*a)

    def is_encodable(self, *a):
        g = self.reg
        return self._pick([
            ("eth_abi.is_encodable", eth_abi.is_encodable), ("eth_abi.abi.is_encodable", A.is_encodable),
            ("default_codec", A.default_codec.is_encodable), ("new codec", C.ABICodec(g).is_encodable), ("new encoder", C.ABIEncoder(g).is_encodable),
            ("early codec", EARLY[0].is_encodable), ("early encoder", EARLY_E[0].is_encodable)])(*a)


class Global(H.Member):
    def __init__(self, ctx, real, model, log):
        super().__init__(ctx, real, model, log)
        self.codec = Fan(ctx.rng, real)

    def bad(self, what, **kw):
        super().bad(what, entry_point=self.codec.last, **kw)

    def look(self, s, r, g):
        if r.random() < 0.2:
            t = self.model.enc.resolve(s)
            self.ctx.ev("lookups")
            if isinstance(t, set):
                o = self.ctx.call(self.codec.is_encodable, s, 1)
                self.ctx.ev("evaluations")
                ok = (o.ok and o.v is False) if X.MultipleEntriesFound not in t else ((not o.ok and type(o.e) is X.MultipleEntriesFound)
                                                                                     or (o.ok and o.v is False and len(t) > 1))
            else:
                o = self.ctx.call(self.codec.is_encodable, s, g.rval(t))
                self.ctx.ev("evaluations")
                ok = o.ok and o.v is True
            self.ctx.mark("is_encodable", self.codec.last, s, isinstance(t, set))
            if not ok:
                self.bad("is_encodable does not follow the registry's registrations", type=s, got=o.brief(), resolves=str(t)[:200])
            return
        super().look(s, r, g)

    def restore(self, r):
        """Back to the built-in registrations, by the public operations."""
        ctx = self.ctx
        for side, un in ((self.model.enc, self.real.unregister_encoder), (self.model.dec, self.real.unregister_decoder)):
            es = list(side.entries)
            r.shuffle(es)
            for p, _, lb in es:
                key = lb if lb is not None and r.random() < 0.5 else p
                self.log.append((self.name, un.__name__, key))
                side.remove(key)
                self.expect(ctx.call(un, self._fresh(r, key)), True, (), "unregistration of what is registered", key=key)
        for mk, label, kind, EC, DC in M.FAMILIES:
            p = mk()
            self.expect(ctx.call(self.real.register, p, EC, DC, label=label), True, (), "registration in an emptied registry", label=label)
            self.model.enc.add(p, M.Builtin(kind), label)
            self.model.dec.add(p, M.Builtin(kind), label)
        self.log.append((self.name, "restored"))
        ctx.ev("restored")


STD = ["uint8", "string", "bytes4", "(uint8,string)[]", "bool[2]", "fixed", "address", "byte", "bytes", "int16[][2]", "foo", "foo[]", "(qux,bar)"]


def bystanders(ctx, codecs, log, packed):
    """Codecs over other registries still have the built-in coders, and nothing else."""
    g, r = ctx.g, ctx.rng
    for name, c in codecs:
        for s in r.sample(STD, 4):
            t = R.tparse(s)
            v = g.rval(t) if t else None
            o = ctx.call(c, [s], [v])
            ctx.ev("evaluations")
            ctx.ev("bystander")
            if t is None:
                good = not o.ok and type(o.e) is X.NoEntriesFound
            else:
                good = o.ok and o.v == (R.penc(R.mk_tuple([t]), (v,)) if packed else R.enc_seq([t], [v]))
            ctx.mark("bystander", name, s)
            if not good:
                ctx.violate("a codec over another registry changed", codec=name, type=s, value=v, got=o.v.hex() if o.ok and isinstance(o.v, bytes) else o.brief(), history=log[-40:])


def default_history(ctx, mem, tags, others, n):
    g, r = ctx.g, ctx.rng
    focus = r.sample(H.UNIVERSE, 12)
    for _ in range(n):
        if r.random() < 0.35:
            mem.mutate(r, tags)
            if r.random() < 0.2:
                mem.sweep(r, g, focus)
        else:
            mem.look(r.choice(focus) if r.random() < 0.7 else r.choice(H.UNIVERSE), r, g)
    mem.sweep(r, g, focus)
    bystanders(ctx, others, mem.log, False)
    bystanders(ctx, [("encode_packed", P.encode_packed)], mem.log, True)
    mem.restore(r)
    mem.sweep(r, g, focus)
    ctx.ev("histories")
    ctx.sample("history", [x[1:] for x in mem.log[:12]])
    del mem.log[:]


# ---- the packed registry --------------------------------------------------------------
class PTag(R.Custom):
    def __init__(self, n, width):
        self.n, self.width = n, width

    def enc(self, v):
        return self.n.to_bytes(self.width, "big")

    def rval(self, g):
        return None


PACKED = [(mk, label, kind, {"uint": E.PackedUnsignedIntegerEncoder, "int": E.PackedSignedIntegerEncoder, "address": E.PackedAddressEncoder, "bool": E.PackedBooleanEncoder,
                             "ufixed": E.PackedUnsignedFixedEncoder, "fixed": E.PackedSignedFixedEncoder, "bytesn": E.PackedBytesEncoder,
                             "bytes": E.PackedByteStringEncoder, "string": E.PackedTextStringEncoder, "array": E.PackedArrayEncoder, "tuple": E.TupleEncoder}[kind])
          for mk, label, kind, _, _ in M.FAMILIES]


def packed_side():
    s = M.Side()
    for mk, label, kind, _ in PACKED:
        s.add(mk(), M.Builtin(kind), label)
    return s


def packed_history(ctx, tags, n):
    g, r = ctx.g, ctx.rng
    reg, side, log = RG.registry_packed, packed_side(), []
    early = C.ABIEncoder(reg)
    focus = r.sample(H.UNIVERSE, 16)

    def bad(what, **kw):
        ctx.violate(what, history=log[-40:], **kw)

    def judge(o, ok, excs, what, **kw):
        ctx.ev("evaluations")
        if o.ok != ok or (not ok and not isinstance(o.e, excs)):
            bad(f"{what} on the packed registry went wrong", got=o.brief(), must_succeed=ok, **kw)

    def look(s):
        t = side.resolve(s)
        fns = [("encode_packed", P.encode_packed, P.is_encodable_packed), ("default_encoder_packed", P.default_encoder_packed.encode, P.default_encoder_packed.is_encodable),
               ("early encoder", early.encode, early.is_encodable), ("new codec", C.ABICodec(reg).encode, C.ABICodec(reg).is_encodable)]
        name, enc, isenc = r.choice(fns)
        ctx.ev("packed_calls")
        ctx.ev("evaluations", 2)
        if isinstance(t, set):
            o = ctx.call(enc, [s], [None])
            if o.ok or not isinstance(o.e, tuple(t)) or H.Member._wrong(o.e, t):
                bad("packed encoding does not follow the packed registrations", entry_point=name, type=s, got=o.brief(), want=[e.__name__ for e in t])
            o = ctx.call(isenc, s, None)
            if (o.ok and o.v is not False) or (not o.ok and type(o.e) is not X.MultipleEntriesFound) or (t == {X.MultipleEntriesFound} and o.ok) or (X.MultipleEntriesFound not in t and not o.ok):
                bad("is_encodable_packed does not follow the packed registrations", entry_point=name, type=s, got=o.brief(), want=[e.__name__ for e in t])
        else:
            v = g.rval(t)
            want = R.penc(t, v)
            o = ctx.call(enc, [s], [v])
            if not (o.ok and o.v == want):
                bad("packed encoding does not use the matching registration", entry_point=name, type=s, value=v, got=o.v.hex() if o.ok and isinstance(o.v, bytes) else o.brief(), want=want.hex())
            o = ctx.call(isenc, s, v)
            if not (o.ok and o.v is True):
                bad("is_encodable_packed does not follow the packed registrations", entry_point=name, type=s, value=v, got=o.brief())
        ctx.mark("packed", name, s, isinstance(t, set), tuple(repr(M.pkey(p))[:50] for p, _, _ in side.entries if M.matches(p, s)))

    for _ in range(n):
        if r.random() < 0.4:
            ctx.ev("packed_mutations")
            if r.random() < 0.6:
                lk, label, k = H.lookups(r), r.choice([None, None, r.choice(H.LABELS)]), next(tags)
                w = r.choice([3, 4, 7, 32, 40])
                b = k.to_bytes(w, "big")

                class T_(E.BaseEncoder):
                    out = b

                    def validate_value(self, value):
                        pass

                    def encode(self, value):
                        return self.out

                    @classmethod
                    def from_type_str(cls, type_str, registry):
                        return cls()

                coder = r.choice([lambda v, b=b: b, T_, T_()])
                log.append(("register_encoder", lk, label, k, w))
                ok = side.add(lk, PTag(k, w), label)
                judge(ctx.call(reg.register_encoder, lk, coder, label=label), ok, (ValueError,), "registration", lookup=lk, label=label)
            else:
                key = r.choice(H.LABELS) if r.random() < 0.3 else H.lookups(r)
                if side.entries and r.random() < 0.6:
                    p, _, lb = r.choice(side.entries)
                    key = lb if lb is not None and r.random() < 0.6 else p
                log.append(("unregister_encoder", key))
                ok = side.remove(key)
                judge(ctx.call(reg.unregister_encoder, H.Member._fresh(r, key)), ok, (KeyError,), "unregistration", key=key)
        else:
            look(r.choice(focus) if r.random() < 0.7 else r.choice(H.UNIVERSE))
    for s in focus:
        look(s)
    bystanders(ctx, [("eth_abi.encode", eth_abi.encode)], log, False)
    for p, _, lb in list(side.entries):
        judge(ctx.call(reg.unregister_encoder, p), True, (), "unregistration", key=p)
        side.remove(p)
    for mk, label, kind, EC in PACKED:
        p = mk()
        judge(ctx.call(reg.register_encoder, p, EC, label=label), True, (), "registration", lookup=p)
        side.add(p, M.Builtin(kind), label)
    log.append(("restored",))
    for s in focus:
        look(s)
    ctx.ev("packed_histories")


# ---- stream classes -------------------------------------------------------------------
MADE = []


class Recording(D.ContextFramesBytesIO):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        MADE.append(self)


class Slotted(Recording):
    """Adds a service for coders."""

    def word(self):
        return int.from_bytes(self.read(32), "big")


class AfterSelector(Recording):
    """Skips a four byte function selector."""

    def __init__(self, data):
        super().__init__(bytes(data)[4:])


class Mark(R.Custom):
    def enc(self, v):
        return R._word(v)

    def dec(self, d, p):
        w = d.word(p)
        return R.BAD if w is None else int.from_bytes(w, "big")

    def canon(self, v):
        return v

    def rval(self, g):
        return g.r.choice([0, 1, 2**255, g.r.randrange(2**256)])


def streams(ctx, n):
    g, r = ctx.g, ctx.rng
    seen = []

    def read(stream):
        seen.append(stream)
        w = stream.read(32)
        if len(w) < 32:
            raise X.InsufficientDataBytes("mark")
        return int.from_bytes(w, "big")

    reg = RG.registry.copy()
    reg.register("mark", lambda v: R._word(v), read)
    mark = R.mk_custom("mark", Mark())

    class Dec(C.ABIDecoder):
        stream_class = r.choice([Recording, Slotted, AfterSelector])

    class Cod(C.ABICodec):
        stream_class = r.choice([Recording, Slotted, AfterSelector])

    class Child(Cod):
        pass

    inst = C.ABICodec(reg)
    inst.stream_class = Slotted
    codecs = [("decoder subclass", Dec(reg)), ("codec subclass", Cod(reg)), ("grandchild", Child(reg)), ("instance", inst), ("plain", C.ABICodec(reg)), ("plain decoder", C.ABIDecoder(reg))]
    for _ in range(n):
        name, c = r.choice(codecs)
        ts = [mark]
        for _ in range(r.randrange(3)):
            ts.append(g.rtype(2))
        k = r.randrange(5)
        if k == 0:
            ts.append(R.mk_array(mark, None))
        elif k == 1:
            ts.append(R.mk_tuple([R.basic("string"), mark]))
        elif k == 2:
            ts.append(R.mk_array(R.mk_tuple([mark, R.basic("bytes")]), 2))
        r.shuffle(ts)
        vs = [g.rval(t) for t in ts]
        data = R.enc_seq(ts, vs)
        defect = r.randrange(4)
        if defect == 0 and data:
            data = data[: r.randrange(len(data))]
        elif defect == 1 and data:
            b = bytearray(data)
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
            data = bytes(b)
        want_cls = c.stream_class
        given = r.randbytes(4) + data if want_cls is AfterSelector else data
        if r.random() < 0.3:
            given = bytearray(given)
        strict = r.random() < 0.6
        try:
            want, defects = R.dec(ts, data, strict=strict)
        except R.Budget:
            continue
        del seen[:], MADE[:]
        o = ctx.call(c.decode, [t.s for t in ts], given, strict=strict)
        ctx.ev("evaluations")
        ctx.ev("stream_calls")
        ctx.mark("stream", name, want_cls.__name__, tuple(t.s for t in ts), defect, strict)
        kw = dict(codec=name, stream_class=want_cls.__name__, types=[t.s for t in ts], data=bytes(given).hex(), strict=strict)
        if want is not None:
            good = o.ok and R.same(o.v, want)
        else:
            good = not o.ok and isinstance(o.e, dec_expected(defects))
        if not good:
            ctx.violate("decoding through a codec's own stream class went wrong", got=o.v if o.ok else o.brief(), want=want if want is not None else sorted(defects), **kw)
        wrong = [type(s).__name__ for s in seen if type(s) is not want_cls]
        if wrong or (want_cls is not D.ContextFramesBytesIO and o.ok and not any(type(s) is want_cls for s in MADE)):
            ctx.violate("decode did not use the codec's stream class", coders_got=wrong, made=[type(s).__name__ for s in MADE], **kw)
        if any(s.getvalue() != data for s in seen):
            ctx.violate("the stream a coder is given does not hold the data", got=[s.getvalue().hex() for s in seen][:2], **kw)
        # whatever else is going on, the default codec keeps its own
        if r.random() < 0.1 and (eth_abi.abi.default_codec.stream_class is not D.ContextFramesBytesIO or MADE and want_cls is D.ContextFramesBytesIO):
            ctx.violate("a codec's stream class reached another codec", made=[type(s).__name__ for s in MADE], **kw)
    ctx.ev("stream_rounds")


def run(ctx):
    r = ctx.rng
    tags = itertools.count(1000 + r.randrange(10**6))
    others = [("codec over an early copy", C.ABICodec(RG.registry.copy()).encode), ("encoder over an early copy", C.ABIEncoder(RG.registry.copy()).encode)]
    mem = Global(ctx, RG.registry, M.RegModel(), [])
    n = 0
    while ctx.more() or n < 6:
        streams(ctx, 60)
        default_history(ctx, mem, tags, others, r.choice([10, 40, 80]))
        packed_history(ctx, tags, r.choice([20, 80]))
        n += 1
