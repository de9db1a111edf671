"""C19: coder objects built directly, over grids of settings, against a model of the
width, placement and range each setting means."""
from .. import gen, refabi as R, zoo
from ..api import X, default_registry, enc_expected
from eth_abi import decoding as D, encoding as E
from eth_abi.decoding import ContextFramesBytesIO
from eth_abi.registry import registry_packed

QUICK_S, THOROUGH_S = 26, 600
RULE = ("a case is (coder class, settings, value or bytes), (class, bad settings) or (class, type string); value widths 8..512, data widths "
        "1..64 and some beyond, all decimals, arrays and tuples of coders of mixed widths. Non-trivial: distinct settings and outcomes.")
NEED = {"encodes": 5000, "decodes": 5000, "bad_settings": 1000, "from_type_str": 3000, "compound": 500, "corrupt": 3000, "refused_values": 3000, "pairs": 500, "generic": 200}
ASSUMPTIONS = ["booleans have value width 8; widths are positive; byte order keeps its default",
               "settings classes other than StringDecoder take keyword settings (StringDecoder takes only its error handler)"]

ENC = {"uint": E.UnsignedIntegerEncoder, "int": E.SignedIntegerEncoder, "ufixed": E.UnsignedFixedEncoder, "fixed": E.SignedFixedEncoder,
       "bytesn": E.BytesEncoder, "bool": E.BooleanEncoder, "address": E.AddressEncoder}
PENC = {"uint": E.PackedUnsignedIntegerEncoder, "int": E.PackedSignedIntegerEncoder, "ufixed": E.PackedUnsignedFixedEncoder,
        "fixed": E.PackedSignedFixedEncoder, "bytesn": E.PackedBytesEncoder, "bool": E.PackedBooleanEncoder, "address": E.PackedAddressEncoder}
DEC = {"uint": D.UnsignedIntegerDecoder, "int": D.SignedIntegerDecoder, "ufixed": D.UnsignedFixedDecoder, "fixed": D.SignedFixedDecoder,
       "bytesn": D.BytesDecoder, "bool": D.BooleanDecoder, "address": D.AddressDecoder}
FIXED = ("ufixed", "fixed")


class W(R.Custom):
    """A leaf of a given kind, value width and data width."""

    def __init__(self, kind, vb, db, frac=None):
        self.kind, self.vb, self.db, self.frac = kind, vb, db, frac
        self.width = db
        self.t = R._mk(kind, f"{kind}:{vb}/{db}/{frac}", "", m=vb, n=vb // 8 if kind == "bytesn" else frac)

    def check(self, v):
        return R.faults(self.t, v)

    def enc(self, v, k1=False):
        t, db = self.t, self.db
        if self.kind in ("uint", "int", "ufixed", "fixed"):
            try:
                return (R.scaled(t, v) % 2 ** (8 * db)).to_bytes(db, "big")
            except R.TooPrecise:
                if not k1:
                    raise
                return R._k1(t, v, db)
        if self.kind == "bytesn":
            return bytes(v) + bytes(db - len(v))
        b = (b"\x01" if v else b"\x00") if self.kind == "bool" else R.addr_bytes(v)
        return bytes(db - len(b)) + b

    def canon(self, v):
        return R.canon(self.t, v)

    def rval(self, g):
        return g.rval(self.t)

    def read(self, b):
        """(value, None) or (None, 'P')."""
        k = self.kind
        if k == "bytesn":
            n = self.vb // 8
            return (b[:n], None) if not any(b[n:]) else (None, "P")
        i = int.from_bytes(b, "big")
        if k == "bool":
            return (i == 1, None) if i < 2 else (None, "P")
        if k == "address":
            return ("0x" + b[-20:].hex(), None) if i >> 160 == 0 else (None, "P")
        if k in ("int", "fixed") and i >> (8 * self.db - 1):
            i -= 2 ** (8 * self.db)
        lo, hi = R.int_range(self.t)
        if not lo <= i <= hi:
            return None, "P"
        return (i if k in ("uint", "int") else R.scaled_to_dec(i, self.frac)), None

    def dec(self, d, p):
        d.steps += 1
        if p + self.db > len(d.d):
            d.defects.add("S")
            return R.BAD
        v, f = self.read(d.d[p : p + self.db])
        if f:
            d.defects.add(f)
            return R.BAD
        return v

    def settings(self, r, enc, default=32):
        kw = {}
        if self.kind not in ("bool", "address") or r.random() < 0.3:
            kw["value_bit_size"] = self.vb
        if self.db != default or r.random() < 0.4:
            kw["data_byte_size"] = self.db
        if self.kind in FIXED:
            kw["frac_places"] = self.frac
        ks = list(kw.items())
        r.shuffle(ks)
        return dict(ks)

    def encoder(self, r):
        if r.random() < 0.75:
            return ENC[self.kind](**self.settings(r, True))
        d = {"bool": 1, "address": 20}.get(self.kind, 32)
        return PENC[self.kind](**self.settings(r, True, d))

    def decoder(self, r):
        return DEC[self.kind](**self.settings(r, False))

    def __repr__(self):
        return f"{self.kind}(value_bit_size={self.vb}, data_byte_size={self.db}, frac_places={self.frac})"


def check_encode(ctx, w, e, v):
    try:
        f = w.check(v)
    except R.Unspecified:
        return
    r = ctx.rng
    o = ctx.call(e if r.random() < 0.5 else e.encode, v)
    ctx.ev("evaluations")
    if f:
        ctx.ev("refused_values")
        if o.ok:
            if f == {"I", "K1"} and o.v == w.enc(v, k1=True):
                ctx.known_finding("K1", (repr(w), v))
                return
            ctx.violate("a coder object accepts a value outside its settings", coder=repr(w), cls=type(e).__name__, value=v, faults=sorted(f), got=o.v)
        elif not isinstance(o.e, enc_expected(f)):
            ctx.violate("a coder object refuses with the wrong exception", coder=repr(w), cls=type(e).__name__, value=v, faults=sorted(f), got=o.brief())
        if r.random() < 0.2:
            o = ctx.call(e.validate_value, v)
            if f == {"I", "K1"}:
                return
            if o.ok or not isinstance(o.e, enc_expected(f)):
                ctx.violate("validate_value disagrees with encode", coder=repr(w), value=v, got=o.brief())
        return
    ctx.ev("encodes")
    want = w.enc(v)
    ctx.mark(repr(w), want)
    if not (o.ok and type(o.v) in (bytes, bytearray) and bytes(o.v) == want):
        ctx.violate("a coder object does not write its value in its data width", coder=repr(w), cls=type(e).__name__, value=v,
                    got=o.v.hex() if o.ok else o.brief(), want=want.hex())


def check_decode(ctx, w, d, b, kind):
    """b is what follows the stream position; the coder must consume exactly its width."""
    r = ctx.rng
    pre = r.choice([0, 0, 1, 32, 45])
    s = ContextFramesBytesIO(r.randbytes(pre) + b)
    s.seek(pre)
    o = ctx.call(d if r.random() < 0.5 else d.decode, s)
    ctx.ev("evaluations")
    ctx.ev("decodes")
    ctx.ev(kind)
    if len(b) < w.db:
        want, f = None, "S"
    else:
        want, f = w.read(b[: w.db])
    ctx.mark(repr(w), "dec", b)
    if f is None:
        if not (o.ok and R.same(o.v, want)):
            ctx.violate("a decoder object does not return the value written in its data width", coder=repr(w), data=b.hex(), got=o.v if o.ok else o.brief(), want=want)
        elif s.tell() != pre + w.db:
            ctx.violate("a decoder object does not read exactly its data width", coder=repr(w), data=b.hex(), read=s.tell() - pre, want=w.db)
    else:
        cls = {"S": X.InsufficientDataBytes, "P": X.NonEmptyPaddingBytes}[f]
        if o.ok or not isinstance(o.e, cls):
            ctx.violate("a decoder object accepts data that is not of its settings", coder=repr(w), data=b.hex(), got=o.v if o.ok else o.brief(), want=cls.__name__)


def exercise(ctx, w, e, d, heavy):
    g, r = ctx.g, ctx.rng
    ctx.ev("pairs")
    vals = []
    if w.kind in ("uint", "int", "ufixed", "fixed"):
        lo, hi = R.int_range(w.t)
        sc = (lambda i: i) if w.kind in ("uint", "int") else (lambda i: R.scaled_to_dec(i, w.frac))
        ints = [lo, hi, 0, 1, hi - 1, lo + 1] + ([-1] if lo else []) + [g.rint(lo, hi) for _ in range(6 if heavy else 2)]
        vals = [sc(i) for i in ints if lo <= i <= hi]
        bad = zoo.near_misses(g, w.t)
        if w.vb > 600:
            bad = [x for x in bad if not isinstance(x, float)]
    elif w.kind == "bytesn":
        vals = [b"", bytes(w.t.n), b"\xff" * w.t.n, r.randbytes(w.t.n), b"\x01" * (w.t.n - 1)]
        bad = zoo.near_misses(g, w.t)
    else:
        vals = [g.rval(w.t) for _ in range(2)] + g.edges(w.t)[:2]
        bad = zoo.near_misses(g, w.t)
    for v in vals:
        check_encode(ctx, w, e, v)
        check_decode(ctx, w, d, w.enc(v) + r.choice([b"", b"\xff", r.randbytes(40)]), "inverse")
    for v in bad if heavy else r.sample(bad, min(len(bad), 6)):
        check_encode(ctx, w, e, v)
    good = w.enc(vals[0])
    for cut in {0, 1, w.db - 1, w.db // 2}:
        if cut < w.db:
            check_decode(ctx, w, d, good[:cut], "corrupt")
    for _ in range(8 if heavy else 4):
        b = bytearray(w.enc(r.choice(vals)))
        if w.db:
            pad = w.db - w.vb // 8
            i = r.randrange(w.db)
            if pad and r.random() < 0.7:
                i = r.randrange(pad) if w.kind != "bytesn" else w.db - 1 - r.randrange(pad)
            b[i] = r.choice([0, 1, 0x7F, 0x80, 0xFF])
        check_decode(ctx, w, d, bytes(b), "corrupt")
    check_decode(ctx, w, d, r.randbytes(w.db), "corrupt")
    check_decode(ctx, w, d, b"\xff" * w.db, "corrupt")


def rw(ctx, kind=None):
    r = ctx.rng
    kind = kind or r.choice(["uint", "int", "ufixed", "fixed", "bytesn", "bool", "address"])
    lo = 20 if kind == "address" else 1
    db = r.choice([32, 32, lo, r.randint(lo, 64), r.randint(lo, 40), r.choice([64, 100, 128])])
    if kind == "bool":
        vb = 8
    elif kind == "address":
        vb = 160
    else:
        vb = 8 * r.choice([db, r.randint(1, db), 1])
    return W(kind, vb, db, r.randint(1, 80) if kind in FIXED else None)


# ---- settings that must be refused --------------------------------------------------------
def refuse(ctx, cls, kw, exc):
    o = ctx.call(cls, **kw)
    ctx.ev("evaluations")
    ctx.ev("bad_settings")
    ctx.mark(cls.__name__, repr(sorted(kw)), repr([x if isinstance(x, (int, type(None))) else type(x) for x in kw.values()]))
    if o.ok or not isinstance(o.e, exc):
        ctx.violate("inconsistent settings are not refused", cls=cls.__name__, settings=kw, want=[x.__name__ for x in exc], got=o.brief())


def bad_settings(ctx):
    r = ctx.rng
    V, A = (ValueError,), (AttributeError,)
    jobs = []
    for table in (ENC, PENC, DEC):
        for k, cls in table.items():
            base = {"data_byte_size": 32}
            if k not in ("bool", "address"):
                base["value_bit_size"] = 64
            if k in FIXED:
                base["frac_places"] = 10
            for name in ("foo", "value_bits", "bit_size", "size", "array_size", "item_encoder", "decoders", "Value_bit_size", "", "frac_place"):
                jobs.append((cls, {**base, name: 8}, A))
                jobs.append((cls, {name: None}, A + V))
            for vb in list(range(1, 264)) if k not in ("bool", "address") else []:
                if vb % 8:
                    jobs.append((cls, {**base, "value_bit_size": vb}, V))
            for db in list(range(0, 40)) + [63, 64]:
                for extra in (1, 2, 3, 8, 100):
                    if k not in ("bool",):
                        jobs.append((cls, {**base, "data_byte_size": db, "value_bit_size": 8 * (db + extra)}, V))
                if k == "address" and db < 20:
                    jobs.append((cls, {"data_byte_size": db}, V))
            if k == "bool":
                jobs.append((cls, {"data_byte_size": 0}, V))
            if k == "address":
                for vb in range(8, 256, 8):
                    if vb != 160:
                        jobs.append((cls, {"value_bit_size": vb, "data_byte_size": 32}, V))
            for n in ("value_bit_size", "data_byte_size", "is_big_endian"):
                jobs.append((cls, {**base, n: None}, V))
            if k not in ("bool", "address"):
                b2 = dict(base)
                del b2["value_bit_size"]
                jobs.append((cls, b2, V))
            if k in FIXED:
                for n in (0, -1, -2, -18, -80, 81, 82, 100, 128, 256, 1000, None):
                    for vb in (8, 64, 128, 256):
                        jobs.append((cls, {**base, "frac_places": n, "value_bit_size": vb}, V))
                b2 = dict(base)
                del b2["frac_places"]
                jobs.append((cls, b2, V))
                jobs.append((cls, {"frac_places": 10}, V))
            jobs.append((cls, {**base, "decoder_fn" if table is DEC else "encode_fn": None}, V))
            if table is not DEC and k in ("uint", "int", "ufixed", "fixed"):
                jobs.append((cls, {**base, "bounds_fn": None}, V))
                jobs.append((cls, {**base, "type_check_fn": None}, V))
    ie, idr = E.UnsignedIntegerEncoder(value_bit_size=8), D.UnsignedIntegerDecoder(value_bit_size=8)
    jobs += [(E.SizedArrayEncoder, {}, V), (E.SizedArrayEncoder, {"array_size": 3}, V), (E.SizedArrayEncoder, {"item_encoder": ie}, V),
             (E.SizedArrayEncoder, {"item_encoder": ie, "array_size": None}, V), (E.DynamicArrayEncoder, {}, V), (E.DynamicArrayEncoder, {"item_encoder": None}, V),
             (E.PackedArrayEncoder, {}, V), (E.PackedArrayEncoder, {"array_size": 3}, V), (E.TupleEncoder, {}, V), (E.TupleEncoder, {"encoders": None}, V),
             (D.SizedArrayDecoder, {}, V), (D.SizedArrayDecoder, {"array_size": 3}, V), (D.SizedArrayDecoder, {"item_decoder": idr}, V),
             (D.SizedArrayDecoder, {"item_decoder": idr, "array_size": None}, V), (D.DynamicArrayDecoder, {}, V), (D.DynamicArrayDecoder, {"item_decoder": None}, V),
             (D.TupleDecoder, {}, V), (D.TupleDecoder, {"decoders": None}, V), (D.HeadTailDecoder, {}, V), (D.HeadTailDecoder, {"tail_decoder": None}, V)]
    for cls, kw in ((E.SizedArrayEncoder, {"item_encoder": ie, "array_size": 1}), (E.DynamicArrayEncoder, {"item_encoder": ie}), (E.PackedArrayEncoder, {"item_encoder": ie}),
                    (E.TupleEncoder, {"encoders": (ie,)}), (D.SizedArrayDecoder, {"item_decoder": idr, "array_size": 1}), (D.DynamicArrayDecoder, {"item_decoder": idr}),
                    (D.TupleDecoder, {"decoders": (idr,)}), (D.HeadTailDecoder, {"tail_decoder": idr}), (E.ByteStringEncoder, {}), (E.TextStringEncoder, {}),
                    (E.PackedByteStringEncoder, {}), (E.PackedTextStringEncoder, {}), (D.ByteStringDecoder, {})):
        for n in ("foo", "size", "value_bit_size", "frac_places", "item", "coder", "arraysize", "max_size"):
            jobs.append((cls, {**kw, n: 3}, A))
    gd = {"value_bit_size": 8, "data_byte_size": 4, "decoder_fn": bytes, "is_big_endian": True}
    ge = {"value_bit_size": 8, "data_byte_size": 4, "encode_fn": bytes, "is_big_endian": True}
    for cls, b in ((D.FixedByteSizeDecoder, gd), (E.FixedSizeEncoder, ge)):
        for n in b:
            jobs.append((cls, {k: v for k, v in b.items() if k != n}, V))
            jobs.append((cls, {**b, n: None}, V))
        for vb in (1, 7, 9, 12, 33, 40, 64):
            jobs.append((cls, {**b, "value_bit_size": vb}, V))
    for j in gen.share(jobs, ctx):
        refuse(ctx, *j)


# ---- the generic fixed-size classes ------------------------------------------------------
class RawEncoder(E.FixedSizeEncoder):
    def validate_value(self, value):
        pass


def generic(ctx):
    r = ctx.rng
    db = r.choice([1, 2, 8, 32, r.randint(1, 70)])
    n = r.randint(1, db)
    big = r.random() < 0.5
    e = RawEncoder(value_bit_size=8 * n, data_byte_size=db, encode_fn=lambda v: v[::-1], is_big_endian=big)
    d = D.FixedByteSizeDecoder(value_bit_size=8 * n, data_byte_size=db, decoder_fn=lambda b: b[::-1], is_big_endian=big)
    v = r.randbytes(n)
    want = bytes(db - n) + v[::-1] if big else v[::-1] + bytes(db - n)
    ctx.ev("evaluations")
    ctx.ev("generic")
    ctx.mark("generic", db, n, big)
    o = ctx.call(e, v)
    if not (o.ok and o.v == want):
        ctx.violate("a generic fixed-size encoder misplaces its value", value=v, big=big, width=db, got=o.brief(), want=want)
    o = ctx.call(d, ContextFramesBytesIO(want + b"tail"))
    if not (o.ok and o.v == v):
        ctx.violate("a generic fixed-size decoder misplaces its value", data=want, big=big, width=n, got=o.brief(), want=v)
    if db > n:
        b = bytearray(want)
        b[r.randrange(db - n) if big else n + r.randrange(db - n)] = 1
        o = ctx.call(d, ContextFramesBytesIO(bytes(b)))
        if o.ok or not isinstance(o.e, X.NonEmptyPaddingBytes):
            ctx.violate("a generic fixed-size decoder accepts padding", data=bytes(b), got=o.brief())


# ---- compounds of coder objects --------------------------------------------------------
def build(ctx, depth):
    """(T, encoder, decoder) of coder objects put together by hand."""
    r = ctx.rng
    if depth <= 0 or r.random() < 0.2:
        c = r.random()
        if c < 0.7:
            w = rw(ctx)
            return R.mk_custom(repr(w), w), w.encoder(r), w.decoder(r)
        if c < 0.85:
            return gen.BYT, E.ByteStringEncoder(), D.ByteStringDecoder()
        return gen.STR, E.TextStringEncoder(), D.StringDecoder()
    if r.random() < 0.5:
        parts = [build(ctx, depth - 1) for _ in range(r.randint(1, 4))]
        seq = r.choice([tuple, list])
        return (R.mk_tuple([p[0] for p in parts]), E.TupleEncoder(encoders=seq([p[1] for p in parts])), D.TupleDecoder(decoders=seq([p[2] for p in parts])))
    t, e, d = build(ctx, depth - 1)
    if r.random() < 0.5:
        k = r.choice([1, 2, 3, 5]) if not t.dyn else r.choice([1, 2, 3])
        return R.mk_array(t, k), E.SizedArrayEncoder(array_size=k, item_encoder=e), D.SizedArrayDecoder(array_size=k, item_decoder=d)
    return R.mk_array(t, None), E.DynamicArrayEncoder(item_encoder=e), D.DynamicArrayDecoder(item_decoder=d)


def compound(ctx):
    g, r = ctx.g, ctx.rng
    t, e, d = build(ctx, r.choice([1, 2, 2, 3]))
    ctx.ev("compound")
    for _ in range(3):
        v = g.rval(t)
        want = R.enc(t, v)
        o = ctx.call(e, g.form(t, v))
        ctx.ev("evaluations")
        ctx.ev("encodes")
        ctx.mark(t.s, want[:2000])
        if not (o.ok and bytes(o.v) == want):
            ctx.violate("a compound of coder objects does not lay out its value", type=t.s, value=v, got=o.v.hex() if o.ok else o.brief(), want=want.hex())
            return
        s = ContextFramesBytesIO(want)
        o = ctx.call(d, s)
        ctx.ev("evaluations")
        ctx.ev("decodes")
        if not (o.ok and R.same(o.v, R.canon(t, v))):
            ctx.violate("a compound decoder does not invert the encoder of equal settings", type=t.s, value=v, got=o.v if o.ok else o.brief())
            return
        if not t.dyn and s.tell() != t.hs:
            ctx.violate("a static compound decoder does not read exactly its width", type=t.s, read=s.tell(), want=t.hs)
        h = D.HeadTailDecoder(tail_decoder=d)
        off = 32 * r.randint(1, 4) + r.choice([0, 7])
        s = ContextFramesBytesIO(R._word(off) + r.randbytes(off - 32) + want)
        o = ctx.call(h, s)
        ctx.ev("evaluations")
        if not (o.ok and R.same(o.v, R.canon(t, v)) and s.tell() == 32):
            ctx.violate("a head-tail decoder does not follow its offset and come back", type=t.s, value=v, got=o.v if o.ok else o.brief(), at=s.tell())
        # damaged
        data = gen.mutate(g, want)
        rd = R.Dec(data, budget=4000)
        try:
            x = rd.value(t, 0)
        except R.Budget:
            continue
        o = ctx.call(d, ContextFramesBytesIO(data))
        ctx.ev("evaluations")
        ctx.ev("corrupt")
        from ..api import dec_expected

        if x is R.BAD:
            if o.ok or not isinstance(o.e, dec_expected(rd.defects)):
                ctx.violate("a compound decoder accepts damaged data or fails otherwise", type=t.s, data=data.hex(), want=sorted(rd.defects), got=o.v if o.ok else o.brief())
        elif not (o.ok and R.same(o.v, x)):
            ctx.violate("a compound decoder misreads", type=t.s, data=data.hex(), want=x, got=o.v if o.ok else o.brief())
        # wrong values
        bad = zoo.plant(g, t, v)
        try:
            f = R.faults(t, bad)
        except R.Unspecified:
            continue
        o = ctx.call(e, bad)
        ctx.ev("evaluations")
        if f:
            ctx.ev("refused_values")
            if o.ok and f == {"I", "K1"} and bytes(o.v) == R.enc(t, bad, k1=True):
                ctx.known_finding("K1", (t.s, bad))
            elif o.ok or not isinstance(o.e, enc_expected(f) + ((TypeError,) if not R.is_seq(bad) else ())):
                ctx.violate("a compound encoder accepts a value outside its settings or refuses otherwise", type=t.s, value=bad, faults=sorted(f), got=o.v if o.ok else o.brief())


def empty_array(ctx):
    t, e, d = build(ctx, ctx.rng.choice([0, 1, 2]))
    a, b = E.SizedArrayEncoder(array_size=0, item_encoder=e), D.SizedArrayDecoder(array_size=0, item_decoder=d)
    ctx.ev("evaluations")
    o = ctx.call(a, ctx.rng.choice([[], ()]))
    if not (o.ok and o.v == b""):
        ctx.violate("an array encoder of size 0 writes something", type=t.s, got=o.brief())
    o = ctx.call(b, ContextFramesBytesIO(ctx.rng.randbytes(ctx.rng.choice([0, 1, 64]))))
    if not (o.ok and o.v == ()):
        ctx.violate("an array decoder of size 0 reads something", type=t.s, got=o.brief())
    o = ctx.call(a, [ctx.g.rval(t)])
    if o.ok or not isinstance(o.e, X.ValueOutOfBounds):
        ctx.violate("an array encoder of size 0 accepts an item", type=t.s, got=o.brief())


# ---- packed arrays --------------------------------------------------------------------------
def packed_array(ctx):
    g, r = ctx.g, ctx.rng
    w = rw(ctx)
    e = w.encoder(r)
    k = r.choice([None, 0, 1, 2, 5])
    kw = {"item_encoder": e}
    if k is not None:
        kw["array_size"] = k
    a = E.PackedArrayEncoder(**kw)
    n = r.choice([0, 1, 2, 3, 5])
    vs = [w.rval(g) for _ in range(n)]
    o = ctx.call(a, vs)
    ctx.ev("evaluations")
    ctx.ev("compound")
    if k is None or k == n:
        want = b"".join(w.enc(v) for v in vs)
        if not (o.ok and bytes(o.v) == want):
            ctx.violate("a packed array encoder does not concatenate its items", coder=repr(w), size=k, values=vs, got=o.brief(), want=want.hex())
    elif o.ok or not isinstance(o.e, X.ValueOutOfBounds):
        ctx.violate("a packed array encoder ignores its size", coder=repr(w), size=k, values=vs, got=o.brief())


# ---- from_type_str ------------------------------------------------------------------------
TS = [  # class, registry, predicate on valid T, mode
    (E.UnsignedIntegerEncoder, "uint", "enc"), (E.SignedIntegerEncoder, "int", "enc"), (E.UnsignedFixedEncoder, "ufixed", "enc"), (E.SignedFixedEncoder, "fixed", "enc"),
    (E.BooleanEncoder, "bool", "enc"), (E.AddressEncoder, "address", "enc"), (E.BytesEncoder, "bytesn", "enc"), (E.ByteStringEncoder, "bytes", "enc"), (E.TextStringEncoder, "string", "enc"),
    (E.PackedUnsignedIntegerEncoder, "uint", "penc"), (E.PackedSignedIntegerEncoder, "int", "penc"), (E.PackedUnsignedFixedEncoder, "ufixed", "penc"),
    (E.PackedSignedFixedEncoder, "fixed", "penc"), (E.PackedBooleanEncoder, "bool", "penc"), (E.PackedAddressEncoder, "address", "penc"), (E.PackedBytesEncoder, "bytesn", "penc"),
    (E.PackedByteStringEncoder, "bytes", "penc"), (E.PackedTextStringEncoder, "string", "penc"),
    (D.UnsignedIntegerDecoder, "uint", "dec"), (D.SignedIntegerDecoder, "int", "dec"), (D.UnsignedFixedDecoder, "ufixed", "dec"), (D.SignedFixedDecoder, "fixed", "dec"),
    (D.BooleanDecoder, "bool", "dec"), (D.AddressDecoder, "address", "dec"), (D.BytesDecoder, "bytesn", "dec"), (D.ByteStringDecoder, "bytes", "dec"), (D.StringDecoder, "string", "dec"),
    (E.BaseArrayEncoder, "array", "enc"), (E.PackedArrayEncoder, "array", "penc"), (D.BaseArrayDecoder, "array", "dec"), (E.TupleEncoder, "tuple", "enc"), (D.TupleDecoder, "tuple", "dec"),
]


def from_type_str(ctx, cls, kind, mode, s):
    g = ctx.g
    t = R.tparse(s)
    reg = registry_packed if mode == "penc" else default_registry
    o = ctx.call(cls.from_type_str, s, reg)
    ctx.ev("evaluations")
    ctx.ev("from_type_str")
    ctx.mark(cls.__name__, s)
    if t is None or t.kind != kind:
        if o.ok or not isinstance(o.e, (ValueError, X.ParseError)):
            ctx.violate("a coder is made from a type string of another family, or refused otherwise", cls=cls.__name__, type=s, got=o.brief())
        return
    if not o.ok:
        ctx.violate("a coder refuses a type string of its own family", cls=cls.__name__, type=s, got=o.brief())
        return
    from .c10 import size

    if size(t) > 300:
        return
    v = g.rval(t)
    c = o.v
    if mode == "dec":
        o, w = ctx.call(c, ContextFramesBytesIO(R.enc(t, v))), R.canon(t, v)
        good = o.ok and R.same(o.v, w)
    else:
        w = R.enc(t, v) if mode == "enc" else R.penc(t, v)
        o = ctx.call(c, v)
        good = o.ok and bytes(o.v) == w
    if not good:
        ctx.violate("a coder made from a type string does not follow the type", cls=cls.__name__, type=s, value=v, got=o.brief(), want=w)
    if mode == "dec":
        return
    for k in range(3):
        if t.kind in ("uint", "int", "ufixed", "fixed", "bytesn") and k == 0:
            x = ctx.rng.choice(zoo.near_misses(g, t))
        else:
            x = zoo.plant(g, t, v)
        try:
            f = R.faults(t, x)
        except R.Unspecified:
            continue
        o = ctx.call(c, x)
        ctx.ev("refusable")
        if f and "K1" not in f and (o.ok or not isinstance(o.e, enc_expected(f))):
            ctx.violate("a coder made from a type string does not refuse a value outside the type with an EncodingError", cls=cls.__name__, type=s, value=x, got=o.brief())
        elif not f and not o.ok:
            ctx.violate("a coder made from a type string refuses a value of the type", cls=cls.__name__, type=s, value=x, got=o.brief())


def run(ctx):
    g, r = ctx.g, ctx.rng
    bad_settings(ctx)
    # every width pair
    dbs = list(range(1, 41)) + [48, 63, 64, 65, 96, 100, 128]
    jobs = []
    for db in dbs:
        for vbs in sorted(set([1, 2, 3, 4, 8, 16, 20, db // 2, db - 1, db])) if not ctx.thorough else range(1, db + 1):
            if 1 <= vbs <= db:
                jobs += [("uint", vbs, db), ("int", vbs, db), ("bytesn", vbs, db), ("ufixed", vbs, db), ("fixed", vbs, db)]
        jobs.append(("bool", 1, db))
        if db >= 20:
            jobs.append(("address", 20, db))
    for i, (kind, vbs, db) in enumerate(gen.share(jobs, ctx)):
        w = W(kind, 8 * vbs, db, r.randint(1, 80) if kind in FIXED else None)
        exercise(ctx, w, w.encoder(r), w.decoder(r), ctx.thorough or i % 9 == 0)
    for n in gen.share(range(1, 81), ctx):
        for kind in FIXED:
            for vbs, db in ((1, 1), (1, 32), (16, 32), (32, 32), (33, 40)):
                w = W(kind, 8 * vbs, db, n)
                exercise(ctx, w, w.encoder(r), w.decoder(r), ctx.thorough)
    pool = gen.BASIC_SAMPLE + ["uint7", "uint0", "uint264", "bytes33", "bytes0", "string8", "bool8", "address20", "foo", "hash32", "hash", "uint8x8", "fixed128", "fixed8x81", "ufixed7x1",
                               "function8", "byte1", "", "(", "()", "uint8[", " uint8", "Uint8", "tuple"]
    near = []
    for b, sub in (("uint", "8"), ("int", "16"), ("ufixed", "8x1"), ("fixed", "128x18"), ("bool", ""), ("address", ""), ("bytes", "4"), ("bytes", ""), ("string", ""), ("function", "")):
        near += [x + sub for x in (b + "s", b + "y", b[:-1], b[1:], "x" + b, "my" + b, b.upper(), b.title(), b + b, b + "x", b[0], b[::-1])]
    pool += near
    nests = ["{}", "{}[]", "{}[2]", "({})", "({})[]", "(uint8,{})", "{}[][3]", "(({},bool),string)", "({},string)[2][]"]
    if not ctx.thorough:
        pool = r.sample(pool[: len(gen.BASIC_SAMPLE)], 60) + gen.PLAIN + pool[len(gen.BASIC_SAMPLE):]
    for cls, kind, mode in gen.share(TS, ctx):
        for s in pool:
            for n in nests if s not in near else [nests[0], r.choice(nests)]:
                from_type_str(ctx, cls, kind, mode, n.format(s))
    ctx.ev("systematic_done")
    live = []
    n = 0
    while ctx.more():
        if len(live) < 60 or r.random() < 0.2:
            w = rw(ctx)
            live.append((w, w.encoder(r), w.decoder(r)))
            if len(live) > 80:
                live.pop(r.randrange(len(live)))
        w, e, d = r.choice(live)
        exercise(ctx, w, e, d, False)
        compound(ctx)
        packed_array(ctx)
        empty_array(ctx)
        generic(ctx)
        if n < 3:
            ctx.sample("random", repr(w))
        n += 1
    ctx.ev("random", n)
