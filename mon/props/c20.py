"""C20: texts and byte strings against Python's own UTF-8 codec, with every error handler,
at every position, strict and non-strict."""
import codecs

from .. import gen, refabi as R
from ..api import encode, decode, encode_packed, ABICodec, default_registry
from eth_abi.decoding import ByteStringDecoder, ContextFramesBytesIO, StringDecoder
from eth_abi.registry import BaseEquals

QUICK_S, THOROUGH_S = 25, 500
RULE = ("a case is (type list with string and bytes leaves, raw leaf contents, error handler, strictness); contents are "
        "every code point, text of all lengths and widths, every class of malformed UTF-8 at block boundaries and random "
        "bytes. Non-trivial: non-ASCII or malformed content; distinct by (types, handler, contents).")
NEED = {"texts": 3000, "malformed": 2000, "nested": 2000, "handlers": 2000, "raw_bytes": 500, "default_refused": 300, "codepoint_blocks": 1000}
ASSUMPTIONS = ["error handlers are deterministic functions of the error they are given"]


def _angle(e):
    return "<" + e.object[e.start : e.end].hex() + ">", e.end


def _skip1(e):
    return "\u2047", e.start + 1


def _jump(e):
    return "", min(len(e.object), e.end + 1)


codecs.register_error("verif.angle", _angle)
codecs.register_error("verif.skip1", _skip1)
codecs.register_error("verif.jump", _jump)
codecs.register_error("Verif Mixed-CASE", _angle)
codecs.register_error("verif mixed-case", _skip1)
codecs.register_error("verif_mixed_case", _jump)

HANDLERS = ["strict", "replace", "ignore", "backslashreplace", "surrogateescape", "surrogatepass",
            "verif.angle", "verif.skip1", "verif.jump", "Verif Mixed-CASE"]

BAD = [
    b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc3", b"\xc3(", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xe2\x82", b"\xe2(\xa1",
    b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xed\xa0\xbd\xed\xb8\x80", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf0\x9f\x98",
    b"\xf0\x9f", b"\xf0(\x8c\xbc", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xfe", b"\xff", b"\xff\xfe",
    b"\xfe\xff", b"\xff\xfea\x00", b"c\xfft", b"a\x80b\xc3\xa9", b"\xef\xbb", b"\xef\xbb\xbf\x80", b"\xef\xbb\xbf\xef\xbb\xbf\xff",
    b"\x00\xff\x00", b"\r\n\xff\r", b"\xc3\xa9\xc3", b"\xe2\x82\xac\xe2\x82", b"\x80" * 33, b"\xc3" * 32, b"\xff" * 64, b"\xed\xa0\x80a\xff",
]
GOOD = [t.encode() for t in gen.TEXTS]

STRT, BYTT = R.basic("string"), R.basic("bytes")


def named(s):
    """A string type under another registered name."""
    t = R._mk("string", s, s)
    return t


def twin(t):
    """The same type with raw bytes instead of text."""
    if t.kind == "string":
        return BYTT
    if t.kind == "tuple":
        return R.mk_tuple([twin(c) for c in t.items])
    if t.kind == "array":
        return R.mk_array(twin(t.item), t.size)
    return t


def expect(t, v, handler_of):
    """Expected decode of raw leaf contents; raises UnicodeDecodeError."""
    if t.kind == "string":
        return codecs.utf_8_decode(v, handler_of(t.s), True)[0]
    if t.kind == "tuple":
        return tuple(expect(c, x, handler_of) for c, x in zip(t.items, v))
    if t.kind == "array":
        return tuple(expect(t.item, x, handler_of) for x in v)
    return R.canon(t, v)


class Env:
    """A registry whose string decoder(s) use given handlers."""

    def __init__(self, r):
        reg = default_registry.copy()
        self.handlers = {"string": "strict"}
        self.names = ["string"]
        if r.random() < 0.7:
            h = r.choice(HANDLERS)
            reg.unregister_decoder("string")
            reg.register_decoder(r.choice([BaseEquals("string"), BaseEquals("string", with_sub=False)]),
                                 StringDecoder(h) if r.random() < 0.5 else StringDecoder(handle_string_errors=h), label="string")
            self.handlers["string"] = h
        if r.random() < 0.3:
            reg.unregister_decoder("bytes")
            reg.register_decoder(BaseEquals("bytes", with_sub=False), ByteStringDecoder(), label="bytes")
        for h in r.sample(HANDLERS, r.choice([0, 1, 2, 4])):
            n = "text" + "".join(c for c in h if c.isalpha())
            reg.register_decoder(n, StringDecoder(handle_string_errors=h), label=n + "!")
            self.handlers[n] = h
            self.names.append(n)
        self.top = []
        for h in r.sample(HANDLERS, r.choice([0, 1])):
            n = h.replace(".", "_") + "_string"
            reg.register_decoder(n, StringDecoder(handle_string_errors=h), label=n)
            self.handlers[n] = h
            self.top.append(n)
        self.codec = ABICodec(reg)

    def decode(self, *a, **k):
        return self.codec.decode(*a, **k)


def judge(ctx, ts, raw, dec, handler_of, strict, kind, dirty=False):
    r = ctx.rng
    tw = [twin(t) for t in ts]
    data = R.enc_seq(tw, raw)
    if dirty:
        from .c05 import members

        spots = [(s + n, -n % 32) for s, n in members(tw, raw, 0, data, []) if n % 32]
        b = bytearray(data)
        for p, k in spots:
            for i in range(p, p + k):
                b[i] = r.randrange(256)
        if spots and spots[-1][0] + spots[-1][1] == len(b) and r.random() < 0.5:
            del b[spots[-1][0]:]
        data = bytes(b)
    try:
        want = tuple(expect(t, x, handler_of) for t, x in zip(ts, raw))
    except UnicodeDecodeError:
        want = None
    names = gen.strs(ts)
    o = ctx.call(dec, names, data, strict=strict)
    ctx.ev("evaluations")
    ctx.ev(kind)
    if len(ts) > 1 or ts[0].kind in ("tuple", "array"):
        ctx.ev("nested")
    hs = [handler_of(n) for n in ("string",)]
    ctx.mark(names, hs, data[:4096], strict)
    if want is None:
        ctx.ev("default_refused")
        if o.ok or not isinstance(o.e, UnicodeDecodeError):
            ctx.violate("malformed UTF-8 is not refused with UnicodeDecodeError", types=names, data=data.hex(), strict=strict, kind=kind, got=o.brief())
    elif not (o.ok and R.same(o.v, want)):
        ctx.violate("decoded text or bytes differ from the content", types=names, data=data.hex(), strict=strict, kind=kind,
                    handlers={n: handler_of(n) for n in ("string",)}, got=o.v if o.ok else o.brief(), want=want)


def text_case(ctx, s, kind="texts"):
    """One text: encode is the byte count and the UTF-8 bytes; decode gives it back."""
    raw = codecs.utf_8_encode(s)[0]
    w = R._word(32) + R._word(len(raw)) + raw + bytes(-len(raw) % 32)
    o = ctx.call(encode, ["string"], [s])
    ctx.ev("evaluations")
    ctx.ev(kind)
    ctx.mark("text", raw[:4096], len(raw))
    if not (o.ok and o.v == w):
        ctx.violate("text is not encoded as its UTF-8 bytes", text=s, got=o.v.hex() if o.ok else o.brief(), want=w.hex())
    o = ctx.call(decode, ["string"], w, strict=ctx.rng.random() < 0.5)
    ctx.ev("evaluations")
    if not (o.ok and R.same(o.v, (s,))):
        ctx.violate("text does not decode to itself", text=s, got=o.v if o.ok else o.brief())
    if ctx.rng.random() < 0.2:
        o = ctx.call(encode_packed, ["string"], [s])
        ctx.ev("evaluations")
        if not (o.ok and o.v == raw):
            ctx.violate("packed text is not its UTF-8 bytes", text=s, got=o.brief())


def rraw(ctx):
    """Raw content, often malformed, with the interesting part near a block boundary."""
    r = ctx.rng
    c = r.random()
    core = r.choice(BAD) if c < 0.55 else r.choice(GOOD) if c < 0.7 else r.randbytes(r.randint(0, 8))
    if c > 0.9:
        core += r.choice(BAD)
    n = r.choice([0, 0, 0, 1, 28, 29, 30, 31, 32, 33, 61, 62, 63, 64, r.randint(0, 130)])
    pre = r.choice([b"a", b"\x00", b"~"]) * n if r.random() < 0.7 else ("é" * (n // 2)).encode()
    post = r.choice([b"", b"", b"z", b"\x00", "é".encode(), b"q" * r.randint(0, 40), b"\xef\xbb\xbf"])
    return pre + core + post


def sys_part(ctx, g):
    r = ctx.rng
    # every code point, in blocks; a block also exercises every length class
    block = 64
    for i, b in enumerate(gen.share(range(0, 0x110000, block), ctx)):
        s = "".join(chr(c) for c in range(b, b + block) if not 0xD800 <= c <= 0xDFFF)
        if s:
            text_case(ctx, s, "codepoint_blocks")
        if s and (ctx.thorough or b < 0x3000 or 0xD000 <= b < 0x10000) and b < 0x20000:
            step = 1 if b < 0x3000 or b >= 0xF000 and b < 0x10000 else 7
            for c in s[::step]:
                text_case(ctx, c)
                if ctx.thorough:
                    text_case(ctx, "a" + c + c)
    # lengths by character width
    for n in gen.share(sorted(set(list(range(300 if ctx.thorough else 140)) + [255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097]
                                  + g.mined.lengths(9000))), ctx):
        for ch in ("a", "\x00", "é", "日", "\U0001f600", "\n", "\ufeff"):
            text_case(ctx, ch * n)
            text_case(ctx, ch * n + "b")
            text_case(ctx, "b" + ch * n)
    for s in gen.share(gen.TEXTS + g.mined.strs, ctx):
        for t in (s, s + s, s + "\x00", "\x00" + s, "\ufeff" + s, s + "\r\n", " " + s + " ", "a" * 31 + s):
            text_case(ctx, t)
        raw = s.encode()
        for ts, vs in gen.contexts(STRT, raw, b"w"):
            vs = _raw(ts, vs)
            judge(ctx, ts, vs, decode, lambda n: "strict", r.random() < 0.5, "contexts")
        for ts, vs in gen.contexts(STRT, s, "w"):
            o = ctx.call(encode, gen.strs(ts), vs)
            ctx.ev("evaluations")
            if not (o.ok and o.v == R.enc_seq(ts, vs)):
                ctx.violate("nested text is not encoded as its UTF-8 bytes", types=gen.strs(ts), values=vs, got=o.brief())
    # every malformed class with every handler in every context
    for bad in gen.share(BAD, ctx):
        for h in HANDLERS:
            reg = default_registry.copy()
            reg.unregister_decoder("string")
            reg.register_decoder(BaseEquals("string"), StringDecoder(handle_string_errors=h), label="string")
            codec = ABICodec(reg)
            for k in (0, 29, 30, 31, 32):
                content = b"a" * k + bad
                for strict in (True, False):
                    judge(ctx, [STRT], [content], codec.decode, lambda n: h, strict, "malformed")
                    judge(ctx, [BYTT], [content], codec.decode, lambda n: h, strict, "raw_bytes")
            ctxs = list(gen.contexts(STRT, bad, b"fine"))
            for ts, vs in ctxs if ctx.thorough else r.sample(ctxs, 10):
                judge(ctx, ts, _raw(ts, vs), codec.decode, lambda n: h, r.random() < 0.5, "handlers", dirty=False)
                judge(ctx, ts, _raw(ts, vs), codec.decode, lambda n: h, False, "handlers", dirty=True)
            st = ContextFramesBytesIO(R._word(len(bad)) + bad + bytes(-len(bad) % 32))
            o = ctx.call(StringDecoder(h).decode, st)
            ctx.ev("evaluations")
            try:
                want = bad.decode("utf-8", h)
            except UnicodeDecodeError:
                want = None
            if (o.ok and o.v != want) or (not o.ok and (want is not None or not isinstance(o.e, UnicodeDecodeError))):
                ctx.violate("StringDecoder object differs from bytes.decode", handler=h, content=bad.hex(), got=o.brief(), want=want)
    # big contents, fault near chunk boundaries
    for n in gen.share([1024, 4096, 8192, 65536, 131072, 1 << 20], ctx):
        for d in (-3, -2, -1, 0, 1):
            for mid in (b"\xff", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\xe2\x82", b"\xed\xa0\x80"):
                content = b"x" * (n + d) + mid + b"y" * r.choice([0, 1, 40])
                h = r.choice(HANDLERS)
                reg = default_registry.copy()
                reg.unregister_decoder("string")
                reg.register_decoder(BaseEquals("string"), StringDecoder(h), label="string")
                judge(ctx, [STRT], [content], ABICodec(reg).decode, lambda x: h, r.random() < 0.5, "big")
                judge(ctx, [BYTT], [content], decode, lambda x: "strict", True, "raw_bytes")


def _raw(ts, vs):
    """Encode the text values of a context's other members."""
    def f(t, v):
        if t.kind == "string":
            return v if isinstance(v, bytes) else v.encode()
        if t.kind == "tuple":
            return tuple(f(c, x) for c, x in zip(t.items, v))
        if t.kind == "array":
            return tuple(f(t.item, x) for x in v)
        return v

    return [f(t, v) for t, v in zip(ts, vs)]


def rtype(g, names, depth):
    r = g.r
    if depth <= 0 or r.random() < 0.3:
        c = r.random()
        if c < 0.65:
            return named(r.choice(names))
        return BYTT if c < 0.85 else g.leaf_static() if hasattr(g, "leaf_static") else gen.U8
    if r.random() < 0.5:
        return R.mk_tuple([rtype(g, names, depth - 1) for _ in range(r.randint(1, 4))])
    return R.mk_array(rtype(g, names, depth - 1), r.choice([None, None, 1, 2, 3]))


def rrawval(ctx, t):
    r = ctx.rng
    if t.kind in ("string", "bytes"):
        return rraw(ctx) if r.random() < 0.8 else ctx.g.rtext().encode()
    if t.kind == "tuple":
        return tuple(rrawval(ctx, c) for c in t.items)
    if t.kind == "array":
        n = t.size if t.size is not None else r.choice([0, 1, 2, 3])
        return tuple(rrawval(ctx, t.item) for _ in range(n))
    return ctx.g.rval(t)


def run(ctx):
    g, r = ctx.g, ctx.rng
    sys_part(ctx, g)
    ctx.ev("systematic_done")
    n = 0
    while ctx.more():
        env = Env(r)
        for _ in range(30):
            if not ctx.more():
                break
            ts = [rtype(g, env.names, r.choice([0, 1, 2, 3])) for _ in range(r.choice([1, 1, 2, 3]))]
            if env.top and r.random() < 0.3:
                ts.insert(r.randrange(len(ts) + 1), named(r.choice(env.top)))
            vs = [rrawval(ctx, t) for t in ts]
            strict = r.random() < 0.5
            judge(ctx, ts, vs, env.decode, lambda x: env.handlers[x], strict, "handlers", dirty=not strict and r.random() < 0.6)
            if n < 2:
                ctx.sample("random", (gen.strs(ts), env.handlers, vs))
            n += 1
        text_case(ctx, g.rtext())
        b = g.rbytes(g.rlen())
        judge(ctx, [BYTT], [b], decode, lambda x: "strict", True, "raw_bytes")
        o = ctx.call(encode, ["bytes"], [b])
        ctx.ev("evaluations")
        if not (o.ok and o.v == R.enc_seq([BYTT], [b])):
            ctx.violate("bytes are not encoded byte for byte", content=b.hex(), got=o.brief())
    ctx.ev("random", n)
