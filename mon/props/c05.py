"""C05: non-strict decode against the lenient reference, and histories of strict and
non-strict calls on shared registries."""
from .. import gen, refabi as R
from ..api import decode, dec_expected, ABICodec, default_registry
from . import c03, c04
from eth_abi.decoding import ByteStringDecoder, StringDecoder
from eth_abi.registry import BaseEquals

QUICK_S, THOROUGH_S = 28, 600
RULE = ("a case is (type list, payload, strictness) or a history of 40 such calls on one registry; payloads have "
        "missing or dirty padding at every byte string, all other single faults, mutants and short payloads over a "
        "word alphabet. Non-trivial: strict and non-strict reference verdicts differ, or non-strict rejects; "
        "distinct by (types, payload).")
NEED = {"large_faults": 200, "nonstrict": 5000, "relaxed": 500, "histories": 100, "nonstrict_rejected": 500}
ASSUMPTIONS = ["payloads whose reference decoding exceeds the step budget are skipped"]


def judge(ctx, ts, data, kind, codec_decode=decode, errors="strict", both=True):
    names = gen.strs(ts)
    try:
        want, defects = R.dec(ts, data, strict=False, errors=errors)
        swant, sdefects = R.dec(ts, data, strict=True, errors=errors)
    except R.Budget:
        ctx.ev("skipped")
        return
    order = [False, True] if ctx.rng.random() < 0.5 else [True, False]
    if not both:
        order = [ctx.rng.random() < 0.4]
    if (want is None) != (swant is None):
        ctx.ev("relaxed")
        ctx.mark(names, bytes(data))
    elif want is None:
        ctx.mark(names, bytes(data))
    for strict in order:
        w, d = (swant, sdefects) if strict else (want, defects)
        o = ctx.call(codec_decode, gen.tform(ctx.rng, names), gen.dform(ctx.rng, data), strict=strict)
        ctx.ev("evaluations")
        ctx.ev(kind)
        ctx.ev("strict" if strict else "nonstrict")
        if w is None and not strict:
            ctx.ev("nonstrict_rejected")
        if w is not None:
            good = o.ok and R.same(o.v, w)
        else:
            good = (not o.ok) and isinstance(o.e, dec_expected(d))
        if not good:
            ctx.violate("decode under the given strictness differs from the rules", strict=strict, order=order, kind=kind, errors=errors,
                        types=names, data=bytes(data).hex(), got=o.v if o.ok else o.brief(), want=w if w is not None else sorted(d))


def byte_strings(t, v, pos, base, data, out):
    """Positions (start, length) of byte string contents in the canonical encoding."""
    k = t.kind
    if k in ("bytes", "string"):
        n = int.from_bytes(data[pos : pos + 32], "big")
        out.append((pos + 32, n))
    elif k == "tuple":
        members(t.items, v, pos, data, out)
    elif k == "array":
        if t.size is None:
            pos += 32
        members((t.item,) * len(v), v, pos, data, out)


def members(ts, vs, pos, data, out):
    base = pos
    for t, v in zip(ts, vs):
        if t.dyn:
            off = int.from_bytes(data[pos : pos + 32], "big")
            byte_strings(t, v, base + off, base, data, out)
            pos += 32
        else:
            pos += t.hs
    return out


def dirty(ctx, ts, vs):
    """Dirty or cut the padding of each byte string in turn, then of several."""
    r = ctx.rng
    data = R.enc_seq(ts, vs)
    spots = [(s + n, -n % 32) for s, n in members(ts, vs, 0, data, []) if n % 32]
    if not spots:
        return
    for p, k in spots if len(spots) < 12 else r.sample(spots, 12):
        b = bytearray(data)
        b[p + r.randrange(k)] = r.choice([1, 0x80, 0xFF])
        judge(ctx, ts, bytes(b), "dirty_padding")
        if p + k == len(data):
            for cut in {p, p + 1, p + k - 1, p + r.randrange(k)}:
                judge(ctx, ts, data[:cut], "missing_padding")
            judge(ctx, ts, data[: p - 1], "missing_content")
    b = bytearray(data)
    for p, k in spots:
        for i in range(p, p + k):
            b[i] = r.randrange(256)
    judge(ctx, ts, bytes(b), "dirty_padding")


def history(ctx, n=40):
    """One registry, interleaved strict and non-strict calls; the model has no memory."""
    g, r = ctx.g, ctx.rng
    kind = r.choice(["default", "copy", "instances", "instances", "shared"])
    errors = "strict"
    if kind == "default":
        dec = decode
    else:
        reg = default_registry.copy()
        if kind in ("instances", "shared"):
            errors = r.choice(["strict", "replace", "ignore", "backslashreplace"])
            reg.unregister_decoder("string")
            reg.register_decoder(BaseEquals("string"), StringDecoder(errors), label="string")
            reg.unregister_decoder("bytes")
            reg.register_decoder(BaseEquals("bytes", with_sub=False), ByteStringDecoder(), label="bytes")
        codec = ABICodec(reg)
        if kind == "shared":
            other = ABICodec(reg.copy())
            codecs = [codec, other]

            def dec(*a, **k):
                return r.choice(codecs).decode(*a, **k)
        else:
            dec = codec.decode
    pool = []
    for _ in range(4):
        while True:
            ts, vs = gen.rand_case(g, depth=2, width=3)
            ts = ts[:2]
            vs = vs[:2]
            if ts and any(t.dyn for t in ts):
                break
        data = R.enc_seq(ts, vs)
        pool.append((ts, data))
        spots = [(s + n, -n % 32) for s, n in members(ts, vs, 0, data, []) if n % 32]
        for p, k in spots[:3]:
            b = bytearray(data)
            b[p] ^= 0x55
            pool.append((ts, bytes(b)))
            if p + k == len(data):
                pool.append((ts, data[:p]))
        pool.append((ts, gen.mutate(g, data)))
    for s in ("string", "bytes", "string[]", "(string,bytes)", "bytes[2]"):
        t = R.tparse(s)
        v = {"string": "ab", "bytes": b"ab", "string[]": ["ab", "c"], "(string,bytes)": ("a", b"b"), "bytes[2]": [b"q", b"rs"]}[s]
        d = bytearray(R.enc_seq([t], [v]))
        d[-1] = 7
        pool.append(([t], bytes(d)))
        pool.append(([t], bytes(d[:-20])))
    seq = []
    for _ in range(n):
        ts, data = r.choice(pool)
        seq.append((gen.strs(ts), data.hex()))
        judge(ctx, ts, data, "history_calls", codec_decode=dec, errors=errors, both=False)
    ctx.ev("histories")
    ctx.ev("histories_" + kind)


def run(ctx):
    g, r = ctx.g, ctx.rng
    # every length, every position of a byte string
    for n in gen.share(sorted(set(list(range(0, 200)) + g.mined.lengths(3000) + [255, 256, 257, 1000, 1023, 1025, 4095, 4097])), ctx):
        for k in ("bytes", "string"):
            t = R.basic(k)
            c = b"\xc3\xa9"[:1] * n if k == "bytes" else "y" * n
            for ts, vs in gen.contexts(t, c, c[: n // 2]):
                if n < 70 or r.random() < 0.3 or ctx.thorough:
                    dirty(ctx, ts, vs)
    for s, v in gen.share(c04.FIXTURES, ctx):
        t = R.tparse(s)
        data = R.enc_seq([t], [v])
        dirty(ctx, [t], [v])
        for c in range(len(data)):
            judge(ctx, [t], data[:c], "truncations")
        for i in range(len(data)):
            b = bytearray(data)
            b[i] ^= r.choice([1, 0x80, 0xFF])
            judge(ctx, [t], bytes(b), "byte_faults")
        for i in range(0, len(data) - 31, 32):
            for w in gen.WORDS:
                judge(ctx, [t], data[:i] + R._word(w) + data[i + 32 :], "word_faults")
        ctx.sample("fixture", s)
    for ts, data in gen.large_payload_faults(ctx, g):
        judge(ctx, ts, data, "large_faults", both=len(data) < 40000)
    # static types are never relaxed
    for s in gen.share(gen.BASIC_SAMPLE, ctx):
        t = R.basic(s)
        if t.dyn:
            continue
        v = g.rval(t)
        for ts, vs, off in (([t], [v], 0), ([R.mk_array(t, None)], [[v]], 64), ([gen.STR, R.mk_tuple([t, gen.STR])], ["s", (v, "k")], 128)):
            data = R.enc_seq(ts, vs)
            for i in range(off, off + 32):
                b = bytearray(data)
                b[i] ^= r.choice([1, 2, 0x40, 0x80, 0xFF])
                judge(ctx, ts, bytes(b), "static_faults")
            judge(ctx, ts, data[: off + 31], "static_faults")
    for ts, data in c04.bad_utf8(ctx):
        if r.random() < 1 / ctx.nshards:
            judge(ctx, ts, data, "bad_utf8")
    for i, (ts, data) in enumerate(c03.alphabet(ctx)):
        if i % 4 == 0 or ctx.thorough:
            judge(ctx, ts, data, "alphabet")
    for _ in range(25):
        history(ctx)
    ctx.ev("systematic_done")
    n = 0
    prev = b""
    while ctx.more():
        ts, vs = gen.rand_case(g, depth=4)
        if not ts:
            continue
        dirty(ctx, ts, vs)
        base = R.enc_seq(ts, vs) if r.random() < 0.7 else gen.random_layout(g).build(ts, vs)
        if n < 2:
            ctx.sample("random base", (gen.strs(ts), base.hex()))
        for _ in range(5):
            judge(ctx, ts, gen.mutate(g, base, prev), "mutants")
        if len(base) < 2000:
            prev = base
        if n % 20 == 0:
            history(ctx)
        n += 1
    ctx.ev("random", n)
