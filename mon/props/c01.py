"""C01: every encode call is compared, byte for byte, with the reference encoder."""
from .. import gen, refabi as R
from ..api import encode, ABICodec, default_registry

QUICK_S, THOROUGH_S = 25, 600
RULE = ("a case is (type list, values); types cover every integer and bytesN width, sampled fixed-point "
        "types, all member/dimension patterns up to a bound, length sweeps and random nestings; values are "
        "boundary, mined-constant and random. Non-trivial: the encoding has at least one word; distinct by "
        "(types, encoding).")
NEED = {"large": 20, "evaluations": 5000, "forms": 1000}


def check(ctx, ts, vs, form=True):
    want = R.enc_seq(ts, vs)
    names = gen.strs(ts)
    o = ctx.call(encode, names, vs if isinstance(vs, (list, tuple)) else list(vs))
    ctx.ev("evaluations")
    if want:
        ctx.mark(names, want[:4096], len(want))
    if not (o.ok and type(o.v) is bytes and o.v == want):
        ctx.violate("encode differs from the ABI encoding", types=names, values=vs, got=o.v.hex() if o.ok and isinstance(o.v, (bytes, bytearray)) else o.brief(), want=want.hex())
        return
    if form:
        r = ctx.rng
        fv = [ctx.g.form(t, v) for t, v in zip(ts, vs)]
        if r.random() < 0.5:
            fv = tuple(fv)
        nt = [t.canon_s for t in ts] if r.random() < 0.3 else names
        if r.random() < 0.5:
            nt = tuple(nt)
        o = ctx.call(encode, nt, fv)
        ctx.ev("evaluations")
        ctx.ev("forms")
        if not (o.ok and type(o.v) is bytes and o.v == want):
            ctx.violate("encode of another Python form of the same value differs", types=nt, values=fv, got=o.v.hex() if o.ok else o.brief(), want=want.hex())


def run(ctx):
    g = ctx.g
    if ctx.shard == 0:
        o = ctx.call(encode, [], [])
        ctx.ev("evaluations")
        if not (o.ok and o.v == b""):
            ctx.violate("encode of nothing is not empty", got=o.brief())
    for i, (ts, vs) in enumerate(gen.valid_cases(ctx, g)):
        big = len(vs) == 1 and hasattr(vs[0], "__len__") and len(vs[0]) > 600
        check(ctx, ts, vs, form=not big and (ctx.thorough or i % 4 == 0))
        if i < 3:
            ctx.sample("systematic", (gen.strs(ts), vs))
    for ts, vs in gen.large_cases(ctx, g):
        check(ctx, ts, vs, form=False)
        ctx.ev("large")
    ctx.ev("systematic_done")
    other = ABICodec(default_registry.copy())
    n = 0
    while ctx.more():
        ts, vs = gen.rand_case(g, depth=5)
        check(ctx, ts, vs, form=g.r.random() < 0.5)
        n += 1
        if n < 3:
            ctx.sample("random", (gen.strs(ts), vs))
        if n % 50 == 0:
            o = ctx.call(other.encode, gen.strs(ts), vs)
            ctx.ev("evaluations")
            if not (o.ok and o.v == R.enc_seq(ts, vs)):
                ctx.violate("encode of a codec over a copied registry differs", types=gen.strs(ts), values=vs, got=o.brief())
    ctx.ev("random", n)
