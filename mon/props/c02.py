"""C02: encode then decode, the result compared in value and Python type with the
canonical form of what went in."""
from .. import gen, refabi as R
from ..api import encode, decode, ABICodec, default_registry

QUICK_S, THOROUGH_S = 25, 600
RULE = ("a case is (type list, values in some accepted form, strictness, bytes or bytearray, trailing bytes); "
        "types and values as in C01. Non-trivial: at least one value; distinct by (types, canonical values).")
NEED = {"large": 20, "evaluations": 5000, "nonstrict": 1000, "bytearray": 500, "trailing": 500}


def check(ctx, ts, vs, extra=True):
    r = ctx.rng
    want = tuple(R.canon(t, v) for t, v in zip(ts, vs))
    names = gen.strs(ts)
    o = ctx.call(encode, names, vs)
    ctx.ev("evaluations")
    if not o.ok:
        ctx.violate("a value of the type cannot be encoded", types=names, values=vs, got=o.brief())
        return
    data = o.v
    if ts:
        ctx.mark(names, repr(want)[:5000])
    variants = [(data, True, "plain"), (data, False, "nonstrict")]
    if extra:
        variants.append((bytearray(data), r.random() < 0.5, "bytearray"))
        tail = ctx.g.rbytes(r.choice([1, 31, 32, 33, 64, 100, 320]))
        variants.append((data + tail, r.random() < 0.7, "trailing"))
    for d, strict, kind in variants:
        o = ctx.call(decode, names, d, strict=strict) if r.random() < 0.9 or not strict else ctx.call(decode, names, d)
        ctx.ev("evaluations")
        ctx.ev(kind)
        if not (o.ok and type(o.v) is tuple and R.same(o.v, want)):
            ctx.violate("decode does not return what was encoded", types=names, values=vs, strict=strict, kind=kind,
                        data=d.hex(), got=o.v if o.ok else o.brief(), want=want)
            return


def run(ctx):
    g = ctx.g
    for i, (ts, vs) in enumerate(gen.valid_cases(ctx, g)):
        if i % 3 == 0 and not (len(vs) == 1 and hasattr(vs[0], "__len__") and len(vs[0]) > 600):
            vs = [g.form(t, v) for t, v in zip(ts, vs)]
        check(ctx, ts, vs, extra=ctx.thorough or i % 3 == 0)
        if i < 3:
            ctx.sample("systematic", (gen.strs(ts), vs))
    for ts, vs in gen.large_cases(ctx, g):
        check(ctx, ts, vs, extra=False)
        ctx.ev("large")
    ctx.ev("systematic_done")
    n = 0
    while ctx.more():
        ts, vs = gen.rand_case(g, depth=5)
        if g.r.random() < 0.5:
            vs = [g.form(t, v) for t, v in zip(ts, vs)]
        check(ctx, ts, vs)
        n += 1
        if n < 3:
            ctx.sample("random", (gen.strs(ts), vs))
    ctx.ev("random", n)
