"""C08: every encode_packed outcome is compared with the packed reference or the domain."""
from .. import gen, refabi as R, zoo
from ..api import encode_packed, enc_expected
from .c06 import repr_

QUICK_S, THOROUGH_S = 25, 500
RULE = ("a case is (type list, values) as in C01, or a value outside the domain as in C06, given to encode_packed. "
        "Non-trivial: non-empty output or a refused value; distinct by (types, output or printed value).")
NEED = {"large_faults": 100, "large": 20, "accepted": 5000, "refused": 3000}
ASSUMPTIONS = ["bool for fixed-point types, memoryview as a sequence and 40/42-byte binary addresses are left unspecified"]


def judge(ctx, ts, vs, kind):
    names = gen.strs(ts)
    f = set()
    try:
        if len(ts) != len(vs):
            f.add("B")
        for t, v in zip(ts, vs):
            R.faults(t, v, f)
    except R.Unspecified:
        ctx.ev("unspecified")
        return
    o = ctx.call(encode_packed, names, vs)
    ctx.ev("evaluations")
    ctx.ev(kind)
    if not f:
        want = b"".join(R.penc(t, v) for t, v in zip(ts, vs))
        ctx.ev("accepted")
        if want:
            ctx.mark(names, want[:4096], len(want))
        if not (o.ok and type(o.v) is bytes and o.v == want):
            ctx.violate("encode_packed is not the concatenation of the parts", kind=kind, types=names, values=vs,
                        got=o.v.hex() if o.ok and isinstance(o.v, (bytes, bytearray)) else o.brief(), want=want.hex())
        return
    ctx.ev("refused")
    ctx.mark(names, repr_(vs))
    if o.ok:
        if f == {"I", "K1"} and o.v == b"".join(R.penc(t, v, k1=True) for t, v in zip(ts, vs)):
            ctx.known_finding("K1", (names, vs))
            return
        ctx.violate("encode_packed accepts a value outside the type", kind=kind, types=names, values=vs, faults=sorted(f), got=o.v)
    elif not isinstance(o.e, enc_expected(f)):
        ctx.violate("encode_packed refuses with the wrong exception", kind=kind, types=names, values=vs, faults=sorted(f), got=o.brief())


def run(ctx):
    g, r = ctx.g, ctx.rng
    for i, (ts, vs) in enumerate(gen.valid_cases(ctx, g, scale=0.7)):
        big = len(vs) == 1 and hasattr(vs[0], "__len__") and len(vs[0]) > 600
        if i % 3 == 0 and not big:
            vs = [g.form(t, v) for t, v in zip(ts, vs)]
        judge(ctx, ts, vs, "systematic")
        if i < 2:
            ctx.sample("systematic", (gen.strs(ts), vs))
    for ts, vs in gen.large_cases(ctx, g):
        judge(ctx, ts, vs, "large")
    for ts, vs in gen.large_value_faults(ctx, g):
        judge(ctx, ts, vs, "large_faults")
    for s in gen.share(gen.BASIC_SAMPLE, ctx):
        t = R.basic(s)
        ok = g.rval(t)
        for x in zoo.near_misses(g, t):
            judge(ctx, [t], [x], "near")
            if r.random() < 0.3 or ctx.thorough:
                judge(ctx, [R.mk_array(t, None)], [[ok, x]], "near")
                judge(ctx, [R.mk_tuple([gen.STR, R.mk_array(t, 2)])], [("s", [x, ok])], "near")
    # all fixed-point types
    for m in gen.share(gen.WIDTHS, ctx):
        for n in range(1, 81):
            for u in ("fixed", "ufixed"):
                t = R.basic(f"{u}{m}x{n}")
                lo, hi = R.int_range(t)
                for v in (lo, hi, r.randint(lo, hi)):
                    judge(ctx, [t], [R.scaled_to_dec(v, n)], "fixed")
    for s in gen.share(zoo.ZOO_TYPES, ctx):
        t = R.tparse(s)
        for x in zoo.fixed_zoo():
            judge(ctx, [t], [x], "zoo")
    for n in gen.share(list(range(1, 50)) + [128, 256], ctx):
        for item, x in ((gen.U8, 1), (gen.STR, "a"), (R.mk_tuple([gen.U8, gen.BYT]), (1, b"q")), (R.mk_array(gen.U8, 2), [1, 2])):
            for m in {0, n - 1, n, n + 1, 2 * n}:
                judge(ctx, [R.mk_array(item, n)], [[x] * m], "seq_len")
                judge(ctx, [R.mk_array(R.mk_array(item, n), None)], [[[x] * n, [x] * m]], "seq_len")
                judge(ctx, [R.mk_tuple([item] * n)], [[x] * m], "seq_len")
    for t, v in zoo.long_values(g, lambda xs: gen.share(xs, ctx)):
        judge(ctx, [t], [v], "long")
    ctx.ev("systematic_done")
    n = 0
    while ctx.more():
        ts, vs = gen.rand_case(g, depth=5)
        if not ts:
            continue
        vs = [g.form(t, v) for t, v in zip(ts, vs)]
        if n % 3 == 0:
            i = r.randrange(len(ts))
            vs[i] = zoo.plant(g, ts[i], vs[i])
        if n < 3:
            ctx.sample("random", (gen.strs(ts), vs))
        judge(ctx, ts, vs, "random")
        n += 1
