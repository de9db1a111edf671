"""C15: every fixed-point type, boundary and random values in every written form, under
hostile ambient decimal contexts, against digit-level integer arithmetic."""
import decimal
from decimal import Decimal

from .. import gen, refabi as R
from ..api import X, encode, decode, encode_packed, enc_expected
from .c14 import rand_context

QUICK_S, THOROUGH_S = 30, 600
RULE = ("a case is (type, value in one written form, ambient decimal context) for encode, packed encode and decode; all 5120 fixed and ufixed types are visited "
        "with boundary, power-of-ten, power-of-two and random stored integers, one-unit overruns and excess decimals. The oracle works on digit tuples, in no "
        "decimal context. Non-trivial: distinct by (type, digits of the value, verdict).")
NEED = {"types": 5120, "encoded": 60000, "decoded": 60000, "refused": 30000, "contexts": 20000, "forms": 20000}
ASSUMPTIONS = ["exponents are within what a decimal context can be set to (MIN_EMIN..MAX_EMAX)", "known finding K1 is tolerated exactly as listed"]

ALL = [(u, m, n) for u in ("", "u") for m in gen.WIDTHS for n in range(1, 81)]


def in_context(ctx, fn, *a):
    """The call under the caller's default or a hostile context; it must come back unchanged."""
    r = ctx.rng
    if r.random() < 0.5:
        return ctx.call(fn, *a)
    old = decimal.getcontext()
    decimal.setcontext(rand_context(r))
    try:
        ref = repr(decimal.getcontext())
        o = ctx.call(fn, *a)
        now = repr(decimal.getcontext())
    finally:
        decimal.setcontext(old)
    ctx.ev("contexts")
    if now.split("flags")[0] != ref.split("flags")[0]:
        ctx.violate("a fixed-point call changed the ambient decimal context", before=ref, after=now, args=a)
    return o


def k1_outputs(t, v, packed):
    """What K1 yields; past 999 digits the product is first rounded, possibly away from zero."""
    out = [R.penc(t, v, True) if packed else R.enc(t, v, True)]
    if len(v.as_tuple().digits) > 900:
        w = R.trunc_scaled(v, t.n) - 1
        out.append((w % 2**t.m).to_bytes(t.m // 8, "big") if packed else R._word(w))
    return out


def judge_enc(ctx, t, v, kind):
    codes = R.faults(t, v)
    packed = ctx.rng.random() < 0.35
    fn = encode_packed if packed else encode
    o = in_context(ctx, fn, [t.s], [v])
    ctx.ev("evaluations")
    ctx.ev(kind)
    key = v.as_tuple() if isinstance(v, Decimal) else v
    ctx.mark(t.s, key, packed, bool(codes))
    if codes == {"I", "K1"}:
        if not o.ok and isinstance(o.e, X.IllegalValue):
            ctx.ev("refused")
        elif o.ok and o.v in k1_outputs(t, v, packed):
            ctx.known_finding("K1", (t.s, str(v)[:80]))
        else:
            ctx.violate("excess decimals of a negative value: neither refused nor the known finding", type=t.s, value=v, packed=packed, got=o.brief())
    elif codes:
        ctx.ev("refused")
        if o.ok or not isinstance(o.e, enc_expected(codes)):
            ctx.violate("a fixed-point value outside the type was not refused as documented", type=t.s, value=v, packed=packed, got=o.v.hex() if o.ok else o.brief(), want=sorted(codes))
    else:
        ctx.ev("encoded")
        want = R.penc(t, v) if packed else R.enc(t, v)
        if not (o.ok and o.v == want):
            ctx.violate("fixed-point encoding is not the exact scaled integer", type=t.s, value=v, packed=packed, got=o.v.hex() if o.ok else o.brief(), want=want.hex())


def judge_dec(ctx, t, i, kind):
    i %= 2**256
    if t.kind == "fixed" and i >= 2**255:
        i -= 2**256
    o = in_context(ctx, decode, [t.s], R._word(i))
    ctx.ev("evaluations")
    ctx.ev(kind)
    lo, hi = R.int_range(t)
    ctx.mark(t.s, "dec", i)
    if lo <= i <= hi:
        ctx.ev("decoded")
        want = R.scaled_to_dec(i, t.n)
        if not (o.ok and len(o.v) == 1 and R.same(o.v[0], want)):
            ctx.violate("fixed-point decoding is not the exact quotient", type=t.s, stored=i, got=o.v if o.ok else o.brief(), want=want)
    else:
        if o.ok or not isinstance(o.e, X.NonEmptyPaddingBytes):
            ctx.violate("a stored integer wider than the type was decoded", type=t.s, stored=i, got=o.brief())


def stored(g, t, k):
    """Interesting stored integers of t."""
    r = g.r
    lo, hi = R.int_range(t)
    vs = {lo, lo + 1, hi, hi - 1, 0, 1, 10**t.n, 10**t.n - 1, 10**t.n + 1, hi // 10, hi // 2, hi // 10 * 10, hi // 10**t.n * 10**t.n}
    if lo:
        vs |= {-1, -(10**t.n), -(10**t.n) + 1, -(10**t.n) - 1, lo // 10, lo // 2, -(-lo // 10**t.n * 10**t.n)}
    for _ in range(k):
        vs.add(r.randint(lo, hi))
        j = r.randint(0, 78)
        vs |= {s * (10**j + d) for s in (1, -1) for d in (0, -1, 1)}
        vs.add(r.choice([1, -1]) * int("9" * r.randint(1, 78)))
        vs.add(2 ** r.randint(0, t.m) + r.choice([-1, 0, 1]))
        vs.add(r.choice(g._near))
    return [v for v in vs if lo <= v <= hi]


def forms(g, v):
    """v (an exact Decimal) in every written form."""
    s, d, e = v.as_tuple()
    out = [v, g.decform(v)]
    for z in (1, 3, 40, 1000):
        out.append(Decimal((s, d + (0,) * z, e - z)))
    sk, dk, ek = R.dec_key(v)
    if dk:
        out.append(Decimal((sk, dk, ek)))
        if ek >= 0:
            k = int("".join(map(str, dk))) * 10**ek
            out += [-k if s else k, gen.MyInt(-k if s else k), Decimal(-k if s else k)]
    else:
        out += [0, Decimal(0), Decimal("-0"), Decimal("0E+90"), Decimal("0E-500"), Decimal("-0.00")]
    out.append(gen.MyDec(v))
    return out


def visit(ctx, u, m, n, k):
    g, r = ctx.g, ctx.rng
    t = R.basic(f"{u}fixed{m}x{n}")
    lo, hi = R.int_range(t)
    ctx.ev("types")
    vals = stored(g, t, k)
    if not ctx.thorough and len(vals) > 16:
        vals = [lo, hi] + r.sample(vals, 14)
    S = R.scaled_to_dec
    for i in vals:
        judge_enc(ctx, t, S(i, n), "values")
        judge_dec(ctx, t, i, "stored")
    for i in r.sample(vals, min(len(vals), 3 if not ctx.thorough else 8)) + [hi]:
        for v in forms(g, S(i, n)):
            judge_enc(ctx, t, v, "forms")
    # one unit outside, and more decimals than the type has
    for i in {hi + 1, lo - 1, 2**m, -(2 ** (m - 1)) - 1, hi * 10, hi + r.randint(1, 2**m), -1, lo - r.randint(1, 2**m)}:
        judge_enc(ctx, t, S(i, n), "overrun")
        if i % 10**n == 0:
            judge_enc(ctx, t, i // 10**n, "overrun")
        if -(2**255) <= i < 2**256:
            judge_dec(ctx, t, i, "overrun_stored")
    for i in (hi // 10**n + 1, hi // 10**n, -(hi // 10**n) - 1):
        judge_enc(ctx, t, i, "whole")
    base = r.choice(vals)
    for e in (1, 2, r.randint(3, 60), r.choice([200, 920, 998, 1000, 1500])):
        for tail in (1, 5, 9, 10**e - 1, 10 ** (e - 1)):
            judge_enc(ctx, t, S(base * 10**e + tail, n + e), "excess")
            judge_enc(ctx, t, S(hi * 10**e + tail, n + e), "excess")
            judge_enc(ctx, t, S(-(abs(base) * 10**e) - tail, n + e), "excess")
    judge_enc(ctx, t, S(1, n + r.randint(1, 3000)), "excess")
    judge_enc(ctx, t, Decimal((0, (1,), r.choice([-10**6, -(10**9), 10**6, 10**9]))), "excess")


def run(ctx):
    r = ctx.rng
    order = list(gen.share(ALL, ctx))
    for u, m, n in order:
        visit(ctx, u, m, n, 4 if ctx.thorough else 2)
    ctx.ev("systematic_done")
    g = ctx.g
    c = 0
    while ctx.more():
        u, m, n = r.choice(ALL)
        t = R.basic(f"{u}fixed{m}x{n}")
        lo, hi = R.int_range(t)
        i = g.rint(lo, hi)
        judge_dec(ctx, t, i, "stored")
        judge_enc(ctx, t, r.choice(forms(g, R.scaled_to_dec(i, n))), "forms")
        e = r.randint(1, 40)
        judge_enc(ctx, t, R.scaled_to_dec(r.randint(lo - hi // 4, hi + hi // 4) * 10**e + r.choice([0, 0, 1, r.randrange(10**e)]), n + e), "random")
        if c < 3:
            ctx.sample("random", (t.s, i))
        c += 1
