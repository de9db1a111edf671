"""C06: every encode outcome is compared with the value domain of the type: accepted
values must be stored exactly, others refused with the class the fault calls for."""
from .. import gen, refabi as R, zoo
from ..api import encode, enc_expected

QUICK_S, THOROUGH_S = 28, 600
RULE = ("a case is (type list, Python value): near misses at each bound of each basic type, a zoo of hostile values against "
        "many types, valid structures with one planted fault at a random depth, and sequence lengths off by one. "
        "Non-trivial: outside the domain, or inside and on a bound; distinct by (types, printed value).")
NEED = {"large_faults": 100, "refused": 5000, "accepted": 3000, "fault_T": 300, "fault_B": 300, "fault_I": 300, "zoo": 3000}
ASSUMPTIONS = ["bool for fixed-point types, memoryview as a sequence and 40/42-byte binary addresses are left unspecified",
               "Decimal exponents below decimal.MIN_EMIN are not generated"]


def judge(ctx, ts, vs, kind):
    names = gen.strs(ts)
    f = set()
    try:
        if len(ts) != len(vs):
            f.add("B")
        for t, v in zip(ts, vs):
            R.faults(t, v, f)
    except R.Unspecified:
        ctx.ev("unspecified")
        return
    want = None if f else R.enc_seq(ts, vs)
    o = ctx.call(encode, names, vs)
    ctx.ev("evaluations")
    ctx.ev(kind)
    if not f:
        ctx.ev("accepted")
        if not (o.ok and o.v == want):
            ctx.violate("a value of the type is refused or stored as something else", kind=kind, types=names, values=vs,
                        got=o.v.hex() if o.ok else o.brief(), want=want.hex())
        return
    ctx.ev("refused")
    for c in f:
        ctx.ev("fault_" + c)
    ctx.mark(names, repr_(vs))
    if o.ok:
        if f == {"I", "K1"} and o.v == R.enc_seq(ts, vs, k1=True):
            ctx.known_finding("K1", (names, vs))
            return
        ctx.violate("a value outside the type is accepted", kind=kind, types=names, values=vs, faults=sorted(f), got=o.v.hex() if isinstance(o.v, bytes) else o.v)
    elif not isinstance(o.e, enc_expected(f)):
        ctx.violate("a value outside the type is refused with the wrong exception", kind=kind, types=names, values=vs, faults=sorted(f), got=o.brief())


def repr_(v):
    from ..monitor import short

    return short(v, 2000)


def run(ctx):
    g, r = ctx.g, ctx.rng
    # near misses of every basic type, in several positions
    for s in gen.share(gen.BASIC_SAMPLE, ctx):
        t = R.basic(s)
        ok = g.rval(t)
        for x in zoo.near_misses(g, t):
            judge(ctx, [t], [x], "near")
            for ts, vs in (([R.mk_array(t, None)], [[ok, x]]), ([R.mk_tuple([gen.STR, t])], [("s", x)]), ([R.mk_array(t, 2)], [[x, ok]]),
                           ([R.mk_array(R.mk_tuple([t]), None)], [[(ok,), (x,)]]), ([gen.U8, R.mk_tuple([R.mk_tuple([gen.BYT, R.mk_array(t, None)])])], [1, ((b"", [x]),)])):
                if ctx.thorough or r.random() < 0.35:
                    judge(ctx, ts, vs, "near_nested")
        for v in g.edges(t):
            judge(ctx, [t], [v], "edges")
        ctx.sample("near misses", s)
    for ts, vs in gen.large_value_faults(ctx, g):
        judge(ctx, ts, vs, "large_faults")
    # zoo
    for s in gen.share(zoo.ZOO_TYPES, ctx):
        t = R.tparse(s)
        for x in zoo.fixed_zoo():
            judge(ctx, [t], [x], "zoo")
        for x in zoo.fixed_zoo():
            judge(ctx, [R.mk_array(t, None)], [[x]], "zoo")
            if ctx.thorough or r.random() < 0.3:
                judge(ctx, [R.mk_tuple([gen.STR, t])], [("k", x)], "zoo")
    # sequence lengths around the declared one
    for n in gen.share(sorted(set(list(range(1, 70)) + [100, 127, 128, 129, 255, 256, 257, 300] + [x for x in g.mined.lengths(600) if x])), ctx):
        for item, x in ((gen.U8, 1), (gen.STR, "a"), (R.mk_tuple([gen.U8, gen.BYT]), (1, b"")), (R.mk_array(gen.U8, 2), [1, 2])):
            for m in {0, 1, n - 2, n - 1, n, n + 1, n + 2, 2 * n, n // 2, n + 32, n + 256}:
                if m < 0:
                    continue
                judge(ctx, [R.mk_array(item, n)], [[x] * m], "seq_len")
                if m <= 70:
                    judge(ctx, [R.mk_array(R.mk_array(item, n), None)], [[[x] * n, [x] * m]], "seq_len")
                    judge(ctx, [R.mk_tuple([gen.STR, R.mk_array(item, n)])], [("s", (x,) * m)], "seq_len")
                if n <= 70 and m <= 140:
                    judge(ctx, [R.mk_tuple([item] * n)], [[x] * m], "seq_len")
                    judge(ctx, [item] * n, [x] * m, "seq_len")
    # excess precision over many digit counts
    for n in gen.share(range(1, 81), ctx):
        for m in (8, 64, 128, 256):
            for u in ("fixed", "ufixed"):
                t = R.basic(f"{u}{m}x{n}")
                lo, hi = R.int_range(t)
                for e in (1, 2, 3, 10, 28, 29, 30, 79, 80, 81, 200, 920, 999, 1000, 1001, 3000):
                    k = r.randint(0, hi)
                    judge(ctx, [t], [R.scaled_to_dec(k * 10**e + r.choice([1, 5, 9, 10 ** (e - 1)]), n + e)], "precision")
                    if u == "fixed":
                        judge(ctx, [t], [R.scaled_to_dec(-(k * 10**e) - r.choice([1, 5, 9]), n + e)], "precision")
    for t, v in zoo.long_values(g, lambda xs: gen.share(xs, ctx)):
        judge(ctx, [t], [v], "long")
    ctx.ev("systematic_done")
    n = 0
    while ctx.more():
        ts, vs = gen.rand_case(g, depth=4)
        if not ts:
            continue
        i = r.randrange(len(ts))
        vs = list(vs)
        if r.random() < 0.05:
            vs = vs + [1] if r.random() < 0.5 else vs[:-1]
        else:
            vs[i] = zoo.plant(g, ts[i], vs[i])
        if n < 3:
            ctx.sample("planted", (gen.strs(ts), vs))
        judge(ctx, ts, vs, "planted")
        n += 1
    ctx.ev("random", n)
