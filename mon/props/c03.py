"""C03: payloads that the reference decoder accepts must decode to its value; layouts
are built non-canonically and payloads mutated."""
import itertools

from .. import gen, refabi as R
from ..api import decode

QUICK_S, THOROUGH_S = 28, 700
RULE = ("a case is (type list, payload): rearranged layouts (tails permuted, shared, gapped, unaligned, hoisted, "
        "trailing bytes), mutations of encodings, and all short payloads over a word alphabet; judged when the "
        "reference decoder accepts, or when decode returns. Non-trivial: accepted by the reference and holding at "
        "least one offset or more than one word; distinct by (types, payload).")
NEED = {"large": 20, "layouts": 2000, "mutants": 2000, "alphabet": 500, "accepted": 3000}
ASSUMPTIONS = ["payloads whose reference decoding exceeds the step budget are skipped and counted as skipped"]


def judge(ctx, ts, data, kind):
    names = gen.strs(ts)
    try:
        want, defects = R.dec(ts, data)
    except R.Budget:
        ctx.ev("skipped")
        return
    o = ctx.call(decode, gen.tform(ctx.rng, names), gen.dform(ctx.rng, data))
    ctx.ev("evaluations")
    ctx.ev(kind)
    if want is not None:
        ctx.ev("accepted")
        if len(data) > 32:
            ctx.mark(names, data)
        if not (o.ok and R.same(o.v, want)):
            ctx.violate("a well-formed payload does not decode to its value", kind=kind, types=names, data=bytes(data).hex(),
                        got=o.v if o.ok else o.brief(), want=want)
    elif o.ok:
        ctx.violate("decode returned a value for a payload that designates none", kind=kind, types=names,
                    data=bytes(data).hex(), got=o.v, defects=sorted(defects))


ALPHABET_TYPES = ["string", "bytes", "uint8[]", "bytes[]", "string[1]", "(string)", "(uint8,bytes)", "uint256[][]",
                  "(uint8[],string)", "bytes[2]", "(bytes,(string))", "(uint8,uint8)[]", "((uint8,uint8),bytes)",
                  "(uint8[2],string)", "(bool,string)[]", "uint8[2][]", "string[][]", "((string))[1]"]
ALPHABET = [0, 1, 2, 3, 31, 32, 33, 64, 96, 128, 160, 2**255, 2**256 - 1, 1 << 248]


def layouts(ctx, ts, vs, n=3, kind="layouts"):
    g = ctx.g
    for _ in range(n):
        data = gen.random_layout(g).build(ts, vs)
        if g.r.random() < 0.4:
            data += g.rbytes(g.r.choice([1, 5, 31, 32, 64]))
        got, defects = R.dec(ts, data, budget=10**6)
        assert got is not None and R.same(got, tuple(R.canon(t, v) for t, v in zip(ts, vs))), (ts, vs, data.hex(), defects)
        judge(ctx, ts, data, kind)


def alphabet(ctx):
    top = 4 if ctx.thorough else 3
    words = [R._word(w) for w in ALPHABET]
    for ti, s in enumerate(ALPHABET_TYPES):
        t = [R.tparse(s)]
        for n in range(0, top + 1):
            for j, ws in enumerate(itertools.product(words, repeat=n)):
                if (j + ti) % ctx.nshards == ctx.shard:
                    yield t, b"".join(ws)
        # longer ones, sampled, mostly led by a usable offset
        for _ in range(4000 if ctx.thorough else 250):
            n = ctx.rng.randint(4, 8)
            ws = [ctx.rng.choice(words) for _ in range(n)]
            ws[0] = R._word(32)
            yield t, b"".join(ws)


def run(ctx):
    g = ctx.g
    r = g.r
    for i, (ts, vs) in enumerate(gen.valid_cases(ctx, g, scale=0.4)):
        if any(t.dyn for t in ts):
            heavy = len(vs) == 1 and hasattr(vs[0], "__len__") and len(vs[0]) > 300
            if not heavy or i % 5 == 0:
                layouts(ctx, ts, vs, 1 if heavy else 2)
        elif i % 7 == 0:
            judge(ctx, ts, R.enc_seq(ts, vs) + g.rbytes(r.choice([0, 1, 40])), "static")
    for ts, vs in gen.large_cases(ctx, g):
        layouts(ctx, ts, vs, 1, "large")
    ctx.ev("systematic_done")
    for ts, data in alphabet(ctx):
        judge(ctx, ts, data, "alphabet")
    n = 0
    prev = b""
    while ctx.more():
        ts, vs = gen.rand_case(g, depth=4)
        if not ts:
            continue
        if any(t.dyn for t in ts):
            layouts(ctx, ts, vs, 2)
        base = R.enc_seq(ts, vs) if r.random() < 0.6 else gen.random_layout(g).build(ts, vs)
        if n < 3:
            ctx.sample("layout", (gen.strs(ts), base.hex()))
        for _ in range(6):
            d = gen.mutate(g, base, prev)
            if r.random() < 0.2:
                d = gen.mutate(g, d, prev)
            judge(ctx, ts, d, "mutants")
        if len(base) < 2000:
            prev = base
        n += 1
    ctx.ev("random", n)
