"""C23: the matchers decide by the parsed type, for any string, and compare by what they match."""
import copy
import itertools

from eth_abi import registry as RG
from eth_abi.registry import BaseEquals, Equals, Predicate, PredicateMapping, has_arrlist, is_base_tuple

from .. import gen, refabi as R, regmodel as M
from . import c09

QUICK_S, THOROUGH_S = 22, 300
RULE = ("a case is (matcher, string): every matcher kind with many bases and settings against valid, near-valid, malformed and hostile strings; "
        "the answer is compared with an independent recognizer. Pairs of matchers are compared for equality, hash and use as keys. "
        "Non-trivial: distinct by (matcher, string).")
NEED = {"matches": 20000, "mismatches": 50000, "malformed": 20000, "pairs": 20000, "keys": 500, "tuples": 3000, "arrays": 3000}
ASSUMPTIONS = ["strings nested at most 40 deep"]

WS = [None, True, False]
BASES = c09.BASES + ["uint8", "bytes32", "uint[]", "(uint8)", "", "UINT", " uint", "uint ", "int\n", "ufixed", "no", "[", "1"]


def matchers(r):
    k = r.randrange(10)
    if k < 5:
        b, w = r.choice(BASES), r.choice(WS)
        return BaseEquals(b) if w is None and r.random() < 0.5 else BaseEquals(b, with_sub=w)
    if k < 7:
        return Equals(r.choice([c09.rstr(r, 1), r.choice(BASES), "uint8", "uint8[]", "(uint8)"]))
    return r.choice([has_arrlist, is_base_tuple])


def judge(ctx, m, s):
    want = M.matches(m, s)
    o = ctx.call(m, s)
    ctx.ev("evaluations")
    ctx.ev("matches" if want else "mismatches")
    g = R.gparse(s)
    if g is None:
        ctx.ev("malformed")
    else:
        if g.comps is not None:
            ctx.ev("tuples")
        if g.dims:
            ctx.ev("arrays")
    ctx.mark(repr(m), s)
    if not o.ok:
        ctx.violate("a matcher raised", matcher=repr(m), string=s, got=o.brief())
    elif bool(o.v) is not want:
        ctx.violate("a matcher decides wrongly", matcher=repr(m), string=s, got=o.v, want=want)


def pair(ctx, a, b):
    want = M.pkey(a) == M.pkey(b)
    ctx.ev("evaluations")
    ctx.ev("pairs")
    o = ctx.call(lambda: (a == b, b == a, not (a != b), hash(a) == hash(b)))
    ctx.mark("pair", repr(a), repr(b))
    if not o.ok:
        ctx.violate("comparing matchers raised", a=repr(a), b=repr(b), got=o.brief())
    elif o.v[:3] != (want,) * 3 or (want and not o.v[3]):
        ctx.violate("matchers compare wrongly", a=repr(a), b=repr(b), equal_both_ways_not_unequal_same_hash=o.v, must_be_equal=want)


class Sub(BaseEquals):
    __slots__ = ()


class SubE(Equals):
    __slots__ = ()


class Two(Predicate):
    __slots__ = ("base", "with_sub")

    def __init__(self, base, with_sub=None):
        self.base, self.with_sub = base, with_sub

    def __call__(self, s):
        return s == self.base

    def __str__(self):
        return f"two {self.base!r} {self.with_sub!r}"


def keys(ctx):
    """Matchers as keys: of a dict, and of a mapping that refuses the same twice."""
    r = ctx.rng
    ms = [matchers(r) for _ in range(r.randint(3, 14))]
    real, model = PredicateMapping("m"), {}
    for i, m in enumerate(ms):
        ok = M.pkey(m) not in model
        o = ctx.call(real.add, m, i)
        ctx.ev("evaluations")
        ctx.ev("keys")
        if o.ok is not ok:
            ctx.violate("equal matchers are not refused, or different ones are", matchers=[repr(x) for x in ms[: i + 1]], got=o.brief())
            return
        if ok:
            model[M.pkey(m)] = i
    d = {m: None for m in ms if isinstance(m, Predicate)}
    ctx.ev("evaluations")
    if len(d) != len({M.pkey(m) for m in ms if isinstance(m, Predicate)}):
        ctx.violate("matchers as dictionary keys are mistaken for each other", matchers=[repr(x) for x in ms], keys=[repr(x) for x in d])


def odd_pairs(ctx):
    """A matcher is equal only to one of its own class with the same settings."""
    for b, w in itertools.product(["uint", "bytes", "foo", ""], WS):
        group = [BaseEquals(b, with_sub=w), Sub(b, with_sub=w), Two(b, w), Equals(b), SubE(b), Equals((b, w)), (b, w), b, None, 5]
        for (i, x), (j, y) in itertools.product(enumerate(group), repeat=2):
            ctx.ev("evaluations")
            ctx.ev("pairs")
            o = ctx.call(lambda: (x == y, x != y))
            if not o.ok or o.v != (i == j, i != j):
                ctx.violate("matchers of different kinds compare wrongly", a=repr(x), b=repr(y), types=(type(x).__name__, type(y).__name__), got=o.brief())
        for x in group[:6]:
            for c in (copy.copy, copy.deepcopy):
                o = ctx.call(c, x)
                ctx.ev("evaluations")
                if o.ok and not (type(o.v) is type(x) and o.v == x and hash(o.v) == hash(x)):
                    ctx.violate("a copied matcher is not equal to the original", matcher=repr(x), got=o.brief())
        for x in group[:6]:
            o = ctx.call(lambda: (str(x), repr(x), list(x)))
            if not o.ok or not all(isinstance(s, str) and s for s in o.v[:2]):
                ctx.violate("a matcher does not print", matcher=type(x).__name__, got=o.brief())


def run(ctx):
    g, r = ctx.g, ctx.rng
    if ctx.shard == 0:
        odd_pairs(ctx)
    every = [BaseEquals(b, with_sub=w) for b in BASES for w in WS] + [Equals(b) for b in BASES] + [has_arrlist, is_base_tuple]
    for a, b in gen.share(itertools.product(every, repeat=2), ctx):
        pair(ctx, a, b if r.random() < 0.5 or not isinstance(b, (Equals, BaseEquals)) else (Equals("".join(list(b.value))) if isinstance(b, Equals) else BaseEquals("".join(list(b.base)), with_sub=b.with_sub)))
    subs = ["", "1", "7", "8", "08", "256", "264", "8x1", "128x18", "8x", "x8", "0", "00", " 8", "8 ", "٣", "-8", "1.5"]
    dims = ["", "[]", "[1]", "[0]", "[01]", "[][]", "[2][]", "[ ]", "[-1]", "[", "]", "[]x", "[a]", "[1"]
    for b in gen.share(c09.BASES + ["ufixed", "UINT", "uinT"], ctx):
        for s, d in itertools.product(subs, dims):
            for frame in ("@", "(@)", "(@,bool)", "(@)[]", "@ ", " @", "@\n", "(@", "@)", "((@))[2]"):
                if frame != "@" and r.random() < 0.6:
                    continue
                x = frame.replace("@", b + s + d)
                for m in (BaseEquals(b), BaseEquals(b, with_sub=True), BaseEquals(b, with_sub=False), has_arrlist, is_base_tuple, Equals("".join(list(x))), BaseEquals(b + s), BaseEquals(r.choice(BASES))):
                    judge(ctx, m, x)
    for t in gen.share(["", "(", ")", "()", "()[]", "[]", "[2]", ",", "(,)", "(uint8,)", "\x00", "uint\x00", "\ud800", "é", "🦄", "a" * 3000, "(" * 40 + "bool" + ")" * 40, "bool" + "[]" * 40,
                        "uint8[" + "1" * 300 + "]", "uint" + "8" * 300, "No matching", "tuple", "tuple[]", "(bool)[" + "9" * 40 + "][]"], ctx):
        for m in every:
            judge(ctx, m, t)
    ctx.ev("systematic_done")
    n = 0
    while ctx.more():
        s = c09.rstr(r, 3)
        if r.random() < 0.5:
            for _ in range(r.randint(1, 2)):
                s = c09.edits(r, s)
        for _ in range(6):
            judge(ctx, matchers(r), s)
        gp = R.gparse(s)
        judge(ctx, has_arrlist, s)
        judge(ctx, is_base_tuple, s)
        judge(ctx, Equals("".join(list(s))), s)
        if gp is not None and gp.comps is None:
            for w in WS:
                judge(ctx, BaseEquals(gp.base, with_sub=w), s)
        pair(ctx, matchers(r), matchers(r))
        if n % 20 == 0:
            keys(ctx)
        if n < 3:
            ctx.sample("string", s)
        n += 1
    ctx.ev("random", n)


RG
