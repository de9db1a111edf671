"""C10: for every type string, the five entry points find a coder exactly when the
reference says the type is valid; aliases behave as their canonical names."""
from .. import gen, refabi as R, zoo
from ..api import X, decode, encode, encode_packed, is_encodable, is_encodable_packed, is_encodable_type
from eth_abi.grammar import normalize, parse
from eth_abi.tools import get_abi_strategy
from hypothesis.strategies import SearchStrategy

QUICK_S, THOROUGH_S = 28, 500
RULE = ("a case is a type string: every base with every suffix in and around the valid ranges, bare and in seven nestings, random valid "
        "types with one component made invalid, and every alias in every context compared with its canonical name. Non-trivial: "
        "distinct type strings.")
NEED = {"valid": 500, "invalid": 3000, "alias": 300, "strategy": 1000, "validate_refused": 1000, "validate_passed": 500}
ASSUMPTIONS = ["an unusable type string must raise ParseError or a ValueError (ABITypeError and NoEntriesFound are ValueErrors)"]
LOOKUP = (X.ParseError, ValueError)


def not_found(o):
    return not o.ok and isinstance(o.e, LOOKUP) and not isinstance(o.e, (X.EncodingError, X.DecodingError, UnicodeError))


def impossible(n):
    """Whether a known base occurs with a size it cannot have."""
    if n.comps is not None:
        return any(map(impossible, n.comps))
    b, k = n.base, n.sub
    if b in ("string", "address", "bool"):
        return k is not None
    if b == "bytes":
        return not (k is None or isinstance(k, int) and 1 <= k <= 32)
    if b in ("int", "uint"):
        return not (isinstance(k, int) and 8 <= k <= 256 and k % 8 == 0)
    if b in ("fixed", "ufixed"):
        return not (isinstance(k, tuple) and 8 <= k[0] <= 256 and k[0] % 8 == 0 and 1 <= k[1] <= 80)
    return b == "hash" and not isinstance(k, int)


def judge_validate(ctx, s):
    """validate() on the parsed type: ABITypeError exactly for impossible sizes."""
    n = R.gparse(R.normalize(s))
    if n is None:
        return
    o = ctx.call(lambda: parse(normalize(s)).validate())
    bad = impossible(n)
    ctx.ev("validate_refused" if bad else "validate_passed")
    if (not isinstance(o.e, X.ABITypeError)) if bad else not (o.ok and o.v is None):
        ctx.violate("validate() is wrong about the sizes in a type", type=s, impossible=bad, got=o.brief())
        return

    def part():
        # the item type of an array, down to the innermost, is a type of its own
        t = parse(normalize(s))
        while t.is_array:
            t = t.item_type
            t.validate()
        t.validate()

    o = ctx.call(part)
    ctx.ev("evaluations")
    if o.ok == bad or (not o.ok and not isinstance(o.e, X.ABITypeError)):
        ctx.violate("validate() is wrong about the sizes in the item type of a type", type=s, impossible=bad, got=o.brief())


def judge(ctx, s, kind, strategy=True):
    t = R.tparse(s)
    r, g = ctx.rng, ctx.g
    ctx.ev("evaluations")
    ctx.ev(kind)
    ctx.mark(s)
    judge_validate(ctx, s)
    a = ctx.call(is_encodable_type, s)
    if not (a.ok and a.v is (t is not None)):
        ctx.violate("is_encodable_type is wrong about a type", type=s, valid=t is not None, got=a.brief())
    if t is None:
        ctx.ev("invalid")
        v = r.choice([None, 0, 1, "", b"", [], [1], (1,), True, [(1,)], "a"])
        d = r.choice([b"", bytes(32), R._word(32), R._word(32) + bytes(64), r.randbytes(64)])
        outs = [("encode", ctx.call(encode, [s], [v])), ("decode", ctx.call(decode, [s], d)), ("encode_packed", ctx.call(encode_packed, [s], [v]))]
        if r.random() < 0.3:
            outs.append(("encode among others", ctx.call(encode, ["uint8", s], [1, v])))
            outs.append(("decode among others", ctx.call(decode, ["uint8", s], bytes(64), strict=False)))
        for n, o in outs:
            if not not_found(o):
                ctx.violate("an invalid type is usable or fails with the wrong exception", api=n, type=s, value=v, data=d, got=o.brief())
                return
        if strategy:
            o = ctx.call(get_abi_strategy, s)
            ctx.ev("strategy")
            if not not_found(o):
                ctx.violate("get_abi_strategy serves an invalid type", type=s, got=o.brief())
        return
    ctx.ev("valid")
    v = g.rval(t) if size(t) < 2000 else None
    if v is not None:
        want = R.enc_seq([t], [v])
        for n, o, w in (("encode", ctx.call(encode, [s], [v]), want), ("decode", ctx.call(decode, [s], want), (R.canon(t, v),)),
                        ("encode_packed", ctx.call(encode_packed, [s], [v]), R.penc(t, v))):
            if not (o.ok and R.same(o.v, w)):
                ctx.violate("a valid type is not usable", api=n, type=s, value=v, got=o.brief(), want=w)
                return
    if strategy:
        o = ctx.call(get_abi_strategy, s)
        ctx.ev("strategy")
        if not (o.ok and isinstance(o.v, SearchStrategy)):
            ctx.violate("get_abi_strategy finds nothing for a valid type", type=s, got=o.brief())


def size(t):
    if t.kind == "array":
        return (t.size or 4) * size(t.item)
    if t.kind == "tuple":
        return sum(size(c) for c in t.items)
    return 1


NEST = ["{}", "{}[]", "{}[2]", "({})", "(uint8,{})", "({},string)[]", "{}[][3]", "((({})),bool)", "(string,(bytes,{}[1]))[2]"]
BASES = ["uint", "int", "bytes", "string", "address", "bool", "function", "byte", "fixed", "ufixed", "hash", "foo", "Uint", "INT", "uints", "sint", "real", "ureal", "tuple",
         "addr", "contract", "enum", "bit", "char", "bytess", "strings", "booL", "String", "ADDRESS", "x", "u", "ubytes", "ufunction", "ubool", "fixe", "intx", "bytesx"]


def alias(ctx):
    """Every alias in every context, with good and bad values and payloads."""
    g, r = ctx.g, ctx.rng
    jobs = [(a, c) for a in sorted(R.ALIASES) for c in NEST + ["{0}[][]", "({0},{0})", "({0},({0},bytes))[1]", "(int,{0},uint)", "({0}[2],string)", "{0}[1][2][]"]]
    for a, c in gen.share(jobs, ctx):
        s1, s2 = c.format(a), c.format(R.ALIASES[a])
        t1, t2 = R.tparse(s1), R.tparse(s2)
        for k in range(30 if ctx.thorough else 10):
            v = g.rval(t2)
            if k % 3 == 2:
                v = zoo.plant(g, t2, v)
                if hasattr(v, "__next__"):
                    continue
            data = R.enc_seq([t2], [g.rval(t2)])
            if k % 2:
                data = gen.mutate(g, data)
            calls = [("encode", lambda s: encode([s], [v])), ("packed", lambda s: encode_packed([s], [v])), ("is_encodable", lambda s: is_encodable(s, v)),
                     ("is_encodable_packed", lambda s: is_encodable_packed(s, v)), ("decode", lambda s: decode([s], data)), ("nonstrict", lambda s: decode([s], data, strict=False)),
                     ("is_encodable_type", is_encodable_type), ("mixed", lambda s: encode([s, "string", s], [v, "q", v]))]
            for n, f in calls:
                x, y = ctx.call(f, s1), ctx.call(f, s2)
                ctx.ev("evaluations")
                ctx.ev("alias")
                same = x.ok == y.ok and (R.same(x.v, y.v) if x.ok else type(x.e) is type(y.e))
                if not same:
                    ctx.violate("an alias differs from its canonical name", api=n, alias=s1, canonical=s2, value=v, data=data, got=x.brief(), want=y.brief())
        ctx.mark("alias", s1)
        o1, o2 = ctx.call(get_abi_strategy, s1), ctx.call(get_abi_strategy, s2)
        if not (o1.ok and o2.ok and repr(o1.v) == repr(o2.v)):
            ctx.violate("the strategy of an alias differs from its canonical name's", alias=s1, got=o1.brief(), want=o2.brief())
        ctx.sample("alias", s1)


def run(ctx):
    g, r = ctx.g, ctx.rng
    alias(ctx)
    jobs = []
    for b in BASES:
        main = b in BASES[:10]
        for k in [""] + [str(i) for i in range(0, 300 if main else 40)] + ["08", "00", "0256", "256 ", "512", "1024", "65536", "100000000000000000000", "x", "x8", "8x", "-8", "+8", "8.0", "8e1", "²", "٨"]:
            jobs.append(b + k)
    for u in BASES:
        fx = u in ("fixed", "ufixed")
        for m in (range(0, 300) if fx and ctx.thorough else sorted(set(list(range(0, 300, 8)) + [1, 4, 7, 9, 15, 17, 127, 129, 255, 257, 263, 265, 512]))) if fx else (1, 8, 20, 24, 32, 128, 160, 256):
            for n in range(0, 84) if fx else (1, 8, 18, 80):
                jobs.append(f"{u}{m}x{n}")
        for n in (85, 99, 100, 128, 256, 1000, "01", "08", "080"):
            jobs.append(f"{u}128x{n}")
        jobs += [f"{u}8x1x1", f"{u}8X1", f"{u}8xx1", f"{u}x1", f"{u}8*1"]
    for i in g.mined.near_ints():
        for b in ("uint", "int", "bytes", "string", "address", "bool", "function"):
            jobs.append(f"{b}{i}")
        jobs.append(f"fixed{i}x{i}")
        jobs.append(f"ufixed128x{i}")
        jobs.append(f"fixed{i}x18")
    jobs += g.mined.strs
    for i, s in enumerate(gen.share(jobs, ctx)):
        judge(ctx, s, "bare", strategy=ctx.thorough or i % 3 == 0)
        c = NEST[1 + r.randrange(len(NEST) - 1)]
        judge(ctx, c.format(s), "nested", strategy=i % 7 == 0)
        if ctx.thorough:
            for c in NEST[1:]:
                judge(ctx, c.format(s), "nested", strategy=False)
    main_bad = ["uint7", "int264", "bytes33", "fixed8x81", "ufixed264x1", "string8", "address8", "bool8", "function8", "byte8", "address8x8", "string8x8", "bool8x8", "bytes8x8", "function24x1", "byte1x1", "bool1", "address160", "address20", "string1", "bytes1x1", "int256x1", "foo", "hash32", "uint0", "bytes0", "uint8x8", "fixed128", "hash"]
    for s in gen.share(main_bad, ctx):
        for c in NEST:
            judge(ctx, c.format(s), "nested")
            for c2 in NEST[1:]:
                judge(ctx, c2.format(c.format(s)), "nested", strategy=r.random() < 0.2)
    ctx.ev("systematic_done")
    n = 0
    while ctx.more():
        t = g.rtype(r.choice([1, 2, 3, 4]))
        s = t.s
        judge(ctx, s, "random_valid", strategy=n % 10 == 0)
        # make one component invalid
        import re

        words = [m for m in re.finditer(r"[a-z0-9]+", s) if not m.group()[0].isdigit()]
        w = r.choice(words)
        bad = r.choice(main_bad + [w.group() + "9", w.group() + "x", w.group()[:-1], "u" + w.group(), w.group().upper(), w.group() + "[0]", "(" + w.group(), " " + w.group(), ""])
        judge(ctx, s[: w.start()] + bad + s[w.end() :], "random_edit", strategy=n % 10 == 0)
        if n < 3:
            ctx.sample("random", s)
        n += 1
