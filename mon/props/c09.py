"""C09: parse and normalize against an independent recursive-descent recogniser."""
import string
import unicodedata

from .. import gen, refabi as R
from ..api import X
from eth_abi.grammar import BasicType, TupleType, normalize, parse

QUICK_S, THOROUGH_S = 25, 500
RULE = ("a case is a string: generated type strings with standard, alias and made-up bases, single and double edits of them, all short "
        "strings over a small alphabet, every Unicode character that resembles an ASCII letter, digit or space in every position, and arbitrary text; parse outcome, every exposed attribute, printing, equality and normalize "
        "are compared with the reference. Non-trivial: distinct strings of length > 1.")
NEED = {"accepted": 2000, "rejected": 5000, "lookalike": 20000, "equality": 1000, "normalize": 5000}
ASSUMPTIONS = ["nesting to 40 levels and sizes to 4300 digits (recursion and integer conversion limits of the interpreter)"]


def walk(ctx, s, a, g, path=""):
    """Compare a parse result with the reference tree."""
    bad = []
    want_dims = tuple(() if d is None else (d,) for d in g.dims) or None
    if a.arrlist != want_dims or (a.arrlist is not None and type(a.arrlist) is not tuple):
        bad.append(("arrlist", a.arrlist, want_dims))
    if a.to_type_str() != g.s:
        bad.append(("to_type_str", a.to_type_str(), g.s))
    if a.is_array is not bool(g.dims):
        bad.append(("is_array", a.is_array))
    if a.is_dynamic is not R.g_is_dynamic(g):
        bad.append(("is_dynamic", a.is_dynamic))
    if g.comps is not None:
        if type(a) is not TupleType:
            bad.append(("class", type(a)))
        elif type(a.components) is not tuple or len(a.components) != len(g.comps):
            bad.append(("components", a.components))
        else:
            for i, (x, y) in enumerate(zip(a.components, g.comps)):
                bad += walk(ctx, s, x, y, f"{path}.{i}")
    else:
        if type(a) is not BasicType:
            bad.append(("class", type(a)))
        elif a.base != g.base or a.sub != g.sub or type(a.sub) is not type(g.sub):
            bad.append(("base/sub", a.base, a.sub))
    if g.dims:
        it = a.item_type
        last = g.dims[-1]
        item_s = g.s[: len(g.s) - (2 if last is None else 2 + len(str(last)))]
        gi = R.gparse(item_s)
        if type(it) is not type(a) or it.to_type_str() != item_s or it.is_dynamic is not R.g_is_dynamic(gi) or it.is_array is not bool(gi.dims):
            bad.append(("item_type", it.to_type_str(), item_s))
        if not (it == parse(item_s)) or it == a:
            bad.append(("item_type equality", item_s))
    else:
        try:
            it = a.item_type
            bad.append(("item_type of a non-array", it))
        except ValueError:
            pass
    return bad


def judge(ctx, s, kind):
    g = R.gparse(s)
    o = ctx.call(parse, s)
    ctx.ev("evaluations")
    ctx.ev(kind)
    if len(s) > 1:
        ctx.mark(s)
    if g is None:
        ctx.ev("rejected")
        if o.ok:
            ctx.violate("parse accepts a string outside the grammar", string=s, got=o.v.to_type_str())
        elif not (isinstance(o.e, X.ParseError) or ("()" in s and isinstance(o.e, ValueError))):
            ctx.violate("parse rejects with the wrong exception", string=s, got=o.brief())
    else:
        ctx.ev("accepted")
        if not o.ok:
            ctx.violate("parse rejects a type string", string=s, got=o.brief())
        else:
            b = ctx.call(walk, ctx, s, o.v, g)
            if not b.ok or b.v:
                ctx.violate("a parse result is wrong", string=s, got=b.v if b.ok else b.brief())
    n = ctx.call(normalize, s)
    w = R.normalize(s)
    ctx.ev("normalize")
    if not (n.ok and n.v == w):
        ctx.violate("normalize is wrong", string=s, got=n.brief(), want=w)
    else:
        n2 = ctx.call(normalize, n.v)
        if not (n2.ok and n2.v == w):
            ctx.violate("normalize twice changes more", string=s, once=w, got=n2.brief())
    return o.v if o.ok and g is not None else None


BASES = ["uint", "int", "fixed", "ufixed", "bytes", "string", "address", "bool", "function", "byte", "hash", "foo", "Foo", "x", "X", "xx", "intx", "uintX", "inta",
         "aint", "bytesbyte", "functions", "fixe", "e", "A", "tuple", "real", "ureal", "Z", "z", "strings", "stringx", "nint", "point"]
CHARS = "uintbytesfxdraongc0123456789xX[](),. _-+\t\n\r\"'\\/*{}<>=é٣²ⅣΩ\x00\u200b"


def _lookalikes():
    out = []
    for i in range(128, 0x110000):
        c = chr(i)
        if 0xD800 <= i < 0xE000:
            if i in (0xD800, 0xDFFF):
                out.append(c)
            continue
        forms = {c.lower(), c.upper(), c.casefold(), unicodedata.normalize("NFKC", c)}
        if i < 0x180 or c.isdigit() or c.isnumeric() or c.isspace() or any(ord(x) < 128 for f in forms for x in f):
            out.append(c)
    return [chr(i) for i in range(128)] + out


LOOKALIKES = _lookalikes()
FRAMES = ["@", "uint@", "@int8", "byte@32", "uint1@", "uint@6", "uint8@", "foo[@]", "foo[1@]", "foo[@2]", "foo@[]", "fixed8@1", "fixed8x@", "fixed8x1@",
          "(uint@)", "(uint8@bool)", "@(bool)", "(bool)@", "(@bool,int)"]


def rstr(r, depth):
    if depth > 0 and r.random() < 0.4:
        s = "(" + ",".join(rstr(r, depth - 1) for _ in range(r.randint(1, 4))) + ")"
    else:
        s = r.choice(BASES)
        x = r.random()
        if x < 0.3:
            s += str(r.choice([1, 7, 8, 10, 16, 24, 32, 33, 64, 100, 128, 160, 256, 264, 512, 1000, 10**20]))
        elif x < 0.45:
            s += f"{r.choice([1, 8, 16, 128, 256, 300])}x{r.choice([1, 9, 10, 18, 80, 81, 100])}"
    for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
        s += r.choice(["[]", "[]", "[1]", "[2]", "[10]", "[11]", "[99]", "[100]", "[256]", "[1000000]"])
    return s


def edits(r, s):
    i = r.randint(0, len(s))
    c = r.choice(CHARS)
    k = r.randrange(6)
    if k == 0:
        return s[:i] + c + s[i:]
    if k == 1:
        return s[:i] + s[i + 1 :]
    if k == 2:
        return s[:i] + c + s[i + 1 :]
    if k == 3 and len(s) > 1:
        i = r.randrange(len(s) - 1)
        return s[:i] + s[i + 1] + s[i] + s[i + 2 :]
    if k == 4:
        return s[:i] + r.choice(["()", "[]", "[0]", "[01]", ",", "x8", "0", " ", "[ ]", "[-1]", ")", "(", "[2", "2]", "8x", "x"]) + s[i:]
    j = r.randint(i, len(s))
    return s[:i] + s[i:j] + s[i:j] + s[j:]


def run(ctx):
    r = ctx.rng
    # all short strings over an alphabet that spans the grammar
    import itertools

    alpha = "ax1(),[]0"
    for n in range(0, 7 if ctx.thorough else 6):
        for j, cs in enumerate(itertools.product(alpha, repeat=n)):
            if (j // 7) % ctx.nshards == ctx.shard:
                judge(ctx, "".join(cs), "short")
        ctx.notes["exhaustive_short_length"] = n
    # every base with every small suffix, arrays of every small size
    for b in gen.share(BASES, ctx):
        for k in range(0, 300):
            judge(ctx, f"{b}{k}", "suffix")
        for k in (0, 1, 7, 8, 9, 10, 18, 79, 80, 81, 99, 100, 128, 256, 1000):
            for m in (0, 1, 2, 9, 10, 11, 79, 80, 81, 100):
                judge(ctx, f"{b}{k}x{m}", "suffix")
                judge(ctx, f"({b}{k}x{m},{b}[{k}][{m}])[{m}]", "suffix")
        for k in range(0, 300, 1 if ctx.thorough else 3):
            judge(ctx, f"{b}[{k}]", "suffix")
    for i in gen.share(ctx.g.mined.near_ints(), ctx):
        for b in ("uint", "foo", "bytes"):
            judge(ctx, f"{b}{i}", "mined")
            judge(ctx, f"{b}[{i}]", "mined")
            judge(ctx, f"({b}8,string)[{i}][]", "mined")
    for s in gen.share(ctx.g.mined.strs, ctx):
        judge(ctx, s, "mined")
        judge(ctx, s + "[]", "mined")
        judge(ctx, f"({s},uint8)", "mined")
        judge(ctx, s + "8", "mined")
    # whole-word aliases in every neighbourhood
    for a in gen.share(sorted(R.ALIASES) + ["foo", "bytes", "uint256"], ctx):
        for pre in ["", "(", ",", "[", "]", " ", "x", "1", "_", "é", "-", ".", "int", "8", "(uint,", "\n", "٣", "²"]:
            for post in ["", ")", ",", "[]", "[2]", "8", "x", "8x1", "_", "é", " ", "s", "(", ",int)", "²", "\n"]:
                judge(ctx, pre + a + post, "alias")
        for d in range(0, 40, 3):
            judge(ctx, "(" * d + a + ")" * d, "depth")
            judge(ctx, "(" * d + a + ",string[])" * d if d else a, "depth")
            judge(ctx, "(" * d + a + ")" * max(0, d - 1), "depth")
            judge(ctx, a + "[]" * d, "depth")
            judge(ctx, a + "[3]" * d + "[]", "depth")
    for n in gen.share([1, 2, 3, 10, 50, 100, 255, 256, 257, 500], ctx):
        judge(ctx, "(" + ",".join(["uint8"] * n) + ")", "width")
        judge(ctx, "(" + ",".join(["(string,int)[2]"] * n) + ")[]", "width")
        judge(ctx, "a" * n, "width")
        judge(ctx, "uint" + "1" * min(n, 4000), "width")
        judge(ctx, "foo[" + "9" * n + "]", "width")
    # characters that case folding, compatibility forms, \\d, \\w or \\s could confuse with the grammar's own
    for c in gen.share(LOOKALIKES, ctx):
        for f in FRAMES:
            judge(ctx, f.replace("@", c), "lookalike")
    ctx.ev("systematic_done")
    n = 0
    pool = []
    while ctx.more():
        s = rstr(r, r.choice([0, 1, 2, 3, 4]))
        a = judge(ctx, s, "generated")
        e = edits(r, s)
        b = judge(ctx, e, "edited")
        judge(ctx, edits(r, e), "edited")
        if n % 5 == 0:
            judge(ctx, "".join(r.choice(CHARS if r.random() < 0.7 else string.printable) for _ in range(r.randint(0, 12))), "text")
        # equality: exactly string equality
        pool.append((s, a))
        if b is not None:
            pool.append((e, b))
        if len(pool) > 30:
            pool.pop(r.randrange(len(pool)))
        for s2, a2 in r.sample(pool, min(4, len(pool))):
            if a is None or a2 is None:
                continue
            ctx.ev("equality")
            o = ctx.call(lambda: (a == a2, a != a2))
            if not (o.ok and o.v == (s == s2, s != s2)):
                ctx.violate("equality of parse results is not equality of strings", one=s, other=s2, got=o.brief())
        if a is not None and n % 7 == 0:
            for other in (s, None, 5, (), object(), type(a), gen.MyStr(s)):
                ctx.ev("equality")
                o = ctx.call(lambda: (a == other, other == a, a != other))
                if not (o.ok and o.v == (False, False, True)):
                    ctx.violate("a parse result is equal to something that is none, or cannot be compared with it", one=s, other=other, got=o.brief())
        if n < 3:
            ctx.sample("edited", (s, e))
        n += 1
        if n % 4000 == 0 and hasattr(parse, "cache_clear"):
            parse.cache_clear()
