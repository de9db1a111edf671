"""C17: values drawn from the ABI strategies are judged by the reference domain, encoders
and decoder; strategy registries are compared with a model over histories."""
import contextlib
import decimal
import warnings

from hypothesis import HealthCheck, Phase, given, seed, settings
from hypothesis import strategies as st
from hypothesis.strategies import SearchStrategy

from .. import gen, refabi as R, regmodel as M, reghist
from ..api import X, decode, encode, encode_packed, is_encodable, is_encodable_packed
from .c10 import BASES, NEST, not_found
from eth_abi.registry import BaseEquals, has_arrlist, is_base_tuple
from eth_abi.tools import _strategies as S
from eth_abi.tools import get_abi_strategy

QUICK_S, THOROUGH_S = 26, 600
RULE = ("a case is (type string, drawn value) for every basic type, fixed-point types and random nestings, or (registry history, "
        "type string). Non-trivial: distinct (type, value) pairs and histories.")
NEED = {"wide": 100, "draws": 20000, "edges_drawn": 200, "nested_draws": 1000, "refused_types": 500, "history_lookups": 1000, "histories": 20, "contexts": 20}
ASSUMPTIONS = ["Hypothesis's own generators keep to the bounds and sizes they are given"]
warnings.filterwarnings("ignore", module="hypothesis")


def draw(strategy, n, sd):
    out = []

    @seed(sd)
    @settings(max_examples=n, database=None, deadline=None, phases=[Phase.generate], suppress_health_check=list(HealthCheck))
    @given(strategy)
    def f(v):
        out.append(v)

    f()
    return out


def exact(t, v):
    """Shape demanded of drawn values beyond being in the domain."""
    if t.kind == "bytesn":
        return len(v) == t.n
    if t.kind == "tuple":
        return all(exact(c, x) for c, x in zip(t.items, v))
    if t.kind == "array":
        return (t.size is None or len(v) == t.size) and all(exact(t.item, x) for x in v)
    return True


def size(t):
    if t.kind == "array":
        return (t.size or 3) * size(t.item)
    if t.kind == "tuple":
        return sum(size(c) for c in t.items)
    return 1


def judge(ctx, t, n, kind):
    s = t.s
    o = ctx.call(get_abi_strategy, s)
    if not (o.ok and isinstance(o.v, SearchStrategy)):
        ctx.violate("no strategy for a valid type", type=s, got=o.brief())
        return
    d = ctx.call(draw, o.v, n, ctx.rng.randrange(2**32))
    if not (d.ok and d.v):
        ctx.violate("drawing from the strategy fails", type=s, strategy=repr(o.v), got=d.brief())
        return
    edges = set()
    if t.kind in ("uint", "int", "ufixed", "fixed"):
        edges = set(R.int_range(t))
    seen = set()
    for v in d.v:
        ctx.ev("draws")
        ctx.ev(kind)
        ctx.ev("evaluations")
        ctx.mark(s, v)
        value(ctx, t, s, v, o.v)
        if edges:
            try:
                k = R.scaled(t, v)
            except Exception:
                continue
            if k in edges:
                seen.add(k)
    ctx.ev("edges_drawn", len(seen))


def value(ctx, t, s, v, strat):
    try:
        f = R.faults(t, v)
    except R.Unspecified:
        f = {"?"}
    if f or not exact(t, v):
        ctx.violate("a drawn value is not a value of its type", type=s, value=v, faults=sorted(f), strategy=repr(strat))
        return
    want = R.enc_seq([t], [v])
    for api, o, w in (
        ("encode", ctx.call(encode, [s], [v]), want),
        ("encode_packed", ctx.call(encode_packed, [s], [v]), R.penc(t, v)),
        ("is_encodable", ctx.call(is_encodable, s, v), True),
        ("is_encodable_packed", ctx.call(is_encodable_packed, s, v), True),
        ("decode", ctx.call(decode, [s], want), (R.canon(t, v),)),
    ):
        if not (o.ok and R.same(o.v, w)):
            ctx.violate("a drawn value does not go through " + api, type=s, value=v, got=o.v if o.ok else o.brief(), want=w)
            return


def refuse(ctx, s):
    if R.tparse(s) is not None:
        return
    o = ctx.call(get_abi_strategy, s)
    ctx.ev("evaluations")
    ctx.ev("refused_types")
    if o.ok and isinstance(o.v, SearchStrategy):
        o = ctx.call(draw, o.v, 3, 0)
    if not not_found(o):
        ctx.violate("a strategy for an invalid type is usable or fails with the wrong exception", type=s, got=o.brief())


# ---- histories of a strategy registry ----------------------------------------------------
class STag(R.Custom):
    def __init__(self, n):
        self.n = n

    def check(self, v):
        return () if v == ("tag", self.n) else ("T",)


FAM = [
    (lambda: BaseEquals("uint"), "uint", "uint"), (lambda: BaseEquals("int"), "int", "int"),
    (lambda: BaseEquals("address", with_sub=False), "address", "address"), (lambda: BaseEquals("bool", with_sub=False), "bool", "bool"),
    (lambda: BaseEquals("ufixed"), "ufixed", "ufixed"), (lambda: BaseEquals("fixed"), "fixed", "fixed"),
    (lambda: BaseEquals("bytes", with_sub=True), "bytes<M>", "bytesn"), (lambda: BaseEquals("bytes", with_sub=False), "bytes", "bytes"),
    (lambda: BaseEquals("function", with_sub=False), "function", "bytesn"), (lambda: BaseEquals("byte", with_sub=False), "byte", "bytesn"),
    (lambda: BaseEquals("string", with_sub=False), "string", "string"), (lambda: has_arrlist, "has_arrlist", "array"),
    (lambda: is_base_tuple, "is_base_tuple", "tuple"),
]
# the factories registered by default, to put them back; a family whose factory has another
# name now is left alone
OWN = {k: getattr(S, n, None) for k, n in {
    "array": "get_array_strategy", "tuple": "get_tuple_strategy", "uint": "get_uint_strategy", "int": "get_int_strategy", "ufixed": "get_ufixed_strategy",
    "fixed": "get_fixed_strategy", "bytesn": "get_bytes_strategy", "bool": "bool_strategy", "address": "address_strategy", "bytes": "bytes_strategy",
    "string": "string_strategy"}.items()}
POOL = ["uint8", "uint256", "uint", "int16", "int", "bool", "address", "bytes", "bytes4", "byte", "function", "string", "fixed8x1", "ufixed", "foo", "bar", "foo8",
        "uint8[]", "foo[]", "foo[2]", "(foo,uint8)", "(uint8,bool)", "(bool)", "bytes4[1]", "((foo),string[])", "(uint8,(uint16,foo[1])[2])", "foo[][1]", "uint[2]",
        "(byte,function)", "string[1]", "(address,bytes)", "nope", "nope[]", "(nope,bool)", "uint7", "uint7[]", "foo[", "int[0]"]


def key_for(r):
    c = r.random()
    if c < 0.35:
        return r.choice(["foo", "bar", "foo8", "uint8", "string", "foo[]", "(foo,uint8)", "bool", "foo[2]", "bytes4"])
    if c < 0.8:
        return r.choice([BaseEquals("foo"), BaseEquals("foo", with_sub=True), BaseEquals("foo", with_sub=False), BaseEquals("bar"), BaseEquals("uint"),
                         BaseEquals("bytes"), BaseEquals("bytes", with_sub=True), BaseEquals("string", with_sub=False), BaseEquals("bool", with_sub=False), M.Pre("fo")])
    return r.choice(reghist.FNS)


def tag_registration(ctx, n):
    """A strategy object or a factory; the factory checks what it is given."""
    if ctx.rng.random() < 0.5:
        return st.just(("tag", n)), None
    calls = []

    def factory(abi_type, registry):
        calls.append((abi_type, registry))
        return st.just(("tag", n))

    return factory, calls


def resolve(side, s):
    """As regmodel.Side.resolve, but a factory also wants a valid ABI type string."""
    hits = [v for p, v, _ in side.entries if M.matches(p, s)]
    if len(hits) == 1 and isinstance(hits[0], STag):
        if hits[0].calls is not None and not parses(s):
            return {X.ParseError, ValueError}
        return R.mk_custom(s, hits[0])
    if len(hits) == 1 and hits[0].kind in ("array", "tuple"):
        n = R.normalize(s)
        g = R.gparse(n)
        if not parses(s):
            return {X.ParseError, ValueError}
        if hits[0].kind == "array":
            c = resolve(side, n[: n.rindex("[")])
            return c if isinstance(c, set) else R.mk_array(c, g.dims[-1])
        cs = [resolve(side, c.s) for c in g.comps]
        bad = [c for c in cs if isinstance(c, set)]
        return set().union(*bad) if bad else R.mk_tuple(cs)
    return side.resolve(s)


def parses(s):
    """Parses, and every part with a built-in base is a valid type."""
    g = R.gparse(R.normalize(s))

    def ok(g):
        if any(d == 0 for d in g.dims):
            return False
        if g.comps is not None:
            return all(ok(c) for c in g.comps)
        if g.base in ("foo", "bar", "nope"):
            return True
        sub = "" if g.sub is None else str(g.sub) if isinstance(g.sub, int) else f"{g.sub[0]}x{g.sub[1]}"
        return R.basic(g.base + sub) is not None

    return g is not None and ok(g)


def history(ctx, glob):
    """Registrations and removals against the model, with lookups in between."""
    r = ctx.rng
    side = M.Side()
    if glob:
        reg = S.strategy_registry
        for mk, label, kind in FAM:
            side.add(mk(), M.Builtin(kind), label)
    else:
        reg = S.StrategyRegistry()
        for mk, label, kind in FAM:
            if r.random() < 0.5 or kind in ("array", "tuple"):
                f = OWN[kind]
                if f is None:
                    continue
                reg.register_strategy(mk(), f, label=label)
                side.add(mk(), M.Builtin(kind), label)
    ctx.ev("histories")
    log, undo = [], []
    n = 0
    for step in range(r.randint(6, 20)):
        c = r.random()
        if c < 0.35:
            n += 1
            k, label = key_for(r), r.choice([None, None, "L0", "L1", "foo", "uint"])
            f, calls = tag_registration(ctx, n)
            tag = STag(n)
            tag.calls = calls
            want = side.would_add(k, label)
            o = ctx.call(reg.register_strategy, k, f, label=label)
            log.append(("register", k, label, o.ok))
            ctx.ev("evaluations")
            if o.ok != want or (not o.ok and not isinstance(o.e, ValueError)):
                ctx.violate("registering a strategy is accepted or refused wrongly", history=log, got=o.brief(), want=want)
                return
            if want:
                side.add(k, tag, label)
                undo.append(k)
        elif c < 0.55:
            k = r.choice([key_for(r), r.choice(["L0", "L1", "foo"]), r.choice([label for _, label, _ in FAM])] + [p for p, _, _ in side.entries[-3:]] + [lb for _, _, lb in side.entries[-3:] if lb])
            i = side.find_removal(k)
            if glob and i is not None and isinstance(side.entries[i][1], M.Builtin) and (side.entries[i][1].kind in ("array", "tuple") or OWN[side.entries[i][1].kind] is None):
                continue
            o = ctx.call(reg.unregister_strategy, k)
            log.append(("unregister", k, o.ok))
            ctx.ev("evaluations")
            if o.ok != (i is not None) or (not o.ok and not isinstance(o.e, (KeyError, ValueError))):
                ctx.violate("unregistering a strategy is accepted or refused wrongly", history=log, got=o.brief())
                return
            if i is not None:
                side.remove(k)
        for s in r.sample(POOL, 4 if not ctx.thorough else 8):
            look(ctx, reg, side, s, log)
    if glob:
        # put the global registry back as it was
        for p, v, _ in list(side.entries):
            if not isinstance(v, M.Builtin):
                reg.unregister_strategy(p)
                side.remove(p)
        for mk, label, kind in FAM:
            if not any(M.pkey(p) == M.pkey(mk()) for p, _, _ in side.entries):
                reg.register_strategy(mk(), OWN[kind], label=label)
        for label, kind, mk, s in (("has_arrlist", "array", has_arrlist, "bool[2]"), ("is_base_tuple", "tuple", is_base_tuple, "(bool,bool)")):
            if OWN[kind] is None:
                continue
            o = ctx.call(reg.unregister_strategy, label)
            ctx.ev("evaluations")
            if not o.ok:
                ctx.violate("a default strategy cannot be unregistered by its label", label=label, got=o.brief())
                return
            o = ctx.call(lambda: draw(reg.get_strategy(s), 1, 0))
            if o.ok or not isinstance(o.e, X.NoEntriesFound):
                ctx.violate("a type still has a strategy after its strategy was unregistered", label=label, type=s, got=o.brief())
                return
            reg.register_strategy(mk, OWN[kind], label=label)
        for s in r.sample(POOL, 5):
            if R.tparse(s) is not None:
                judge(ctx, R.tparse(s), 3, "after_restore")


def look(ctx, reg, side, s, log):
    want = resolve(side, s)
    o = ctx.call(reg.get_strategy, s)
    ctx.ev("evaluations")
    ctx.ev("history_lookups")
    if isinstance(want, set):
        if o.ok and not any(issubclass(x, X.PredicateMappingError) for x in want):
            o = ctx.call(draw, o.v, 2, 0)
        if o.ok or not isinstance(o.e, tuple(want) + (ValueError, X.ParseError) if ValueError in want else tuple(want)):
            ctx.violate("a strategy lookup that must fail does not, or fails otherwise", type=s, history=log, want=[x.__name__ for x in want], got=o.brief())
        return
    if not o.ok:
        ctx.violate("a strategy lookup fails", type=s, history=log, got=o.brief())
        return
    d = ctx.call(draw, o.v, 2, ctx.rng.randrange(2**32))
    ctx.mark("history", s, repr(log))
    if not (d.ok and d.v):
        ctx.violate("drawing fails", type=s, history=log, got=d.brief())
        return
    for v in d.v:
        if R.faults(want, v) or not exact(want, v):
            ctx.violate("a lookup yields another strategy than the one registered for the type", type=s, history=log, value=v)
            return


@contextlib.contextmanager
def odd_context(r):
    c = decimal.Context(prec=r.choice([1, 3, 9, 28]), rounding=r.choice([decimal.ROUND_UP, decimal.ROUND_DOWN, decimal.ROUND_HALF_EVEN]),
                        traps=[])
    old = decimal.getcontext()
    decimal.setcontext(c)
    try:
        yield
    finally:
        decimal.setcontext(old)


def run(ctx):
    g, r = ctx.g, ctx.rng
    for s in gen.share(gen.BASIC_SAMPLE, ctx):
        t = R.basic(s)
        judge(ctx, t, {"uint": 220, "int": 220, "ufixed": 160, "fixed": 160, "bytes": 30, "string": 60}.get(t.kind, 30), "basic")
    fx = [f"{u}fixed{m}x{n}" for u in ("", "u") for m in gen.WIDTHS for n in range(1, 81)]
    r2 = __import__("random").Random(f"fixed/{ctx.seed}")
    for s in gen.share(fx if ctx.thorough else r2.sample(fx, 300), ctx):
        judge(ctx, R.basic(s), 120 if ctx.thorough else 40, "fixed")
    for s in gen.share(["uint8", "fixed8x1", "ufixed256x80", "fixed256x1", "fixed", "(ufixed,fixed)", "fixed128x80[2]"], ctx):
        for _ in range(6):
            with odd_context(r):
                ctx.ev("contexts")
                judge(ctx, R.tparse(s), 15, "odd_context")
    for s in gen.share(gen.STATIC_LEAVES + ["string", "bytes"], ctx):
        for c in NEST[1:] if ctx.thorough else r.sample(NEST[1:], 2):
            t = R.tparse(c.format(s))
            judge(ctx, t, 6, "nested_draws")
    for k in gen.share(range(1, 60), ctx):
        judge(ctx, R.mk_array(gen.U8, k), 5, "nested_draws")
        judge(ctx, R.mk_array(R.basic("bool"), k), 5, "nested_draws")
        if k < 8:
            judge(ctx, R.mk_array(R.mk_array(gen.STR, k), 2), 3, "nested_draws")
    for k in gen.share(sorted({60, 63, 64, 65, 66, 80, 99, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257, 300} | {k for k in g.mined.lengths(300) if k >= 60}), ctx):
        judge(ctx, R.mk_array(R.basic("bool"), k), 2, "wide")
        judge(ctx, R.mk_array(gen.U8, k), 2, "wide")
        judge(ctx, R.mk_array(R.mk_array(R.basic("bool"), 2), k // 2), 2, "wide")
        judge(ctx, R.mk_array(R.mk_array(R.basic("bool"), k // 2), 2), 2, "wide")
        judge(ctx, R.mk_tuple([R.basic("bool")] * k), 2, "wide")
    bad = [b + k for b in BASES for k in ("", "0", "1", "7", "8", "33", "257", "264", "8x1", "8x0", "8x81", "x8", "08")]
    bad += ["", "()", "(", ")", "uint8[0]", "uint8[", "uint8]", "(uint8,)", "(,uint8)", " uint8", "uint8 ", "uint8[-1]", "uint8[01]", "tuple", "(uint7)", "uint7[2]", "(bool,bytes33)[]"]
    for s in gen.share(bad, ctx):
        refuse(ctx, s)
        for c in r.sample(NEST, 2):
            refuse(ctx, c.format(s))
    ctx.ev("systematic_done")
    n = 0
    while ctx.more():
        x = r.random()
        if x < 0.5:
            history(ctx, glob=r.random() < 0.5)
        else:
            t = g.rtype(r.choice([1, 2, 3]), 3) if r.random() < 0.7 else g.family()
            if size(t) > 60:
                continue
            judge(ctx, t, 12, "nested_draws")
            if n < 3:
                ctx.sample("random", t.s)
        n += 1
    ctx.ev("random", n)
