"""C14: purity. Histories, interleavings, re-entrancy, interrupted calls, ambient decimal
contexts; every outcome is judged by a model that has no state at all."""
import collections.abc
import decimal
from decimal import Decimal
import fractions
import hashlib
import random
import sys
import threading

from .. import gen, refabi as R, zoo
from ..api import ABICodec, ABIDecoder, dec_expected, enc_expected, encode, decode, encode_packed, is_encodable, is_encodable_packed, default_registry
from ..monitor import PKG, short
from eth_abi.decoding import BaseDecoder, ByteStringDecoder, ContextFramesBytesIO, StringDecoder
from eth_abi.encoding import BaseEncoder
from eth_abi.registry import BaseEquals, registry_packed

QUICK_S, THOROUGH_S = 32, 700
RULE = ("a case is a call (encode, decode, is_encodable, packed) in a history of 60 calls with equal-but-different values, failing calls and repetitions, "
        "in a schedule of 2-4 threads switched at chosen lines of eth_abi, nested in another call, after an interrupted call, or under a hostile decimal "
        "context. Non-trivial: distinct by call (types and argument), and by hash of the switch sequence for schedules.")
NEED = {"history_calls": 10000, "schedules": 150, "switches": 3000, "nested_calls": 500, "interrupted": 200, "contexts": 1000, "failing": 2000, "mutated_after": 300, "reused": 1000,
        "free_threads": 5, "preempted": 400}
ASSUMPTIONS = ["thread switches are injected at line boundaries of eth_abi (and by the interpreter at a 1e-5 s interval in free-running rounds)",
               "registries are not modified while calls run"]


# ---- calls with an expected outcome ----------------------------------------------------
class Call:
    __slots__ = ("kind", "ts", "arg", "strict", "want", "excs", "names", "cls")

    def __init__(self, kind, ts, arg, strict=True):
        """want is the expected value, or None with the allowed exceptions in excs."""
        self.kind, self.ts, self.arg, self.strict = kind, ts, arg, strict
        self.names = gen.strs(ts)
        self.want, self.excs, self.cls = None, (), None
        if kind == "decode":
            w, d = R.dec(ts, arg, strict=strict)
            if d is None:
                self.want = w
            else:
                self.excs = dec_expected(d)
            return
        codes = set()
        for t, v in zip(ts, arg):
            R.faults(t, v, codes)
        if "K1" in codes:
            raise R.Unspecified
        if kind in ("is_encodable", "is_encodable_packed"):
            self.want = not codes
        elif codes:
            self.excs = enc_expected(codes)
        elif kind == "encode":
            self.want = R.enc_seq(ts, arg)
        else:
            self.want = b"".join(R.penc(t, v) for t, v in zip(ts, arg))

    def run(self, codec=None, arg=None):
        a = self.arg if arg is None else arg
        k = self.kind
        if k == "encode":
            return (codec.encode if codec else encode)(self.names, a)
        if k == "decode":
            return (codec.decode if codec else decode)(self.names, a, strict=self.strict)
        if k == "is_encodable":
            return (codec.is_encodable if codec else is_encodable)(self.names[0], a[0])
        if k == "packed":
            return encode_packed(self.names, a)
        return is_encodable_packed(self.names[0], a[0])

    def good(self, ok, v, e):
        if self.excs:
            # which of several faults is reported is free, but the same every time
            if ok or not isinstance(e, self.excs):
                return False
            self.cls = self.cls or type(e)
            return type(e) is self.cls
        return ok and R.same(v, self.want)

    def __repr__(self):
        return f"{self.kind}({self.names}, {short(self.arg, 4000)}, strict={self.strict})"


def try_(call, codec=None, arg=None):
    try:
        return True, call.run(codec, arg), None
    except Exception as e:
        return False, None, e


def brief(o):
    return o[1] if o[0] else f"{type(o[2]).__name__}: {str(o[2])[:150]}"


CONF_TYPES = [R.tparse(s) for s in ("uint8", "int8", "bool", "fixed8x1", "ufixed16x2", "uint256", "string", "bytes", "bytes1", "address", "uint8[]", "bool[]", "(uint8,bool)",
                                    "(bool,uint8)", "fixed8x1[2]", "bytes[]", "string[]", "bytes1[]", "(string,bytes)", "uint8[2]", "bool[2]", "int", "byte", "(uint8)[]")]
CONF_VALUES = [0, 1, True, False, 1.0, 0.0, -0.0, Decimal(1), Decimal(0), Decimal("1.0"), Decimal("-0"), gen.MyInt(1), fractions.Fraction(1), complex(1), "", b"", "a", b"a", bytearray(b"a"),
               gen.MyStr("a"), gen.MyBytes(b"a"), "\x01", b"\x01", bytearray(b"\x01"), "0x" + "11" * 20, b"\x11" * 20, bytearray(b"\x11" * 20), "11" * 20, -1, 255, 256, 127, 128,
               Decimal(255), None, 1j, zoo.Color.RED, "1", b"1"]
CONF_SEQS = [[1, 1], (1, 1), [True, True], [1, True], [True, 1], (1, True), (True, 1), [1.0, 1.0], [Decimal(1), Decimal(1)], [Decimal("1.0"), 1], [b"a"], [bytearray(b"a")], ["a"], [""], [b""], [],
             (), ["a", b"a"], [b"a", "a"], ("a", b"a"), [1], [True], [(1,)], [[1]], [(True,)], [0, 0], [0, False], [False, False], [[1.0]], gen.MySeq([1, True]), gen.UserSeq([1, 1])]
CONF_DATA = [R._word(0), R._word(1), R._word(255), R._word(2**256 - 1), R._word(32) + R._word(1) + b"a" + bytes(31), R._word(32) + R._word(1) + b"a" + bytes(30) + b"\x01",
             R._word(32) + R._word(2) + R._word(1) * 2, R._word(1) * 2, R._word(1) + R._word(0), b"", bytes(31), R._word(32) + R._word(1) + b"a", b"\x01" + bytes(31),
             R._word(32) + R._word(1) + R._word(1), R._word(32) + R._word(0), R._word(0x11 * 0x0101010101010101010101010101010101010101)]


def conf_call(r):
    t = r.choice(CONF_TYPES)
    k = r.choice(["encode", "encode", "is_encodable", "packed", "is_encodable_packed", "decode", "decode"])
    if k == "decode":
        return Call(k, [t], r.choice(CONF_DATA), strict=r.random() < 0.5)
    return Call(k, [t], [r.choice(CONF_VALUES if r.random() < 0.5 and t.kind not in ("array", "tuple") else CONF_SEQS)])


def rand_call(g, depth=2):
    r = g.r
    while True:
        try:
            if r.random() < 0.4:
                return conf_call(r)
            ts, vs = gen.rand_case(g, depth=depth, width=3, n=3)
            if not ts:
                continue
            k = r.choice(["encode", "encode", "is_encodable", "packed", "decode", "decode", "decode", "is_encodable_packed"])
            if k == "decode":
                data = R.enc_seq(ts, vs) if r.random() < 0.7 else gen.random_layout(g).build(ts, vs)
                if len(data) > 4000:
                    continue
                if r.random() < 0.5:
                    data = gen.mutate(g, data)
                return Call(k, ts, data if r.random() < 0.7 else bytearray(data), strict=r.random() < 0.6)
            vs = [g.form(t, v) for t, v in zip(ts, vs)]
            if r.random() < 0.4:
                vs[0] = zoo.plant(g, ts[0], vs[0])
            return Call(k, ts, vs)
        except (R.Unspecified, R.Budget):
            continue


def snap(call):
    return (tuple(call.names), zoo.plain(call.arg))


def faulty_family(g):
    """Calls over one type whose values or data have several faults in changing places."""
    r = g.r
    t = R.mk_tuple([g.rtype(1, 2) for _ in range(r.randint(2, 4))])
    if r.random() < 0.3:
        t = R.mk_array(t, r.choice([None, 1, 2]))
    out = []
    for _ in range(40):
        if len(out) >= 6:
            break
        try:
            v = g.rval(t)
            if r.random() < 0.3:
                data = R.enc_seq([t], [v])
                if 0 < len(data) < 3000:
                    for _ in range(r.randint(1, 3)):
                        data = gen.mutate(g, data)
                    out.append(Call("decode", [t], data, strict=r.random() < 0.5))
                continue
            for _ in range(r.randint(1, 3)):
                v = zoo.plant(g, t, v) if isinstance(v, (list, tuple)) else v
            out.append(Call(r.choice(["encode", "encode", "packed", "is_encodable"]), [t], [v]))
        except (R.Unspecified, R.Budget, TypeError, AttributeError, IndexError):
            continue
    return out


def history(ctx, n=60, codec=None):
    g, r = ctx.g, ctx.rng
    pool = [rand_call(g) for _ in range(14)] + (faulty_family(g) if r.random() < 0.6 else [])
    done = []
    for _ in range(n):
        c = r.choice(pool)
        before = snap(c)
        o = try_(c, codec)
        ctx.ev("evaluations")
        ctx.ev("history_calls")
        if c.excs:
            ctx.ev("failing")
        if len(done) < 18:
            ctx.mark(repr(c))
        done.append(repr(c)[:160])
        if not c.good(*o):
            ctx.violate("outcome of a call depends on the calls before it (or is wrong)", call=c, got=brief(o), want=c.want if not c.excs else (c.excs, "first seen", c.cls), before=done[-14:])
            return
        if snap(c) != before:
            ctx.violate("a call modified its arguments", call=c, before=before)
            return
    ctx.ev("histories")


def mutated_after(ctx):
    """Change what was passed in, and see earlier results and later calls unaffected."""
    g, r = ctx.g, ctx.rng
    ts, vs = gen.rand_case(g, depth=2, width=3, n=3)
    data = bytearray(R.enc_seq(ts, vs))
    names = gen.strs(ts)
    want = tuple(R.canon(t, v) for t, v in zip(ts, vs))
    a = ctx.call(decode, names, data)
    ctx.ev("evaluations")
    ctx.ev("mutated_after")
    if not (a.ok and R.same(a.v, want)):
        ctx.violate("decode of a bytearray is wrong", types=names, data=bytes(data).hex(), got=a.brief())
        return
    same_object = names
    for i in range(len(data)):
        data[i] = 0xFF
    names.append("uint8")
    if not R.same(a.v, want):
        ctx.violate("a decoded value changed when the caller's buffer did", types=gen.strs(ts), got=a.v, want=want)
    # the same objects with other content are another call
    del same_object[:]
    same_object.extend(gen.strs(ts))
    good = R.enc_seq(ts, vs)
    data[:] = good
    b = ctx.call(decode, same_object, data)
    ctx.ev("evaluations")
    if not (b.ok and R.same(b.v, want)):
        ctx.violate("decode of a reused buffer is wrong", types=same_object, got=b.brief(), want=want)
    try:
        del data[:]  # the buffer must not be kept exported
    except BufferError as e:
        ctx.violate("decode keeps the caller's buffer locked", types=same_object, error=str(e))
    # values reused with other content
    buf = bytearray(b"abc")
    lst = [buf, "x"]
    e1 = ctx.call(encode, ["(bytes,string)"], [lst])
    buf[:] = b"longer than before"
    lst[1] = "y"
    e2 = ctx.call(encode, ["(bytes,string)"], [lst])
    t = R.tparse("(bytes,string)")
    ctx.ev("evaluations", 2)
    if not (e1.ok and e1.v == R.enc_seq([t], [(b"abc", "x")]) and e2.ok and e2.v == R.enc_seq([t], [(b"longer than before", "y")])):
        ctx.violate("encode of reused, changed objects is wrong", first=e1.brief(), second=e2.brief())


def mutable(g, t, v):
    """The same value in containers that can be changed in place."""
    if t.kind == "tuple":
        return [mutable(g, c, x) for c, x in zip(t.items, v)]
    if t.kind == "array":
        return [mutable(g, t.item, x) for x in v]
    if t.kind in ("bytes", "bytesn"):
        return bytearray(v)
    return v


def change(g, t, v):
    """Change v, a mutable value of t, somewhere, keeping as many objects as possible."""
    r = g.r
    if isinstance(v, list) and t.kind in ("tuple", "array") and len(v):
        if r.random() < 0.75:
            i = r.randrange(len(v))
            c = t.items[min(i, len(t.items) - 1)] if t.kind == "tuple" else t.item
            x = change(g, c, v[i])
            if x is not None:
                v[i] = x[0]
            return None
        if r.random() < 0.5:
            v[:] = mutable(g, t, g.rval(t))
        elif r.random() < 0.5:
            v.append(v[-1])
        else:
            v.pop()
        return None
    if isinstance(v, bytearray) and r.random() < 0.7:
        v[:] = g.rbytes(r.choice([0, 1, 4, 31, 32, 33, 60]))
        return None
    return [r.choice([mutable(g, t, g.rval(t)), mutable(g, t, g.rval(t)), None, 5, "x"])]


def reused(ctx):
    """One argument object, changed by the caller between calls, through codecs and coders."""
    g, r = ctx.g, ctx.rng
    t = R.mk_tuple([g.rtype(2, 3) for _ in range(r.randint(1, 3))]) if r.random() < 0.6 else R.mk_array(g.rtype(2, 3), r.choice([None, None, 2]))
    v = mutable(g, t, g.rval(t))
    e, p = default_registry.get_encoder(t.s), registry_packed.get_encoder(t.s)
    log = []
    for _ in range(r.randint(3, 7)):
        try:
            f = R.faults(t, v)
        except R.Unspecified:
            return
        if "K1" in f:
            return
        k = r.choice(["encode", "encode", "packed", "is_encodable", "is_packed", "coder", "packed coder"])
        fn = {"encode": lambda: encode([t.s], [v]), "packed": lambda: encode_packed([t.s], [v]), "is_encodable": lambda: is_encodable(t.s, v),
              "is_packed": lambda: is_encodable_packed(t.s, v), "coder": lambda: e(v), "packed coder": lambda: bytes(p(v))}[k]
        o = ctx.call(fn)
        ctx.ev("evaluations")
        ctx.ev("reused")
        log.append((k, repr(v)[:200]))
        if k.startswith("is_"):
            good = o.ok and o.v is (not f)
        elif f:
            good = not o.ok and (isinstance(o.e, enc_expected(f)) or k == "coder" and not isinstance(v, list))
        else:
            good = o.ok and o.v == {"encode": lambda: R.enc_seq([t], [v]), "coder": lambda: R.enc(t, v)}.get(k, lambda: R.penc(t, v))()
        if not good:
            ctx.violate("the outcome for a reused argument object is not that of its present content", type=t.s, calls=log, faults=sorted(f), got=o.brief())
            return
        change(g, t, v)


# ---- decimal contexts --------------------------------------------------------------------
ROUND = [decimal.ROUND_CEILING, decimal.ROUND_DOWN, decimal.ROUND_FLOOR, decimal.ROUND_HALF_DOWN, decimal.ROUND_HALF_EVEN, decimal.ROUND_HALF_UP, decimal.ROUND_UP, decimal.ROUND_05UP]
SIGNALS = [decimal.Clamped, decimal.DivisionByZero, decimal.Inexact, decimal.Overflow, decimal.Rounded, decimal.Underflow, decimal.InvalidOperation, decimal.Subnormal, decimal.FloatOperation]


def rand_context(r):
    traps = r.choice([[], SIGNALS, r.sample(SIGNALS, 3), [decimal.Inexact], [decimal.Rounded], [decimal.InvalidOperation, decimal.Overflow]])
    return decimal.Context(prec=r.choice([1, 2, 5, 9, 28, 60, 200, 999, 5000]), rounding=r.choice(ROUND), Emin=r.choice([-1, 0, -5, -50, -999999]), Emax=r.choice([1, 0, 5, 50, 999999]),
                           capitals=r.choice([0, 1]), clamp=r.choice([0, 1]), flags=r.choice([[], [decimal.Inexact]]), traps=traps)


def fixed_call(g):
    r = g.r
    while True:
        m, n = r.choice(gen.WIDTHS), r.randint(1, 80)
        t = R.basic(f"{r.choice(['', 'u'])}fixed{m}x{n}")
        if r.random() < 0.4:
            t = r.choice([R.mk_array(t, None), R.mk_tuple([t, gen.STR]), R.mk_array(t, 2)])
        v = g.rval(t)
        try:
            k = r.choice(["encode", "packed", "decode", "decode", "is_encodable", "is_encodable_packed"])
            if k == "decode":
                return Call(k, [t], R.enc_seq([t], [v]))
            v = g.form(t, v)
            if r.random() < 0.3:
                v = zoo.plant(g, t, v)
            return Call(k, [t], [v])
        except R.Unspecified:
            continue


def under_context(ctx):
    g, r = ctx.g, ctx.rng
    c = fixed_call(g) if r.random() < 0.7 else rand_call(g)
    old = decimal.getcontext()
    new = rand_context(r)
    decimal.setcontext(new)
    try:
        cur = decimal.getcontext()
        cur.clear_flags()
        before = repr(cur)
        o = try_(c)
        after_same = decimal.getcontext() is cur
        after = repr(decimal.getcontext())
    finally:
        decimal.setcontext(old)
    ctx.ev("evaluations")
    ctx.ev("contexts")
    ctx.mark("context", repr(c))
    if not c.good(*o):
        ctx.violate("outcome depends on the caller's decimal context", context=before, call=c, got=brief(o), want=c.want if not c.excs else c.excs)
    elif not after_same or after != before:
        ctx.violate("a call changed the caller's decimal context", call=c, before=before, after=after)


# ---- schedules ---------------------------------------------------------------------------
class Baton:
    """Runs threads one at a time and passes control at chosen lines of eth_abi."""

    TOOL = 3

    def __init__(self, seed, p):
        self.rng = random.Random(seed)
        self.p = p
        self.ev = {}
        self.alive = []
        self.trace = hashlib.blake2b(digest_size=8)
        self.switches = 0
        self.late = 0

    def line(self, code, ln):
        if not code.co_filename.startswith(PKG):
            return sys.monitoring.DISABLE
        me = threading.get_ident()
        if me not in self.ev or self.rng.random() > self.p:
            return
        self.pass_on(me, ln)

    def pass_on(self, me, ln):
        others = [x for x in self.alive if x != me]
        if not others:
            return
        nxt = self.rng.choice(others)
        self.switches += 1
        self.trace.update(b"%d>%d@%d;" % (self.index[me], self.index[nxt], ln))
        self.ev[me].clear()
        self.ev[nxt].set()
        if not self.ev[me].wait(1.0):
            self.late += 1  # whoever runs is blocked on something we hold: go on

    def go(self, jobs):
        """Each job is a no-argument callable run in its own thread."""
        start = threading.Barrier(len(jobs) + 1)
        self.index = {}
        gate = threading.Event()

        def body(i, job):
            me = threading.get_ident()
            self.ev[me] = threading.Event()
            self.index[me] = i
            self.alive.append(me)
            start.wait()
            gate.wait()
            self.ev[me].wait(2.0)
            try:
                job()
            finally:
                self.alive.remove(me)
                for x in list(self.alive):
                    self.ev[x].set()
                    break

        ths = [threading.Thread(target=body, args=(i, j), daemon=True) for i, j in enumerate(jobs)]
        for t in ths:
            t.start()
        start.wait()
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "verif-schedule")
        m.register_callback(self.TOOL, m.events.LINE, self.line)
        m.set_events(self.TOOL, m.events.LINE)
        try:
            self.ev[self.alive[0]].set()
            gate.set()
            for t in ths:
                t.join(90)
            return all(not t.is_alive() for t in ths)
        finally:
            m.set_events(self.TOOL, 0)
            m.register_callback(self.TOOL, m.events.LINE, None)
            m.free_tool_id(self.TOOL)


def shared_codec(r):
    """A codec over a fresh registry, so that its lookups are first made in the schedule."""
    reg = default_registry.copy()
    if r.random() < 0.5:
        reg.unregister_decoder("string")
        reg.register_decoder(BaseEquals("string"), StringDecoder(), label="string")
        reg.unregister_decoder("bytes")
        reg.register_decoder(BaseEquals("bytes", with_sub=False), ByteStringDecoder(), label="bytes")
    return ABICodec(reg)


def family_calls(g, n):
    """Calls over the same types with different arguments, strictness and fate."""
    r = g.r
    out = []
    while len(out) < n:
        ts, vs = gen.rand_case(g, depth=2, width=2, n=2)
        if not ts or sum(len(repr(v)) for v in vs) > 1500:
            continue
        for _ in range(r.randint(3, 6)):
            vs = [g.rval(t) for t in ts]
            try:
                data = R.enc_seq(ts, vs)
                if len(data) > 1500:
                    continue
                k = r.choice(["encode", "decode", "decode", "is_encodable", "packed"])
                if k == "decode":
                    x = r.random()
                    if x < 0.3:
                        data = gen.mutate(g, data)
                    elif x < 0.5 and data:
                        data = data[:-1] + bytes([data[-1] ^ 1])
                    out.append(Call(k, ts, data, strict=r.random() < 0.5))
                else:
                    out.append(Call(k, ts, vs if r.random() < 0.7 else [zoo.plant(g, ts[0], vs[0])] + vs[1:]))
            except (R.Unspecified, R.Budget):
                continue
    return out


def schedule(ctx, free=False):
    g, r = ctx.g, ctx.rng
    n = r.choice([2, 2, 3, 4])
    codec = shared_codec(r) if r.random() < 0.7 else None
    calls = family_calls(g, 8) + ([fixed_call(g) for _ in range(4)] if r.random() < 0.6 else [conf_call_safe(r) for _ in range(4)])
    bad = []
    contexts = [rand_context(r) if r.random() < 0.4 else None for _ in range(n)]
    plans = [[r.choice(calls) for _ in range(6 if not free else 120)] for _ in range(n)]

    def job(i):
        def go():
            if contexts[i] is not None:
                decimal.setcontext(contexts[i])
            cur = decimal.getcontext()
            cur.clear_flags()
            ref = repr(cur)
            for c in plans[i]:
                o = try_(c, codec)
                if not c.good(*o):
                    bad.append(("outcome", i, c, brief(o)))
                if decimal.getcontext() is not cur or repr(cur) != ref:
                    bad.append(("decimal context", i, c, repr(decimal.getcontext())))
                    return
        return go

    if free:
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        ths = [threading.Thread(target=job(i), daemon=True) for i in range(n)]
        try:
            for t in ths:
                t.start()
            for t in ths:
                t.join(120)
        finally:
            sys.setswitchinterval(old)
        finished = all(not t.is_alive() for t in ths)
        ctx.ev("free_threads")
        trace = None
    else:
        b = Baton(r.random(), r.choice([0.01, 0.03, 0.1, 0.3]))
        finished = b.go([job(i) for i in range(n)])
        ctx.ev("schedules")
        ctx.ev("switches", b.switches)
        ctx.ev("late_switches", b.late)
        trace = b.trace.hexdigest()
        ctx.mark("schedule", trace)
        if len(ctx.samples.get("schedule", ())) < 2:
            ctx.sample("schedule", (n, b.switches, trace, [repr(c)[:80] for c in plans[0][:3]]))
    ctx.ev("evaluations", sum(map(len, plans)))
    if bad:
        what, i, c, got = bad[0]
        ctx.violate(f"{what} of a call depends on calls in other threads", thread=i, call=c, got=got, want=c.want if not c.excs else c.excs, threads=n, trace=trace, failures=len(bad),
                    plans=[[repr(c)[:120] for c in p[:6]] for p in plans])
    elif not finished:
        ctx.violate("calls in several threads did not finish", threads=n, trace=trace)


class Preempt:
    """Stops a call at its k-th line of eth_abi, runs other calls to their end in another
    thread, and lets the first one go on."""

    TOOL = 3

    def run(self, body, k=None, other=None):
        """Returns what body returns; self.lines is then the number of lines it ran."""
        me = threading.get_ident()
        self.lines = 0
        self.hit = self.late = False
        self.th = None

        def line(code, ln):
            if not code.co_filename.startswith(PKG):
                return sys.monitoring.DISABLE
            if threading.get_ident() != me:
                return
            self.lines += 1
            if self.lines == k:
                self.hit = True
                self.th = threading.Thread(target=other, daemon=True)
                self.th.start()
                self.th.join(1.0)
                self.late = self.th.is_alive()  # it waits for something we hold

        m = sys.monitoring
        m.use_tool_id(self.TOOL, "verif-preempt")
        m.register_callback(self.TOOL, m.events.LINE, line)
        m.set_events(self.TOOL, m.events.LINE)
        try:
            return body()
        finally:
            m.set_events(self.TOOL, 0)
            m.register_callback(self.TOOL, m.events.LINE, None)
            m.free_tool_id(self.TOOL)
            if self.th is not None:
                self.th.join(60)


def twin_calls(g):
    """Calls over one compound type, so that they share its coders."""
    r = g.r
    while True:
        n = r.choice([1, 1, 2, 5])
        t = g.rtype(r.choice([1, 2, 2, 3]), 3)
        if r.random() < 0.6:
            t = R.mk_tuple([t] + [g.rtype(1, 2) for _ in range(n)])
        if t.kind not in ("array", "tuple"):
            continue
        out = []
        for k in r.sample(["encode", "encode", "decode", "decode", "is_encodable", "packed"], 4):
            try:
                v = g.rval(t)
                data = R.enc_seq([t], [v])
                if len(data) > 3000:
                    continue
                if k == "decode":
                    out.append(Call(k, [t], data if r.random() < 0.8 else gen.mutate(g, data), strict=r.random() < 0.6))
                else:
                    out.append(Call(k, [t], [v if r.random() < 0.85 else zoo.plant(g, t, v)]))
            except (R.Unspecified, R.Budget):
                continue
        if len(out) >= 2:
            return out


def preempt(ctx, points=10):
    """Single preemptions of a call whose coders are new, by calls over the same types."""
    g, r = ctx.g, ctx.rng
    calls = twin_calls(g)
    p = Preempt()
    a = calls[0]
    cold = r.random() < 0.8

    def fresh():
        codec = shared_codec(r)
        if not cold:
            for c in calls:
                try_(c, codec)
        return codec

    codec = fresh()
    p.run(lambda: try_(a, codec))
    total = max(1, p.lines)
    for k in sorted({r.randint(1, total) for _ in range(points)}):
        codec = fresh()
        theirs = []
        others = [a] * (r.random() < 0.5) + calls[1:]
        mine = p.run(lambda: try_(a, codec), k, lambda: theirs.extend((c, try_(c, codec)) for c in others))
        ctx.ev("preempted", int(p.hit))
        ctx.ev("preempt_late", int(p.late))
        after = [(c, try_(c, codec)) for c in calls]
        ctx.ev("evaluations", 1 + len(theirs) + len(after))
        ctx.mark("preempt", a.names, a.kind, k)
        for where, c, o in [("the interrupted call", a, mine)] + [("the interrupting thread", *x) for x in theirs] + [("a later call", *x) for x in after]:
            if not c.good(*o):
                ctx.violate("a call is wrong when another thread runs while it or another is at some line", where=where, preempted=a, at=k, of=total, call=c, got=brief(o),
                            want=c.want if not c.excs else c.excs, cold=cold)
                return
        if p.hit and len(theirs) != len(others):
            ctx.violate("calls in several threads did not finish", preempted=a, at=k, others=others)
            return


def conf_call_safe(r):
    while True:
        try:
            return conf_call(r)
        except (R.Unspecified, R.Budget):
            continue


# ---- re-entrancy -------------------------------------------------------------------------
class Nest:
    """Runs inner calls from inside an outer one, and remembers wrong outcomes."""

    def __init__(self, ctx, codec, calls):
        self.ctx, self.codec, self.calls = ctx, codec, calls
        self.bad, self.depth, self.n = [], 0, 0

    def go(self):
        if not self.calls or self.depth >= 2 or self.n > 60:
            return
        self.depth += 1
        self.n += 1
        try:
            c = self.ctx.rng.choice(self.calls)
            o = try_(c, self.codec)
            self.ctx.ev("evaluations")
            self.ctx.ev("nested_calls")
            if not c.good(*o):
                self.bad.append((c, brief(o)))
        finally:
            self.depth -= 1


class NestSeq(collections.abc.Sequence):
    nest = None

    def __init__(self, xs):
        self.xs = list(xs)

    def __len__(self):
        self.nest.go()
        return len(self.xs)

    def __getitem__(self, i):
        self.nest.go()
        return self.xs[i]

    def __repr__(self):
        return f"NestSeq({self.xs!r})"


def deep_seq(t, v):
    if t.kind in ("tuple", "array"):
        its = t.items if t.kind == "tuple" else (t.item,) * len(v)
        return NestSeq([deep_seq(c, x) for c, x in zip(its, v)])
    return v


def reenter(ctx):
    g, r = ctx.g, ctx.rng
    nest = Nest(ctx, None, None)
    NestSeq.nest = nest

    class NEnc(BaseEncoder):
        def validate_value(self, value):
            nest.go()

        def encode(self, value):
            nest.go()
            return R._word(value)

    class NDec(BaseDecoder):
        def decode(self, stream):
            nest.go()
            w = stream.read(32)
            nest.go()
            if len(w) < 32:
                from ..api import X
                raise X.InsufficientDataBytes("x")
            return int.from_bytes(w, "big")

    class DDec(NDec):
        is_dynamic = True

    class DEnc(NEnc):
        is_dynamic = True

    class NStream(ContextFramesBytesIO):
        def read(self, *a):
            nest.go()
            return super().read(*a)

    class NModel(R.Custom):
        def __init__(self, dyn):
            self.dyn = dyn

        def enc(self, v):
            return R._word(v)

        def dec(self, d, p):
            w = d.word(p)
            return R.BAD if w is None else int.from_bytes(w, "big")

        def rval(self, g):
            return g.r.randrange(2**64)

    reg = default_registry.copy()
    reg.register("nest", NEnc(), NDec())
    reg.register("dnest", DEnc(), DDec())
    codec = ABICodec(reg)
    codec.stream_class = NStream if r.random() < 0.6 else ContextFramesBytesIO
    dcodec = ABIDecoder(reg)
    dcodec.stream_class = NStream
    lf = [R.mk_custom("nest", NModel(False)), R.mk_custom("dnest", NModel(True))]

    def rt(d):
        if d == 0:
            return r.choice(lf + [gen.U8, gen.STR, R.basic("fixed8x1")])
        if r.random() < 0.5:
            return R.mk_tuple([rt(d - 1) for _ in range(r.randint(1, 3))])
        return R.mk_array(rt(d - 1), r.choice([None, 1, 2]))

    calls = []
    for _ in range(6):
        ts = [rt(r.choice([0, 1, 2])) for _ in range(r.randint(1, 2))]
        vs = [g.rval(t) for t in ts]
        data = R.enc_seq(ts, vs)
        calls.append(Call("encode", ts, [deep_seq(t, v) for t, v in zip(ts, vs)]))
        calls.append(Call("decode", ts, data, strict=r.random() < 0.5))
        try:
            calls.append(Call("decode", ts, gen.mutate(g, data), strict=r.random() < 0.5))
        except R.Budget:
            pass
    nest.codec, nest.calls = codec, calls + [fixed_call(g), conf_call_safe(r)]
    res = []

    def outer():
        for c in calls:
            nest.n = 0
            k = dcodec if c.kind == "decode" and r.random() < 0.3 else codec
            res.append((c, try_(c, k)))

    th = threading.Thread(target=outer, daemon=True)
    th.start()
    th.join(120)
    if th.is_alive():
        ctx.violate("a call nested in another call did not finish", done=len(res), calls=[repr(c)[:100] for c in calls])
        return
    for c, o in res:
        ctx.ev("evaluations")
        ctx.ev("outer_calls")
        ctx.mark("outer", repr(c))
        if not c.good(*o):
            ctx.violate("a call was disturbed by calls nested in it", call=c, got=brief(o), want=c.want if not c.excs else c.excs)
            return
    if nest.bad:
        c, got = nest.bad[0]
        ctx.violate("a nested call was disturbed by the call around it", call=c, got=got, want=c.want if not c.excs else c.excs)


# ---- interrupted calls -------------------------------------------------------------------
class Interrupt(BaseException):
    pass


class Interrupter:
    """Raises at the k-th entry of an eth_abi function."""

    TOOL = 4

    def __init__(self):
        self.left = None
        self.seen = 0

    def start(self, code, off):
        if not code.co_filename.startswith(PKG):
            return sys.monitoring.DISABLE
        self.seen += 1
        if self.left is not None:
            self.left -= 1
            if self.left == 0:
                self.left = None
                raise Interrupt

    def run(self, call, codec, k):
        m = sys.monitoring
        self.left, self.seen = k, 0
        m.use_tool_id(self.TOOL, "verif-interrupt")
        m.register_callback(self.TOOL, m.events.PY_START, self.start)
        m.set_events(self.TOOL, m.events.PY_START)
        try:
            return try_(call, codec), False
        except Interrupt:
            return None, True
        finally:
            m.set_events(self.TOOL, 0)
            m.register_callback(self.TOOL, m.events.PY_START, None)
            m.free_tool_id(self.TOOL)


def interrupted(ctx):
    g, r = ctx.g, ctx.rng
    codec = shared_codec(r)
    calls = family_calls(g, 4) + [fixed_call(g), rand_call(g, 1)]
    it = Interrupter()
    base = decimal.getcontext()
    for c in r.sample(calls, 3):
        o, _ = it.run(c, shared_codec(r), None)
        total = it.seen
        for k in sorted({r.randint(1, max(1, total)) for _ in range(8)}):
            before = snap(c)
            o, hit = it.run(c, codec, k)
            ctx.ev("evaluations")
            if hit:
                ctx.ev("interrupted")
                ctx.mark("interrupt", repr(c), k)
            if decimal.getcontext() is not base or snap(c) != before:
                decimal.setcontext(base)
                ctx.violate("an interrupted call left the caller's decimal context or arguments changed", call=c, at=k)
                return
            for d in [c] + r.sample(calls, 2):
                o = try_(d, codec)
                ctx.ev("evaluations")
                if not d.good(*o):
                    ctx.violate("a call is wrong after an interrupted call", interrupted=c, at=k, call=d, got=brief(o), want=d.want if not d.excs else d.excs)
                    return


def run(ctx):
    n = 0
    while ctx.more() or n < 3:
        for _ in range(6):
            history(ctx, codec=shared_codec(ctx.rng) if ctx.rng.random() < 0.5 else None)
        for _ in range(8):
            mutated_after(ctx)
            reused(ctx)
            reused(ctx)
        for _ in range(60):
            under_context(ctx)
        for _ in range(6):
            schedule(ctx)
        for _ in range(6):
            preempt(ctx)
        if n % 3 == 0:
            schedule(ctx, free=True)
        for _ in range(4):
            reenter(ctx)
        for _ in range(3):
            interrupted(ctx)
        n += 1
    ctx.ev("rounds", n)
