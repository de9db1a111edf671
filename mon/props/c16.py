"""C16: deterministic work meters (executed lines, jumps, calls and bytes read from the
stream) against bounds computed from what the reference model reads."""
import gc
import sys
import time
import tracemalloc

from .. import gen, refabi as R, zoo
from ..api import ABICodec, ABIDecoder, default_registry
from ..monitor import PKG
from eth_abi.decoding import ContextFramesBytesIO

QUICK_S, THOROUGH_S = 28, 500
LINES = False  # the meters use their own line events
RULE = ("a case is one decode, encode, is_encodable or cold type lookup whose executed lines, jumps, calls and stream bytes in eth_abi are metered; the bound is a constant "
        "times the words the reference decoder reads plus the nodes of the type (decode), or times nesting depth times nodes of the value (encode). Workloads grow length, "
        "width and depth separately, plant huge lengths, offsets and array sizes, and share tails. Non-trivial: distinct by (operation, types, payload or value size).")
NEED = {"decodes": 3000, "encodes": 1500, "lookups": 300, "adversarial": 1500, "deep_refused": 1000, "long_refused": 300, "random_refused": 100, "memory": 300, "deep": 100, "timed": 20, "stream_bytes": 100000}
ASSUMPTIONS = ["work inside C code is seen only through stream bytes, allocation peaks and CPU time for 16 times the values (alarm at over 48 times the time, five times in a row)", "payloads whose reference decoding exceeds the step budget are skipped"]

# About four times the worst ratio observed on the unchanged tree, so that added helpers
# or checks of constant cost stay below it while anything super-linear does not.
DEC_K, DEC_B = 260, 3000
ENC_K, ENC_B = 280, 3000
LOOK_K, LOOK_B = 1300, 20000
BYTES_K, BYTES_B = 6, 2000


class Over(BaseException):
    pass


class Meter:
    TOOL = 5

    def __init__(self):
        self.n = 0
        self.limit = None

    def hit(self, code, *a):
        if not code.co_filename.startswith(PKG):
            return sys.monitoring.DISABLE
        self.n += 1
        if self.n > self.limit:
            self.limit = float("inf")
            raise Over

    def run(self, limit, fn, *a, **kw):
        m = sys.monitoring
        self.n, self.limit = 0, limit
        m.use_tool_id(self.TOOL, "verif-meter")
        evs = (m.events.LINE, m.events.JUMP, m.events.PY_START, m.events.PY_RESUME, m.events.CALL)
        for e in evs:
            m.register_callback(self.TOOL, e, self.hit)
        m.set_events(self.TOOL, sum(evs))
        try:
            try:
                return ("ok", fn(*a, **kw))
            except Over:
                return ("over", None)
            except RecursionError:
                return ("recursion", None)
            except Exception as e:
                return ("exc", e)
        finally:
            m.set_events(self.TOOL, 0)
            for e in evs:
                m.register_callback(self.TOOL, e, None)
            m.free_tool_id(self.TOOL)


class CountingStream(ContextFramesBytesIO):
    total = 0

    def _note(self, b):
        CountingStream.total += len(b)
        return b

    def read(self, *a):
        return self._note(super().read(*a))

    def read1(self, *a):
        return self._note(super().read1(*a))

    def readline(self, *a):
        return self._note(super().readline(*a))


def nodes(t):
    if t.kind == "tuple":
        return 1 + sum(nodes(c) for c in t.items)
    if t.kind == "array":
        return 1 + nodes(t.item)
    return 1


def depth(t):
    if t.kind == "tuple":
        return 1 + max(depth(c) for c in t.items)
    if t.kind == "array":
        return 1 + depth(t.item)
    return 1


def vnodes(t, v):
    if t.kind == "tuple":
        return 1 + sum(vnodes(c, x) for c, x in zip(t.items, v))
    if t.kind == "array":
        return 1 + sum(vnodes(t.item, x) for x in v)
    return 1


class Work(R.Dec):
    """The reference decoder, counting also values and byte string words."""

    def value(self, t, p):
        self.steps += 1
        v = super().value(t, p)
        if t.kind in ("bytes", "string") and v is not R.BAD:
            self.content = getattr(self, "content", 0) + len(v)
        return v


def decode_(ctx, codec, ts, data, kind, strict=True):
    names = gen.strs(ts)
    w = Work(data, strict, 60000)
    try:
        w.seq(ts, 0)
    except R.Budget:
        ctx.ev("skipped")
        return
    words = w.steps + 1
    size = sum(nodes(t) for t in ts)
    limit = DEC_K * (words + size) + DEC_B
    try:
        for s in names:  # type lookup is metered on its own
            default_registry.get_decoder(s, strict=strict)
    except RecursionError:
        return
    CountingStream.total = 0
    m = Meter()
    ctx._in_call, ctx._call_no = True, ctx._call_no + 1
    st, v = m.run(limit, codec.decode, names, data, strict=strict)
    ctx._in_call = False
    ctx.ev("evaluations")
    ctx.ev("decodes")
    ctx.ev(kind)
    ctx.ev("stream_bytes", CountingStream.total)
    ctx.mark("decode", names, len(data), words)
    ctx.notes["decode steps per word"] = max(ctx.notes.get("decode steps per word", 0), round(m.n / (words + size), 1))
    if st == "over":
        ctx.violate("decode did more work than the values it read account for", types=names, data=bytes(data).hex()[:3000], data_length=len(data), words_read=words, type_nodes=size,
                    limit=limit, kind=kind)
        return
    if st == "recursion":
        return
    content = getattr(w, "content", 0)
    bl = BYTES_K * (32 * (words + size) + content) + BYTES_B + 32
    # a byte string that is rejected may have been read up to the end of the data
    bl += len(data) * (1 if st == "ok" else 3)
    ctx.notes["stream bytes ratio"] = max(ctx.notes.get("stream bytes ratio", 0), round(CountingStream.total / bl, 2))
    if CountingStream.total > bl:
        ctx.violate("decode read more bytes from the stream than the values it read account for", types=names, data_length=len(data), words_read=words, bytes_read=CountingStream.total,
                    limit=bl, kind=kind, data=bytes(data).hex()[:2000])


def encode_(ctx, codec, ts, vs, kind, like=None):
    """like: values of the types with as many parts as vs, where vs are not of the types."""
    names = gen.strs(ts)
    n = sum(vnodes(t, v) for t, v in zip(ts, like or vs)) + 1
    if like:
        n *= 2  # some of vs have a part repeated
    d = max([depth(t) for t in ts] or [1]) + 1
    limit = ENC_K * n * d + ENC_B
    try:
        for s in names:
            default_registry.get_encoder(s)
    except RecursionError:
        return
    for what, fn, a in [("encode", codec.encode, (names, vs))] + ([("is_encodable", codec.is_encodable, (names[0], vs[0]))] if names else []):
        m = Meter()
        ctx._in_call, ctx._call_no = True, ctx._call_no + 1
        st, v = m.run(limit, fn, *a)
        ctx._in_call = False
        ctx.ev("evaluations")
        ctx.ev("encodes")
        ctx.ev(kind)
        ctx.mark(what, names, n)
        ctx.notes["encode steps per node and level"] = max(ctx.notes.get("encode steps per node and level", 0), round(m.n / (n * d), 1))
        if st == "over":
            ctx.violate(f"{what} did more work than depth times values", types=names, nodes=n, depth=d, limit=limit, kind=kind, values=vs)


def lookup_(ctx, s, t, kind):
    limit = LOOK_K * nodes(t) * depth(t) + LOOK_B
    for what in ("get_encoder", "get_decoder"):
        reg = default_registry.copy()
        m = Meter()
        ctx._in_call, ctx._call_no = True, ctx._call_no + 1
        st, v = m.run(limit, getattr(reg, what), s)
        ctx._in_call = False
        ctx.ev("evaluations")
        ctx.ev("lookups")
        ctx.mark(what, s)
        ctx.notes["lookup steps per node and level"] = max(ctx.notes.get("lookup steps per node and level", 0), round(m.n / (nodes(t) * depth(t)), 1))
        if st == "over":
            ctx.violate("type lookup did more work than depth times the size of the type", type=s, limit=limit, kind=kind)


def memory_(ctx, codec, ts, data, kind):
    """Peak allocation of one decode."""
    names = gen.strs(ts)
    w = Work(data, True, 60000)
    try:
        w.seq(ts, 0)
    except R.Budget:
        return
    for strict in (True, False):
        ctx.call(codec.decode, names, data, strict=strict)
        tracemalloc.start()
        tracemalloc.reset_peak()
        base = tracemalloc.get_traced_memory()[0]
        ctx.call(codec.decode, names, data, strict=strict)
        peak = tracemalloc.get_traced_memory()[1] - base
        tracemalloc.stop()
        limit = 300_000 + 30 * len(data) + 3000 * w.steps
        ctx.ev("evaluations")
        ctx.ev("memory")
        ctx.notes["peak memory share of bound"] = max(ctx.notes.get("peak memory share of bound", 0), round(peak / limit, 3))
        if peak > limit:
            ctx.violate("decode allocated memory in proportion to a declared number", types=names, data=bytes(data).hex()[:2000], data_length=len(data), peak=peak, limit=limit, strict=strict,
                        kind=kind)


def chain(leaf, val, d, shape):
    t, v = leaf, val
    for i in range(d):
        if shape == "tuple":
            t, v = R.mk_tuple([t]), (v,)
        elif shape == "array":
            t, v = R.mk_array(t, None), (v,)
        elif shape == "sized":
            t, v = R.mk_array(t, 1), (v,)
        elif shape == "mixed":
            t, v = (R.mk_array(t, None), (v,)) if i % 2 else (R.mk_tuple([gen.U8, t]), (1, v))
        elif shape == "wide":
            t, v = R.mk_tuple([gen.U8, t, gen.U8]), (1, v, 2)
        elif shape == "sized2":
            t, v = (R.mk_array(t, 1), (v,)) if i % 2 else (R.mk_tuple([t, gen.U8]), (v, 3))
        elif shape == "dyntuple":
            t, v = R.mk_tuple([gen.STR, t]), ("s", v)
    return t, v


BAD = [None, 10**9, b"x", "\ud800", (1,), ((),)]  # at the bottom, where most of them do not belong
SHAPES = ["tuple", "array", "sized", "mixed", "wide", "sized2", "dyntuple"]
HUGE = [w for w in gen.WORDS if w >= 2**16] + [10**5, 10**6, 10**7, 10**9, 5000, 2**24, 2**26]
VICTIMS = [("uint8[]", [1, 2]), ("bool[]", [True]), ("string[]", ["a", "b"]), ("bytes", b"abc"), ("string", "abc"), ("uint8[][]", [[1], [2, 3]]), ("(uint8,bytes)[]", [(1, b"x")]), ("(uint8[],string)", ([1], "q")),
           ("bytes[2]", [b"a", b"b"]), ("(uint8,uint16)[]", [(1, 2)]), ("uint8[2][]", [[1, 2]]), ("(string,(bytes,uint8[]))", ("a", (b"b", [1]))), ("address[]", ["0x" + "11" * 20]), ("fixed8x1[]", [1]),
           ("bytes3[]", [b"abc"]), ("((uint8,uint8),bytes)[]", [((1, 2), b"")]), ("string[][]", [["a"], []])]


# ---- time: what runs inside C code shows only here ------------------------------------
def _tup(n, s):
    return "(" + ",".join([s] * n) + ")"


def _arr_data(n, tails):
    """The contents of a dynamic array of n offsets with the given tails."""
    w = R._word
    offs, at = [], 32 * n
    for x in tails:
        offs.append(w(at))
        at += len(x)
    return w(n) + b"".join(offs) + b"".join(tails)


def shapes():
    """(name, small size, function of the size giving what to time)."""
    w = R._word

    def dec(types, data, strict=True):
        codec = ABICodec(default_registry.copy())
        codec.decode(types, data, strict=strict)  # lookups are not timed
        return lambda: codec.decode(types, data, strict=strict)

    def enc(types, vals, fn="encode"):
        codec = ABICodec(default_registry.copy())
        if fn == "is_encodable":
            codec.is_encodable(types[0], vals[0])
            return lambda: codec.is_encodable(types[0], vals[0])
        codec.encode(types, vals)
        return lambda: codec.encode(types, vals)

    def packed(types, vals):
        from eth_abi.packed import encode_packed

        encode_packed(types, vals)
        return lambda: encode_packed(types, vals)

    words = [w(3) + b"abc" + bytes(29), w(0), w(32) + b"x" * 32]
    vals = [b"abc", b"", b"x" * 32]

    def cyc(xs, n):
        return [xs[i % len(xs)] for i in range(n)]

    out = [
        ("decode uint256[]", 2500, lambda n: dec(["uint256[]"], w(32) + w(n) + b"".join(w(i) for i in range(n)))),
        ("decode bytes[]", 1200, lambda n: dec(["bytes[]"], w(32) + _arr_data(n, cyc(words, n)))),
        ("decode bytes[] lax", 1200, lambda n: dec(["bytes[]"], w(32) + _arr_data(n, cyc(words, n)), strict=False)),
        ("decode string[] shared", 1200, lambda n: dec(["string[]"], w(32) + w(n) + w(32 * n) * n + words[0])),
        ("decode uint8[2][]", 1000, lambda n: dec(["uint8[2][]"], w(32) + w(n) + (w(1) + w(2)) * n)),
        ("decode (uint8,bool)[]", 1000, lambda n: dec(["(uint8,bool)[]"], w(32) + w(n) + (w(9) + w(1)) * n)),
        ("decode uint8[][]", 800, lambda n: dec(["uint8[][]"], w(32) + _arr_data(n, cyc([w(1) + w(7), w(0)], n)))),
        ("decode (bytes,uint8)[]", 600, lambda n: dec(["(bytes,uint8)[]"], w(32) + _arr_data(n, cyc([w(64) + w(5) + x for x in words], n)))),
        ("decode uint8[][1] in a wide sized array", 600, lambda n: dec([f"uint8[][{n}]"], w(32) + _arr_data(n, cyc([w(1) + w(7), w(0)], n))[32:])),
        ("decode wide static tuple", 200, lambda n: dec([_tup(n, "uint8")], w(7) * n)),
        ("decode wide dynamic tuple", 150, lambda n: dec([_tup(n, "bytes")], w(32) + _arr_data(n, cyc(words, n))[32:])),
        ("decode many types", 200, lambda n: dec(["uint8"] * n, w(7) * n)),
        ("decode many dynamic types", 150, lambda n: dec(["bytes"] * n, _arr_data(n, cyc(words, n))[32:])),
        ("encode uint256[]", 2000, lambda n: enc(["uint256[]"], [list(range(n))])),
        ("encode bytes[]", 1500, lambda n: enc(["bytes[]"], [cyc(vals, n)])),
        ("encode string[] lists", 1000, lambda n: enc(["string[][]"], [[["ab", "\u20ac"]] * n])),
        ("encode (bytes,uint8)[]", 700, lambda n: enc(["(bytes,uint8)[]"], [[(x, 5) for x in cyc(vals, n)]])),
        ("encode wide dynamic tuple", 300, lambda n: enc([_tup(n, "bytes")], [cyc(vals, n)])),
        ("encode wide static tuple", 300, lambda n: enc([_tup(n, "int16")], [list(range(n))])),
        ("encode many types", 200, lambda n: enc(["bytes", "uint8"] * n, cyc([b"abc", 5], 2 * n))),
        ("encode ufixed[]", 300, lambda n: enc(["ufixed128x18[]"], [list(range(n))])),
        ("is_encodable bytes[]", 2500, lambda n: enc(["bytes[]"], [cyc(vals, n)], "is_encodable")),
        ("encode_packed uint8[][]", 800, lambda n: packed(["uint8[][]"], [[[1, 2]] * n])),
        ("encode_packed bytes[]", 2000, lambda n: packed(["bytes[]"], [cyc(vals, n)])),
    ]
    return out


def best(fn, k):
    times = []
    for _ in range(k):
        t = time.thread_time()
        fn()
        times.append(time.thread_time() - t)
    return min(times)


GROW, SLACK = 16, 3


def timing(ctx, name, n, make):
    """Time for 16 times the values must not exceed 48 times the time; several
    measurements have to agree before that is reported."""
    small, large = make(n), make(GROW * n)
    ctx.ev("evaluations", 2)
    ctx.ev("timed")
    ctx.mark("time", name)
    seen = []
    was = gc.isenabled()
    gc.disable()
    try:
        for attempt in range(5):
            a = best(small, 5)
            b = best(large, 1 if attempt == 0 else 2)
            seen.append((round(a, 5), round(b, 5)))
            if b <= GROW * SLACK * a or b < 0.05:
                ctx.ev("time_ratio_max_x10", max(0, int(10 * b / max(a, 1e-9) / GROW) - ctx.counts["time_ratio_max_x10"]))
                ctx.sample("time", (name, n, GROW * n, seen))
                return
    finally:
        if was:
            gc.enable()
    ctx.violate("the time of an operation grows faster than the number of values", operation=name, sizes=(n, GROW * n), seconds=seen)


def run(ctx):
    g, r = ctx.g, ctx.rng
    codec = ABICodec(default_registry)
    dcodec = ABIDecoder(default_registry)
    dcodec.stream_class = CountingStream
    # growth with depth
    leaves = [(gen.U8, 7), (gen.STR, "deep"), (R.mk_tuple([gen.U8, gen.U8]), (1, 2)), (R.mk_array(gen.U8, 3), (1, 2, 3)), (R.mk_array(gen.U8, None), (4, 5))]
    for shape in SHAPES:
        for d in gen.share(list(range(1, 24)) + [30, 36], ctx):
            for leaf, val in leaves:
                t, v = chain(leaf, val, d, shape)
                data = R.enc_seq([t], [v])
                ctx.ev("deep")
                lookup_(ctx, t.s, t, "deep_lookup")
                if d < 12 or r.random() < 0.3:
                    lookup_(ctx, t.s.replace("uint8", "uint7").replace("string", "nope"), t, "deep_lookup_refused")
                decode_(ctx, dcodec, [t], data, "deep_decode", strict=r.random() < 0.7)
                encode_(ctx, codec, [t], [v], "deep_encode")
                for bad in BAD:
                    encode_(ctx, codec, [t], [chain(leaf, bad, d, shape)[1]], "deep_refused", like=[v])
                if d > 2:
                    for _ in range(2):
                        decode_(ctx, dcodec, [t], gen.mutate(g, data), "deep_mutant", strict=r.random() < 0.7)
                    decode_(ctx, dcodec, [t], data[: len(data) // 2], "deep_cut")
    # growth with length and width
    for n in gen.share([1, 2, 5, 10, 33, 64, 100, 200, 300, 500, 700, 1000, 1500] + ([3000, 6000] if ctx.thorough else []), ctx):
        for s, v in (("uint8[]", [1] * n), ("string[]", ["ab"] * n), ("bytes", b"z" * 40 * n), ("(uint8,bytes)[]", [(1, b"q")] * n), ("uint8[][]", [[1]] * n), ("(uint8,uint8)[]", [(1, 2)] * n),
                     (f"uint8[{n}]", [1] * n), (f"string[{n}]", ["x"] * n), ("uint256[2][]", [[1, 2]] * n), ("((uint8,(uint8,uint8)),string)[]", [((1, (2, 3)), "s")] * n)):
            t = R.tparse(s)
            data = R.enc_seq([t], [v])
            decode_(ctx, dcodec, [t], data, "long_decode", strict=r.random() < 0.7)
            encode_(ctx, codec, [t], [v], "long_encode")
            if type(v) is list:
                for bad in (None, (1,), ["x"]):
                    encode_(ctx, codec, [t], [v[:-1] + [bad]], "long_refused", like=[v])
                    encode_(ctx, codec, [t], [[bad] * len(v)], "long_refused", like=[v])
            decode_(ctx, dcodec, [t], data[: len(data) - 32], "long_cut")
            b = bytearray(data)
            b[32 * r.randrange(len(b) // 32)] = 0xFF
            decode_(ctx, dcodec, [t], bytes(b), "long_mutant")
        if n <= 500:
            ts = [(gen.U8, gen.STR, R.mk_tuple([gen.U8, gen.U8]))[i % 3] for i in range(n)]
            vs = [(1, "s", (1, 2))[i % 3] for i in range(n)]
            data = R.enc_seq(ts, vs)
            decode_(ctx, dcodec, ts, data, "wide_decode")
            encode_(ctx, codec, ts, vs, "wide_encode")
            if n <= 200:
                t = R.mk_tuple(ts)
                decode_(ctx, dcodec, [t], R.enc_seq([t], [tuple(vs)]), "wide_decode")
                encode_(ctx, codec, [t], [tuple(vs)], "wide_encode")
                lookup_(ctx, t.s, t, "wide_lookup")
    # adversarial numbers
    for s, v in gen.share(VICTIMS, ctx):
        t = R.tparse(s)
        data = R.enc_seq([t], [v])
        for i in range(0, len(data), 32):
            for w in HUGE:
                bad = data[:i] + R._word(w) + data[i + 32 :]
                ctx.ev("adversarial")
                decode_(ctx, dcodec, [t], bad, "huge_word", strict=r.random() < 0.6)
                if w in (10**6, 10**7, 2**26, 2**31, 2**32, 2**63, 2**256 - 1) and r.random() < 0.5:
                    memory_(ctx, codec, [t], bad, "huge_word")
            for w in (0, 32, i, 64, max(0, i - 32)):
                bad = data[:i] + R._word(w) + data[i + 32 :]
                ctx.ev("adversarial")
                decode_(ctx, dcodec, [t], bad, "backward", strict=r.random() < 0.6)
        memory_(ctx, codec, [t], data, "plain")
    for s in gen.share([f"{x}[{n}]" for x in ("uint8", "string", "(uint8,bytes)", "uint8[2]", "bytes3") for n in (10**6, 10**9, 2**64, 10**30)], ctx):
        t = R.tparse(s)
        ctx.ev("adversarial")
        lookup_(ctx, s, t, "huge_size")
        for data in (b"", bytes(32), R._word(32) + bytes(320), bytes(3200)):
            decode_(ctx, dcodec, [t], data, "huge_size")
            memory_(ctx, codec, [t], data, "huge_size")
            u = R.mk_array(t, None)
            decode_(ctx, dcodec, [u], R._word(32) + R._word(2**40) + data, "huge_size")
        encode_(ctx, codec, [t], [[]], "huge_size")
    # shared tails: the same bytes read many times are as many values
    for n in gen.share([2, 4, 8, 16, 32], ctx):
        t = R.tparse("uint8[][]")
        inner = R._word(n) + R._word(1) * n
        data = R._word(32) + R._word(n) + R._word(32 * n) * n + inner
        decode_(ctx, dcodec, [t], data, "shared")
        t = R.tparse("string[][]")
        s = R._word(2) + b"ab" + bytes(30)
        inner = R._word(n) + R._word(32 * n) * n + s
        data = R._word(32) + R._word(n) + R._word(32 * n) * n + inner
        decode_(ctx, dcodec, [t], data, "shared")
    for name, n, make in gen.share(shapes(), ctx):
        timing(ctx, name, n, make)
    ctx.ev("systematic_done")
    c = 0
    while ctx.more():
        ts, vs = gen.rand_case(g, depth=5, width=4)
        if not ts:
            continue
        data = R.enc_seq(ts, vs)
        if len(data) > 60000:
            continue
        decode_(ctx, dcodec, ts, data, "random", strict=r.random() < 0.6)
        encode_(ctx, codec, ts, vs, "random")
        t, v = ts[0], vs[0]
        encode_(ctx, codec, [t], [zoo.plant(g, t, v)], "random_refused", like=[v])
        for _ in range(2):
            decode_(ctx, dcodec, ts, gen.mutate(g, data), "mutants", strict=r.random() < 0.6)
        if r.random() < 0.3:
            lookup_(ctx, ts[0].s, ts[0], "random")
        if data:
            i = 32 * r.randrange(len(data) // 32)
            bad = data[:i] + R._word(r.choice(HUGE)) + data[i + 32 :]
            ctx.ev("adversarial")
            decode_(ctx, dcodec, ts, bad, "huge_word")
            if r.random() < 0.1:
                memory_(ctx, codec, ts, bad, "huge_word")
        if c < 2:
            ctx.sample("random", gen.strs(ts))
        c += 1
