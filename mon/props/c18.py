"""C18: operation sequences on ContextFramesBytesIO against a model stream."""
import io
import itertools

from .. import gen
from eth_abi.decoding import ContextFramesBytesIO

QUICK_S, THOROUGH_S = 22, 300
RULE = ("a history is a sequence of push_frame, pop_frame, seek_in_frame, seek (all whences), tell, read, read(n) and the other read methods on one stream, compared step by step "
        "with a model holding a plain position and a list of frames; all sequences up to length 5 over a small alphabet are enumerated, longer ones are random. Non-trivial: "
        "distinct by operation sequence and contents length.")
NEED = {"histories": 20000, "ops": 100000, "pushes": 20000, "pops": 10000, "empty_pops": 3000, "frame_seeks": 10000, "reads": 20000}
ASSUMPTIONS = ["positions stay within what a BytesIO accepts (below 2**63); where it does not, only its exception is compared"]


class Model:
    """A plain BytesIO for the ordinary part, and a list of (offset, return position)."""

    def __init__(self, data):
        self.io = io.BytesIO(data)
        self.frames = []

    def total(self):
        return sum(o for o, _ in self.frames)


def step(ctx, s, m, op, hist, data):
    """Applies op to both; True if they agree."""
    k = op[0]
    hist.append(op)
    ctx.ev("ops")
    ctx.ev("evaluations")
    exc = None
    got = want = None
    try:
        if k == "push":
            ctx.ev("pushes")
            tgt = m.total() + op[1]
            ret = m.io.tell()
            m.io.seek(tgt)
            m.frames.append((op[1], ret))
        elif k == "pop":
            if not m.frames:
                ctx.ev("empty_pops")
                raise IndexError
            ctx.ev("pops")
            m.io.seek(m.frames.pop()[1])
        elif k == "fseek":
            ctx.ev("frame_seeks")
            m.io.seek(m.total() + op[1])
        elif k == "seek":
            want = m.io.seek(*op[1:])
        elif k == "tell":
            want = m.io.tell()
        elif k == "read":
            ctx.ev("reads")
            want = m.io.read(*op[1:])
        else:
            want = getattr(m.io, k)(*op[1:])
            want = bytes(want) if k == "getbuffer" else want
    except Exception as e:
        exc = type(e)
    name = {"push": "push_frame", "pop": "pop_frame", "fseek": "seek_in_frame"}.get(k, k)
    o = ctx.call(getattr(s, name), *op[1:])
    if exc is not None:
        good = not o.ok and isinstance(o.e, exc)
    elif k in ("push", "pop", "fseek"):
        good = o.ok
    else:
        got = o.v
        if k == "getbuffer" and o.ok:
            got = bytes(o.v)
            o.v.release()
        good = o.ok and got == want and type(got) is type(want)
    if good:
        a, b = ctx.call(s.tell), m.io.tell()
        if not (a.ok and a.v == b):
            ctx.violate("the stream is at another position than the frames say", contents=len(data), history=hist, at=a.brief(), want=b)
            return False
        return True
    ctx.violate("a stream operation differs from an ordinary stream with frames", contents=len(data), history=hist, got=o.brief(), want=exc.__name__ if exc else want)
    return False


def play(ctx, data, ops, kind):
    s, m = ContextFramesBytesIO(data), Model(data)
    hist = []
    for op in ops:
        # an over-large push is judged for its exception only; the sequence ends there
        big = op[0] in ("push", "fseek") and not 0 <= m.total() + op[1] < 2**63
        if big and op[0] == "push":
            o = ctx.call(s.push_frame, op[1])
            ctx.ev("evaluations")
            if o.ok:
                ctx.violate("push_frame to an impossible position succeeded", history=hist, op=op)
            break
        if not step(ctx, s, m, op, hist, data):
            return
    else:
        # unwind: every open frame returns exactly where it was opened
        while m.frames:
            if not step(ctx, s, m, ("pop",), hist, data):
                return
        if not step(ctx, s, m, ("pop",), hist, data):
            return
        if not step(ctx, s, m, ("fseek", 1), hist, data):
            return
        step(ctx, s, m, ("read", 2), hist, data)
    ctx.ev("histories")
    ctx.ev(kind)
    ctx.mark(len(data), ops)


def random_op(r, n):
    c = r.randrange(20)
    off = r.choice([0, 1, 31, 32, 33, 64, n, n - 1 if n else 0, n + 5, r.randint(0, max(1, n))])
    if c < 6:
        return ("push", off)
    if c < 10:
        return ("pop",)
    if c < 13:
        return ("fseek", off)
    if c == 13:
        return ("seek", off, r.choice([0, 0, 2])) if r.random() < 0.5 else ("seek", off)
    if c == 14:
        return ("tell",)
    if c < 18:
        return ("read", r.choice([0, 1, 5, 32, 33, -1, 10**6])) if r.random() < 0.9 else ("read",)
    return r.choice([("getvalue",), ("getbuffer",), ("readline",), ("read1", 5), ("seek", 0, 2), ("seek", -1), ("fseek", -1), ("seek", 3, 1), ("readable",), ("fseek", -(10**4))])


def run(ctx):
    g, r = ctx.g, ctx.rng
    alpha = [("push", 0), ("push", 3), ("push", 7), ("pop",), ("fseek", 2), ("read", 2), ("seek", 1)]
    L = 6 if ctx.thorough else 5
    for n in range(1, L + 1):
        for ops in gen.share(itertools.product(alpha, repeat=n), ctx, 64):
            play(ctx, b"0123456789abcdef", list(ops), "enumerated")
    if ctx.shard == 0:
        for d in (0, 5, 64):
            for off in (2**31, 2**32, 2**62, 2**63 - 1, 2**63, 2**64, 2**255, 2**256 - 1, -1, -5):
                play(ctx, bytes(d), [("push", off)], "extreme")
                play(ctx, bytes(d), [("push", 1), ("push", 2), ("push", off)], "extreme")
                if off < 2**63:
                    play(ctx, bytes(range(d)), [("push", 4), ("fseek", off), ("read", 3), ("pop",), ("read", 3)] if off < 0 else [("push", 4), ("fseek", off), ("read", 3)], "extreme")
    ctx.ev("systematic_done")
    c = 0
    while ctx.more():
        n = r.choice([0, 1, 5, 32, 64, 100, 1000])
        data = r.randbytes(n)
        ops = [random_op(r, n) for _ in range(r.choice([5, 15, 60]))]
        play(ctx, data if r.random() < 0.8 else bytearray(data), ops, "random")
        # deep stacks
        if c % 50 == 0:
            ops = [("push", r.randint(0, 40)) for _ in range(r.choice([10, 100, 400]))]
            ops += [("pop",)] * r.randint(0, len(ops))
            play(ctx, data, ops, "deep")
        if c < 2:
            ctx.sample("history", ops[:12])
        c += 1
