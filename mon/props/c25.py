"""C25: registrations change in one thread while others look up, encode and decode. Single
preemptions are forced line by line in both directions; in the stress rounds all changes
and calls are logged with a shared clock and judged afterwards."""
import itertools
import sys
import threading
import time

from .. import refabi as R, regmodel as M
from ..api import ABICodec, X, default_registry
from .c14 import Preempt
from eth_abi.registry import BaseEquals

QUICK_S, THOROUGH_S = 26, 600
RULE = ("a case is (registrations, one change or a sequence of changes, calls in other threads): every line of a change is interrupted by calls over "
        "compound and simple types, every line of a call by a change, and free-running threads are logged and judged offline: each element of each "
        "result must stem from a registration in force at some time during its call, and calls begun after a change has returned must follow it. "
        "Non-trivial: the change affects the type; distinct by (change, call, line or window).")
NEED = {"change_preempted": 2000, "call_preempted": 2000, "reads": 3000, "reads_during_change": 150, "changes": 1000, "after_change": 10000, "refused_reads": 100, "writer_preempted": 2000, "writes": 5000}
ASSUMPTIONS = ["no two threads change the same registration at once; predicates are pure"]

SHAPES = [("foo", 5), ("foo[]", [1, 2]), ("(foo,uint8)", (5, 9)), ("(string,foo[2])", ("st", [3, 4])), ("foo[][2]", [[1], []]), ("((foo,bool),foo)", ((1, True), 2)),
          ("(bytes,(foo)[])", (b"bb", [(1,), (2,)])), ("foo[1]", [1])]
STABLE = [("uint8", 7), ("(uint8,string)[]", [(1, "a"), (2, "")]), ("bool[2]", [True, False]), ("bytes", b"xyz"), ("int16[][]", [[-1]])]


class Shape:
    def __init__(self, s, v):
        self.s, self.v = s, v
        self.t = R.tparse(s.replace("foo", "uint256"))
        self.data = R.enc_seq([self.t], [v])
        self.want = R.canon(self.t, v)

    def tags(self, t, got, want, out, enc):
        """Collects the tags at the places of foo; False where anything else differs."""
        if t.kind == "uint" and t.m == 256:
            if enc:
                out.append(got)
                return True
            if type(got) is tuple and len(got) == 3 and got[0] == "tag" and got[2] == R._word(want):
                out.append(got[1])
                return True
            return False
        if t.kind in ("tuple", "array"):
            if type(got) is not tuple or len(got) != len(want):
                return False
            ts = t.items if t.kind == "tuple" else [t.item] * len(want)
            return all(self.tags(a, b, c, out, enc) for a, b, c in zip(ts, got, want))
        return R.same(got, want)


ALL = [Shape(*x) for x in SHAPES + STABLE]


def observe(codec, side, sh, strict):
    """Returns ('tags', [...]), ('error', class name) or ('wrong', ...)."""
    try:
        if side == "enc":
            got = codec.encode([sh.s], [sh.v])
        else:
            got = codec.decode([sh.s], sh.data, strict=strict)
    except Exception as e:
        return ("error", type(e).__name__, str(e)[:120])
    out = []
    if side == "enc":
        if type(got) is not bytes:
            return ("wrong", repr(got)[:200])
        got, defects = R.dec([sh.t], got)
        if got is None:
            return ("wrong", sorted(defects))
    if type(got) is not tuple or len(got) != 1 or not sh.tags(sh.t, got[0], sh.want, out, side == "enc"):
        return ("wrong", repr(got)[:200])
    return ("tags", out)


def verdict(entries):
    return "NoEntriesFound" if not entries else "MultipleEntriesFound" if len(entries) > 1 else next(iter(entries.values()))


def good(o, sh, states):
    """states: the entries of foo, on the side concerned, at the times in question."""
    if o[0] == "wrong":
        return False
    if "foo" not in sh.s:
        return o == ("tags", [])
    may = {verdict(x) for x in states}
    if o[0] == "error":
        return o[1] in may
    return all(x in may for x in o[1])


FN = M.Fn(["foo"])
KEYS = {"foo": lambda: "foo", "L1": lambda: BaseEquals("foo", with_sub=False), "L2": lambda: FN}


class World:
    """A registry, and the entries for foo on both sides."""

    def __init__(self, r):
        self.r = r
        self.reg = default_registry.copy()
        self.codec = ABICodec(self.reg)
        self.enc, self.dec = {}, {}
        self.n = 1000 + r.randrange(10**6)
        self.extra = 0

    def plan(self):
        """A change: (what, callable, entries of the encoders after it, of the decoders)."""
        r, reg = self.r, self.reg
        if r.random() < 0.12:  # about something else
            if self.extra and r.random() < 0.5:
                k = f"other{self.extra}"
                self.extra -= 1
                return "unregister " + k, lambda: reg.unregister(k), self.enc, self.dec
            self.extra += 1
            k = "other%d" % self.extra
            return "register " + k, lambda: reg.register(k, M.tag_encoder(1, "callable"), M.tag_decoder(1, "callable")), self.enc, self.dec
        k = "foo" if r.random() < 0.7 else r.choice(sorted(KEYS))
        has = [s for s, d in (("enc", self.enc), ("dec", self.dec)) if k in d]
        enc, dec = dict(self.enc), dict(self.dec)
        if has:
            if len(has) == 2 and r.random() < 0.4:
                del enc[k], dec[k]
                return f"unregister {k}", lambda: reg.unregister(k), enc, dec
            s = r.choice(has)
            del (enc if s == "enc" else dec)[k]
            f = reg.unregister_encoder if s == "enc" else reg.unregister_decoder
            key = KEYS[k]() if k != "foo" and r.random() < 0.5 else k
            return f"unregister_{s} {k}", lambda: f(key), enc, dec
        self.n += 1
        n, how = self.n, r.choice(["callable", "class", "instance"])
        e, d = M.tag_encoder(n, how), M.tag_decoder(n, how)
        c = r.randrange(3)
        if c == 0:
            enc[k] = n
            return f"register_encoder {k}={n}", lambda: reg.register_encoder(KEYS[k](), e, label=k), enc, dec
        if c == 1:
            dec[k] = n
            return f"register_decoder {k}={n}", lambda: reg.register_decoder(KEYS[k](), d, label=k), enc, dec
        enc[k] = dec[k] = n
        return f"register {k}={n}", lambda: reg.register(KEYS[k](), e, d, label=k), enc, dec

    def settle(self, n):
        for _ in range(n):
            _, f, enc, dec = self.plan()
            f()
            self.enc, self.dec = enc, dec

    def side(self, s):
        return self.enc if s == "enc" else self.dec


def calls(r, n):
    return [(r.choice(["enc", "dec"]), sh, r.random() < 0.6) for sh in r.sample(ALL, min(n, len(ALL)))]


def after(ctx, w, log, full=True):
    """Everything must now follow the registrations."""
    for side in ("enc", "dec"):
        for sh in ALL if full else ctx.rng.sample(ALL, 5):
            o = observe(w.codec, side, sh, ctx.rng.random() < 0.5)
            ctx.ev("after_change")
            ctx.ev("evaluations")
            if not good(o, sh, [w.side(side)]):
                ctx.violate("a call begun after a change does not follow it", type=sh.s, side=side, got=o, want=verdict(w.side(side)), history=log[-12:])
                return False
    return True


def preempt(ctx, points):
    r = ctx.rng
    p = Preempt()
    w = World(r)
    w.settle(r.randint(0, 6))
    log = []
    for _ in range(points):
        warm = calls(r, r.choice([0, 3, 13]))
        for c in warm:
            observe(w.codec, *c)
        what, f, enc, dec = w.plan()
        now = {"enc": [w.enc, enc], "dec": [w.dec, dec]}
        theirs = []
        if r.random() < 0.5:  # the change is interrupted by calls
            cs = calls(r, 8)
            k = r.randint(1, r.choice([8, 14, 14, 30, 60]))
            p.run(f, k, lambda: theirs.extend((c, observe(w.codec, *c)) for c in cs))
            mine = None
            ctx.ev("change_preempted", int(p.hit))
            log.append((what, "interrupted at", k, p.hit))
        else:  # a call is interrupted by the change
            c = (r.choice(["enc", "dec"]), ALL[r.randrange(len(SHAPES))], r.random() < 0.6)
            k = r.randint(1, r.choice([20, 60, 200]))
            done = []

            def change():
                f()
                done.append(1)

            o = p.run(lambda: observe(w.codec, *c), k, change)
            if not p.hit:
                f()
                done.append(1)
            if p.th is not None and not done:
                ctx.violate("a change in another thread did not finish or failed", change=what, call=(c[0], c[1].s), line=k)
                return
            mine = (c, o)
            ctx.ev("call_preempted", int(p.hit))
            log.append((what, "during", c[0], c[1].s, "at", k, p.hit))
        ctx.ev("evaluations", 1 + len(theirs))
        for (side, sh, strict), o in theirs + ([mine] if mine else []):
            if not good(o, sh, now[side]):
                ctx.violate("a call made during a change is wrong", change=what, type=sh.s, side=side, strict=strict, got=o, allowed=[str(verdict(x)) for x in now[side]], history=log[-12:])
                return
        w.enc, w.dec = enc, dec
        ctx.mark("preempt", what.split("=")[0], k, bool(mine), mine and (mine[0][0], mine[0][1].s))
        if p.hit and not after(ctx, w, log, r.random() < 0.5):
            return
    after(ctx, w, log)
    ctx.sample("preempted", log[:4])


def stress(ctx, nchanges):
    """Free-running threads, logged with one clock; judged when all have ended."""
    r = ctx.rng
    w = World(r)
    w.settle(2)
    clock = itertools.count()
    changes = [(-1, -1, "start", w.enc, w.dec)]
    reads, errors = [], []
    stop = threading.Event()
    seeds = [r.randrange(2**32) for _ in range(4)]

    def mutator():
        try:
            for _ in range(nchanges):
                what, f, enc, dec = w.plan()
                until = len(reads) + r.choice([0, 1, 1, 2, 5])
                for _ in range(2000):  # let the readers go on between changes
                    if len(reads) >= until:
                        break
                    time.sleep(0)
                s = next(clock)
                f()
                e = next(clock)
                changes.append((s, e, what, enc, dec))
                w.enc, w.dec = enc, dec
        except Exception as e:
            errors.append(("change", repr(e)))
        finally:
            stop.set()

    def reader(seed):
        import random

        rr = random.Random(seed)
        try:
            while not stop.is_set():
                side, sh, strict = rr.choice(["enc", "dec"]), rr.choice(ALL), rr.random() < 0.6
                s = next(clock)
                o = observe(w.codec, side, sh, strict)
                reads.append((s, next(clock), side, sh, strict, o))
        except Exception as e:
            errors.append(("reader", repr(e)))

    ths = [threading.Thread(target=mutator, daemon=True)] + [threading.Thread(target=reader, args=(x,), daemon=True) for x in seeds[:3]]
    old = sys.getswitchinterval()
    sys.setswitchinterval(r.choice([1e-6, 1e-5, 1e-4]))
    try:
        for t in reversed(ths):
            t.start()
        for t in ths:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in ths):
        ctx.violate("threads changing and using a registry did not finish", changes=len(changes), reads=len(reads))
        return
    if errors:
        ctx.violate("a change failed while other threads used the registry", errors=errors[:5])
        return
    ctx.ev("changes", len(changes) - 1)
    j = 0
    for s, e, side, sh, strict, o in sorted(reads, key=lambda x: x[0]):
        # state i may be in force from the start of change i to the end of change i + 1
        while j + 1 < len(changes) and changes[j + 1][1] < s:
            j += 1
        states, i, during = [], j, False
        while i < len(changes) and changes[i][0] <= e:
            states.append(changes[i][3 if side == "enc" else 4])
            during |= i > j
            i += 1
        ctx.ev("reads")
        ctx.ev("evaluations")
        ctx.ev("reads_during_change", int(during))
        ctx.ev("refused_reads", int(o[0] == "error"))
        ctx.mark("stress", side, sh.s, len(states), o[0], during)
        if not good(o, sh, states):
            ctx.violate("a call in one thread follows none of the registrations in force during it", type=sh.s, side=side, strict=strict, got=o,
                        allowed=[str(verdict(x)) for x in states], changes=[c[:3] for c in changes[j : i + 1]], call=(s, e))
            return
    after(ctx, w, [c[:3] for c in changes[-8:]])


class Slot:
    """One registration that one thread puts in and takes out again."""

    def __init__(self, r, reg, name):
        self.r, self.reg, self.name = r, reg, name
        self.have = {}  # side -> (tag, key to remove by)

    def plan(self):
        r, reg, name = self.r, self.reg, self.name
        side = r.choice(["enc", "dec"])
        if side in self.have:
            key = self.have[side][1]
            f = reg.unregister_encoder if side == "enc" else reg.unregister_decoder
            return f"unregister {side} {name} by {key!r}", lambda: f(key), side, None
        n = r.randrange(10**6)
        how = r.choice(["string", "label", "base", "function", "nolabel"])
        if how == "string":
            look, label, key = name, None, name
        elif how == "label":
            look, label, key = name, "the " + name, "the " + name
        elif how == "base":
            look, label, key = BaseEquals(name), name, r.choice([name, BaseEquals(name)])
        else:
            fn = M.Fn([name])
            label = "fn of " + name if how == "function" else None
            look, key = fn, fn if label is None or r.random() < 0.6 else label
        f, coder = (reg.register_encoder, M.tag_encoder) if side == "enc" else (reg.register_decoder, M.tag_decoder)
        c = coder(n, r.choice(["callable", "class", "instance"]))
        return f"register {side} {name} ({how})", lambda: f(look, c, label=label), side, (n, key)

    def took(self, side, new):
        if new is None:
            self.have.pop(side)
        else:
            self.have[side] = new

    def check(self, codec):
        """None, or (side, what was found, what is registered)."""
        for side in ("enc", "dec"):
            want = self.have[side][0] if side in self.have else "NoEntriesFound"
            try:
                got = int.from_bytes(codec.encode([self.name], [0]), "big") if side == "enc" else codec.decode([self.name], bytes(32))[0][1]
            except Exception as e:
                got = type(e).__name__
            if got != want:
                return side, got, want
        return None


def outcome(f):
    try:
        f()
    except BaseException as e:
        return f"{type(e).__name__}: {e}"


def writers(ctx, rounds):
    """Two threads change different registrations of one registry."""
    r = ctx.rng
    p = Preempt()
    reg = default_registry.copy()
    codec = ABICodec(reg)
    a, b = Slot(r, reg, "mine"), Slot(r, reg, "theirs")
    log = []
    for _ in range(rounds):
        a, b = b, a
        what, f, side, new = a.plan()
        k = r.randint(1, r.choice([6, 12, 30, 60, 60]))
        theirs, other = [], []

        def go():
            for _ in range(r.choice([1, 1, 2, 3])):
                w2, f2, s2, n2 = b.plan()
                other.append((w2, outcome(f2)))
                if other[-1][1] is None:
                    b.took(s2, n2)
            theirs.append(1)

        o = p.run(lambda: outcome(f), k, go)
        ctx.ev("evaluations")
        ctx.ev("writer_preempted", int(p.hit))
        log.append((what, "interrupted at", k, other))
        bad = [x for x in [(what, o)] + other if x[1] is not None]
        if bad or (p.hit and not theirs):
            ctx.violate("a change fails because another thread changes another registration", failed=bad or "did not finish", history=log[-8:])
            return
        a.took(side, new)
        ctx.mark("writers", what.split("by")[0], k, [x[0].split("by")[0] for x in other])
        for x in (a, b):
            e = x.check(codec)
            if e:
                ctx.violate("a change is lost when another thread changes another registration", type=x.name, side=e[0], got=e[1], want=e[2], history=log[-8:])
                return


def write_stress(ctx, n):
    """Free-running writers, each with registrations of its own."""
    r = ctx.rng
    reg = default_registry.copy()
    codec = ABICodec(reg)
    import random

    slots = [[Slot(random.Random(r.random()), reg, f"t{chr(97 + i)}k{chr(97 + j)}") for j in range(3)] for i in range(4)]
    errors = []

    def go(mine, rr):
        for _ in range(n):
            s = rr.choice(mine)
            what, f, side, new = s.plan()
            o = outcome(f)
            if o is not None:
                errors.append((what, o))
                return
            s.took(side, new)
            e = s.check(codec)
            if e:
                errors.append((what, "then", *e))
                return

    ths = [threading.Thread(target=go, args=(m, random.Random(r.random())), daemon=True) for m in slots]
    old = sys.getswitchinterval()
    sys.setswitchinterval(r.choice([1e-6, 1e-5, 1e-4]))
    try:
        for t in ths:
            t.start()
        for t in ths:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in ths):
        ctx.violate("threads changing a registry did not finish")
        return
    ctx.ev("evaluations", 4 * n)
    ctx.ev("writes", 4 * n)
    if errors:
        ctx.violate("a change fails or is lost when other threads change other registrations", errors=errors[:4])


def run(ctx):
    n = 0
    while ctx.more() or n < 12:
        preempt(ctx, 60)
        writers(ctx, 80)
        stress(ctx, 60)
        write_stress(ctx, 30)
        n += 1
    ctx.ev("rounds", n)
