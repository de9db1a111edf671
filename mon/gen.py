"""Workload generators: types, values, value forms, payload layouts and mutations.
Everything is drawn from an explicit random.Random, so a (seed, shard) pair
replays."""
import collections
import glob
from decimal import Decimal
import os
import types as pytypes

from . import refabi as R

REPO = "/repo"


# --------------------------------------------------------------------------
# constants mined from the code under test, used only to steer the workload
# --------------------------------------------------------------------------
class Mined:
    def __init__(self):
        ints, strs, byts = set(), set(), set()

        def walk(co):
            for c in co.co_consts:
                visit(c)

        def visit(c):
            if isinstance(c, pytypes.CodeType):
                walk(c)
            elif isinstance(c, bool) or c is None:
                pass
            elif isinstance(c, int):
                ints.add(c)
            elif isinstance(c, float):
                if c == c and abs(c) < 1e15:
                    ints.add(int(c))
            elif isinstance(c, str):
                if 0 < len(c) <= 120:
                    strs.add(c)
            elif isinstance(c, bytes):
                if 0 < len(c) <= 120:
                    byts.add(c)
            elif isinstance(c, (tuple, frozenset)):
                for x in c:
                    visit(x)

        for p in sorted(glob.glob(os.path.join(REPO, "eth_abi", "**", "*.py"), recursive=True)):
            try:
                with open(p, "rb") as f:
                    walk(compile(f.read(), p, "exec"))
            except (OSError, SyntaxError, ValueError):
                pass
        self.ints = sorted(i for i in ints if abs(i) < 2**300)
        self.strs = sorted(strs)
        self.bytes = sorted(byts)

    def near_ints(self):
        out = set()
        for i in self.ints:
            for j in (i - 1, i, i + 1):
                out.add(j)
                out.add(-j)
        return sorted(out)

    def lengths(self, cap):
        return [i for i in self.near_ints() if 0 <= i <= cap]


# --------------------------------------------------------------------------
# type catalogues
# --------------------------------------------------------------------------
WIDTHS = list(range(8, 257, 8))
INT_TYPES = [f"uint{m}" for m in WIDTHS] + [f"int{m}" for m in WIDTHS]
BYTESN = [f"bytes{n}" for n in range(1, 33)]
PLAIN = ["bool", "address", "bytes", "string", "function", "byte", "uint", "int", "fixed", "ufixed"]
FIXED_SAMPLE = [
    f"{u}fixed{m}x{n}"
    for u in ("", "u")
    for m, n in [(8, 1), (8, 2), (8, 80), (16, 3), (24, 7), (64, 1), (64, 18), (128, 10),
                 (128, 18), (128, 19), (136, 40), (192, 33), (248, 79), (256, 1), (256, 18),
                 (256, 77), (256, 78), (256, 80)]
]
BASIC_SAMPLE = INT_TYPES + BYTESN + PLAIN + FIXED_SAMPLE
STATIC_LEAVES = INT_TYPES + BYTESN + FIXED_SAMPLE + ["bool", "address", "function", "byte", "uint", "int", "fixed", "ufixed"]


class UserSeq(collections.UserList):
    pass


class MySeq(collections.abc.Sequence):
    """A minimal read-only sequence."""

    def __init__(self, xs):
        self._xs = tuple(xs)

    def __len__(self):
        return len(self._xs)

    def __getitem__(self, i):
        return self._xs[i]

    def __repr__(self):
        return f"MySeq({self._xs!r})"


class MyInt(int):
    pass


class MyStr(str):
    pass


class MyBytes(bytes):
    pass


class MyList(list):
    pass


class MyDec(Decimal):
    pass


Pair = {}


def _named(n):
    if n not in Pair:
        Pair[n] = collections.namedtuple(f"NT{n}", [f"f{i}" for i in range(n)])
    return Pair[n]


TEXTS = [
    "", "a", "abc", "é", "ß", "日本語", "\U0001f600", "\x00", "a\x00b", "\ufeff", "\ufeffabc",
    "\r\n", "\n", "\r", "\u2028", "e\u0301", "\u00e9", "\u212b", "\uffff", "\ufffe", "\U0010ffff",
    "\ud7ff", "\ue000", "\x7f", "\x80", "\u07ff", "\u0800", "'", '"', "\\", "\\x41", "%s", "{}",
    " ", "\t", "   trailing   ", "0x", "0xabcdef", "NULL", "\u200b", "\u202e", "ﬁ", "Å", "İ", "ı", "ſ",
    "\U00010000", "\u0000\u0000", "ÿ", "Ā",
]


class Gen:
    def __init__(self, rng, mined=None):
        self.r = rng
        self.mined = mined or Mined()
        self._near = self.mined.near_ints()
        self._len_small = self.mined.lengths(700)

    # ---- types -----------------------------------------------------------
    def leaf(self):
        r = self.r
        x = r.random()
        if x < 0.30:
            s = r.choice(INT_TYPES)
        elif x < 0.42:
            s = r.choice(BYTESN)
        elif x < 0.52:
            s = f"{r.choice(['', 'u'])}fixed{r.choice(WIDTHS)}x{r.randint(1, 80)}"
        elif x < 0.62:
            s = "bytes"
        elif x < 0.74:
            s = "string"
        else:
            s = r.choice(PLAIN)
        return R.basic(s)

    def rtype(self, depth=3, width=4):
        """Random type with at most `depth` compound levels."""
        r = self.r
        if depth <= 0 or r.random() < 0.35:
            return self.leaf()
        x = r.random()
        if depth >= 2 and x < 0.06:
            return self.family()
        if x < 0.5:
            return R.mk_tuple([self.rtype(depth - 1, width) for _ in range(r.randint(1, width))])
        size = None if r.random() < 0.5 else r.choice([1, 1, 2, 2, 3, 4, 5])
        return R.mk_array(self.rtype(depth - 1, width), size)

    def family(self, most=12):
        """A wide tuple of types built from one or two leaves."""
        r = self.r
        ls = [self.leaf() for _ in range(r.choice([1, 1, 2]))]
        forms = [lambda t: t, lambda t: R.mk_array(t, None), lambda t: R.mk_array(t, r.choice([1, 2, 3])), lambda t: R.mk_tuple([t]),
                 lambda t: R.mk_array(R.mk_array(t, None), 2), lambda t: R.mk_array(R.mk_array(t, 2), None), lambda t: R.mk_tuple([t, t]),
                 lambda t: R.mk_array(R.mk_tuple([t]), None)]
        return R.mk_tuple([r.choice(forms)(r.choice(ls)) for _ in range(r.randint(2, most))])

    # ---- values ----------------------------------------------------------
    def rint(self, lo, hi):
        r = self.r
        x = r.random()
        if x < 0.2:
            v = r.choice([lo, hi, 0, 1, -1, lo + 1, hi - 1, 2, 255, 256, 127, 128])
        elif x < 0.5:
            k = r.randint(0, max(1, hi.bit_length()))
            v = (1 << k) + r.choice([-1, 0, 1])
            if lo < 0 and r.random() < 0.5:
                v = -v
        elif x < 0.6:
            v = r.choice(self._near)
        elif x < 0.7:
            b = bytearray(hi.bit_length() // 8 + 1)
            for _ in range(r.randint(1, 2)):
                b[r.randrange(len(b))] = r.choice([1, 0x7F, 0x80, 0xFF])
            v = int.from_bytes(b, "big")
        else:
            v = r.randint(lo, hi)
        return v if lo <= v <= hi else r.randint(lo, hi)

    def rlen(self):
        r = self.r
        x = r.random()
        if x < 0.55:
            return r.choice([0, 1, 2, 3, 5, 20, 30, 31, 32, 33, 34, 40, 63, 64, 65])
        if x < 0.9:
            return r.randint(0, 100)
        if x < 0.97:
            return r.choice(self._len_small) if self._len_small else r.randint(0, 300)
        return r.randint(100, 700)

    def rbytes(self, n):
        r = self.r
        x = r.random()
        if x < 0.5:
            return r.randbytes(n)
        if x < 0.6:
            return bytes(n)
        if x < 0.7:
            return b"\xff" * n
        if x < 0.8:
            return bytes(n - 1) + b"\x01" if n else b""
        if x < 0.9:
            return b"\x80" + bytes(n - 1) if n else b""
        b = bytearray(r.randbytes(n))
        if n and r.random() < 0.5:
            b[-1] = 0
        if n and r.random() < 0.5:
            b[0] = 0
        return bytes(b)

    def rtext(self):
        r = self.r
        x = r.random()
        if x < 0.35:
            return r.choice(TEXTS)
        if x < 0.45 and self.mined.strs:
            return r.choice(self.mined.strs)
        n = self.rlen()
        if x < 0.7:
            return "".join(chr(r.randint(32, 126)) for _ in range(n))
        out = []
        for _ in range(n):
            hi = r.choice([0x7F, 0x7FF, 0xFFFF, 0x10FFFF])
            c = r.randint(0, hi)
            if 0xD800 <= c <= 0xDFFF:
                c = 0xE000
            out.append(chr(c))
        return "".join(out)

    def rval(self, t, alen=None):
        r = self.r
        k = t.kind
        if k in ("uint", "int"):
            return self.rint(*R.int_range(t))
        if k in ("ufixed", "fixed"):
            return R.scaled_to_dec(self.rint(*R.int_range(t)), t.n)
        if k == "bool":
            return r.random() < 0.5
        if k == "address":
            return "0x" + self.rbytes(20).hex()
        if k == "bytesn":
            return self.rbytes(t.n if r.random() < 0.7 else r.randint(0, t.n))
        if k == "bytes":
            return self.rbytes(self.rlen())
        if k == "string":
            return self.rtext()
        if k == "custom":
            return t.m.rval(self)
        if k == "tuple":
            return tuple(self.rval(c) for c in t.items)
        n = t.size
        if n is None:
            n = alen if alen is not None else r.choice([0, 0, 1, 1, 2, 2, 3, 4, 5, 7])
        return tuple(self.rval(t.item) for _ in range(n))

    def form(self, t, v, p=0.6):
        """The same value in another accepted Python form."""
        r = self.r
        k = t.kind
        if k == "tuple":
            xs = [self.form(c, x, p) for c, x in zip(t.items, v)]
            return self._seqform(xs, p)
        if k == "array":
            xs = [self.form(t.item, x, p) for x in v]
            return self._seqform(xs, p)
        if r.random() > p:
            return v
        if k in ("uint", "int"):
            return MyInt(v)
        if k in ("ufixed", "fixed"):
            return self.decform(v, t.n)
        if k == "address":
            b = R.addr_bytes(v)
            h = b.hex()
            mixed = "".join(c.upper() if r.random() < 0.5 else c for c in h)
            return r.choice([b, bytearray(b), h, "0x" + h, "0X" + h, "0x" + h.upper(), h.upper(),
                             "0x" + mixed, mixed, MyBytes(b), MyStr("0x" + h)])
        if k in ("bytesn", "bytes"):
            return r.choice([bytes, bytearray, MyBytes])(v)
        if k == "string":
            return MyStr(v)
        return v

    def _seqform(self, xs, p):
        r = self.r
        if r.random() > p:
            return xs
        c = r.randrange(8)
        if c == 0:
            return list(xs)
        if c == 1:
            return tuple(xs)
        if c == 2:
            return UserSeq(xs)
        if c == 3:
            return MySeq(xs)
        if c == 4:
            return collections.deque(xs)
        if c == 5:
            return MyList(xs)
        if c == 6 and 0 < len(xs) < 400:
            return _named(len(xs))(*xs)
        if (c == 7 and xs and all(type(x) is int for x in xs)
                and list(xs) == list(range(xs[0], xs[0] + len(xs))) and xs[-1] < 2**62):
            return range(xs[0], xs[0] + len(xs))
        return tuple(xs)

    def decform(self, v, n=None):
        """An equal number written differently, built from digits only."""
        r = self.r
        if isinstance(v, int):
            v = Decimal(v)
        s, d, e = v.as_tuple()
        c = r.randrange(6)
        if c == 0:  # trailing zeros
            z = r.choice([1, 2, 10, 50, 200, 1200])
            return Decimal((s, d + (0,) * z, e - z))
        if c == 1:  # leading zeros are dropped by the constructor; strip trailing ones
            d = list(d)
            while len(d) > 1 and d[-1] == 0:
                d.pop()
                e += 1
            return Decimal((s, tuple(d), e))
        if c == 2 and e >= 0:
            return int(v)
        if c == 2 and not any(d):
            return r.choice([0, Decimal("-0"), Decimal("0E+5"), Decimal("0E-500"), Decimal("-0.000")])
        if c == 3 and R.dec_key(v)[2] >= 0 and len(d) < 200 and e > -200:
            k = 0
            for x in d:
                k = k * 10 + x
            k //= 10 ** (-e) if e < 0 else 1
            if e > 0:
                k *= 10**e
            return -k if s else k
        if c == 4:
            return MyDec(v)
        return v

    # ---- boundary values ---------------------------------------------------
    def int_edges(self, t, full):
        lo, hi = R.int_range(t)
        vs = {lo, lo + 1, hi, hi - 1, 0, 1, 2, hi // 2, hi // 3}
        ks = range(0, t.m + 1) if full else range(0, t.m + 1, 8)
        for k in ks:
            for d in (-1, 0, 1):
                vs.add(2**k + d)
                vs.add(-(2**k) + d)
        for i in range(0, t.m, 8):
            for b in (0x01, 0x7F, 0x80, 0xFF):
                vs.add(b << i)
                vs.add(-(b << i))
        for i in self._near:
            vs.add(i)
        if full:
            for i in self.mined.ints:
                if i > 0:
                    for sh in range(0, t.m, 8):
                        vs.add(i << sh)
        return sorted(v for v in vs if lo <= v <= hi)

    def edges(self, t, full=False):
        k = t.kind
        if k in ("uint", "int"):
            return self.int_edges(t, full)
        if k in ("ufixed", "fixed"):
            out = [R.scaled_to_dec(v, t.n) for v in self.int_edges(t, False)]
            lo, hi = R.int_range(t)
            for j in range(0, 81):
                for v in (10**j, 10**j - 1, 10**j + 1):
                    if v <= hi:
                        out.append(R.scaled_to_dec(v, t.n))
                    if -v >= lo:
                        out.append(R.scaled_to_dec(-v, t.n))
            return out
        if k == "bool":
            return [False, True]
        if k == "address":
            bs = [bytes(20), b"\xff" * 20, bytes(19) + b"\x01", b"\x01" + bytes(19), bytes(range(20)),
                  bytes.fromhex("5aaeb6053f3e94c9b9a09f33669435e7ef1beaed"), b"0x" + b"a" * 18, b"1" * 20]
            for i in range(20):
                b = bytearray(20)
                b[i] = 0x80 + i
                bs.append(bytes(b))
            return ["0x" + b.hex() for b in bs] + bs
        if k == "bytesn":
            n = t.n
            out = [b"", bytes(n), b"\xff" * n, bytes(range(1, n + 1)), b"\x00" * (n - 1) + b"\x01"]
            for i in range(1, n + 1):
                out.append(b"\xff" * i)
                out.append(b"\x00" * (i - 1) + b"\x7f")
                out.append(b"\x7f" + b"\x00" * (i - 1))
            for b in self.mined.bytes:
                if len(b) <= n:
                    out.append(b)
            return out
        if k == "bytes":
            return [b"", b"\x00", b"\x01", b"\xff" * 31, b"\x00" * 32, b"\xff" * 32, b"a" * 33, b"\x00" * 64,
                    b"\xff" * 65, bytes(range(256))] + list(self.mined.bytes)
        if k == "string":
            return TEXTS + ["a" * 31, "a" * 32, "a" * 33, "é" * 16, "é" * 31, "日" * 11, "\U0001f600" * 8] + self.mined.strs[:60]
        raise ValueError(k)


# --------------------------------------------------------------------------
# contexts: where a leaf can stand
# --------------------------------------------------------------------------
BOOL = R.basic("bool")
U8 = R.basic("uint8")
STR = R.basic("string")
BYT = R.basic("bytes")
U256 = R.basic("uint256")


def contexts(t, v, w):
    """(types, values) pairs placing the values v and w (both of type t) everywhere."""
    A = R.mk_array
    Tu = R.mk_tuple
    yield [t], [v]
    yield [A(t, None)], [[]]
    yield [A(t, None)], [[v]]
    yield [A(t, None)], [[v, w, v]]
    yield [A(t, 1)], [[v]]
    yield [A(t, 3)], [[w, v, w]]
    yield [A(A(t, None), None)], [[[v], [], [w, v]]]
    yield [A(A(t, 2), None)], [[[v, w], [w, v]]]
    yield [A(A(t, None), 2)], [[[v], [w, v]]]
    yield [A(A(t, 2), 2)], [[[v, w], [w, w]]]
    yield [Tu([t])], [(v,)]
    yield [Tu([t, t])], [(v, w)]
    yield [Tu([U8, t])], [(7, v)]
    yield [Tu([STR, t])], [("s", v)]
    yield [Tu([t, STR])], [(v, "s" * 33)]
    yield [t, BYT, t], [v, b"xyz", w]
    yield [BYT, t, STR], [b"", v, "q"]
    yield [Tu([t, Tu([t, STR])])], [(v, (w, "z"))]
    yield [A(Tu([t]), None)], [[(v,), (w,)]]
    yield [A(Tu([t, BYT]), None)], [[(v, b"1"), (w, b"2" * 40)]]
    yield [A(Tu([U8, t]), 2)], [[(1, v), (2, w)]]
    yield [Tu([A(t, None), t])], [([v, w], w)]
    yield [Tu([A(t, 2), STR, A(Tu([t]), 1)])], [([v, w], "k", [(v,)])]
    yield [Tu([Tu([Tu([t])])]), STR], [(((v,),),), "end"]
    yield [A(A(A(t, 1), None), 1)], [[[[v], [w]]]]


def sized_patterns(maxk):
    """All static/dynamic/wide patterns of tuples of up to maxk members."""
    A, Tu = R.mk_array, R.mk_tuple
    kinds = [
        (U8, 5), (STR, "dyn"), (A(U8, 2), (1, 2)), (Tu([U8, Tu([U8, U8])]), (3, (4, 5))),
        (A(U8, None), (9, 8, 7)), (Tu([U8, BYT]), (6, b"deep")), (A(A(U8, 2), 2), ((1, 2), (3, 4))),
    ]
    import itertools

    for k in range(1, maxk + 1):
        for pat in itertools.product(range(len(kinds)), repeat=k):
            yield [kinds[i][0] for i in pat], [kinds[i][1] for i in pat]


def dims_patterns(maxd):
    """Every mix of dynamic and fixed dimensions over several leaves."""
    import itertools

    leaves = [R.basic("uint8"), R.basic("string"), R.basic("bytes3"), R.mk_tuple([U8, BYT]), R.mk_tuple([U8, U8])]
    for d in range(1, maxd + 1):
        for dims in itertools.product((None, 1, 2, 3), repeat=d):
            for lf in leaves:
                t = lf
                for x in dims:
                    t = R.mk_array(t, x)
                yield t


LEN_SPECIAL = [2**k + d for k in range(7, 18) for d in (-33, -32, -31, -1, 0, 1, 31, 32, 33)]


def share(it, ctx, chunk=1):
    """This shard's part of an enumeration."""
    for i, x in enumerate(it):
        if (i // chunk) % ctx.nshards == ctx.shard:
            yield x


PAIR = R.mk_tuple([U8, R.basic("uint256")])


def large_cases(ctx, g, packed=False):
    """Sizes beyond what other phases reach: around powers of two and the integers in
    the code's own text."""
    r = g.r
    top = (1 << 24) if ctx.thorough else (1 << 22)
    lens = {2**k + d for k in range(18, 23 + ctx.thorough) for d in (-1, 0, 1)} | {i for i in g.mined.near_ints() if 140000 < i <= 1 << 24}
    for n in share(sorted(x for x in lens if x <= top + 1 or x in g._near), ctx):
        b = r.randbytes(4096)
        b = (b * (n // 4096 + 1))[:n]
        yield [BYT], [b]
        yield [U8, R.mk_tuple([STR, U8])], [1, ("x" * (n - 2) + "é", 7)]
        yield [BYT, STR], [b, "after"]
        yield [R.mk_array(BYT, None)], [[b"", b, b"end"]]
    if ctx.shard == ctx.seed % ctx.nshards:
        # offsets that need a fourth byte
        b = bytes(range(256)) * (1 << 16)
        yield [BYT, STR, R.mk_array(U8, None)], [b + b"!", "after", [1, 2]]
        yield [R.mk_array(BYT, 2), U8], [[b, b"end"], 3]
    alens = {8191, 8193, 10000, 16384, 16385, 20000, 32767, 32768, 32769, 50001, 65535, 65536, 65537, 70001} | {i for i in g.mined.near_ints() if 6000 < i <= 200000}
    if ctx.thorough:
        alens |= {100000, 100001, 131071, 131072, 131073}
    for n in share(sorted(alens), ctx):
        if r.random() < 0.5 or n > 100000:
            yield [R.mk_array(BOOL, None)], [[i % 3 == 0 for i in range(n)]]
        else:
            yield [R.mk_array(U8, n), U8], [[i % 256 for i in range(n)], 9]
        if n <= 33000 or ctx.thorough:
            yield [R.mk_array(R.mk_tuple([U8, BYT]), None), STR], [[(i % 256, b"%d" % i) for i in range(n // 2)], "z"]
            yield [R.mk_array(STR, n // 2)], [[str(i) for i in range(n // 2)]]
    widths = {400, 500, 511, 512, 513, 600, 777, 1000} | {i for i in g.mined.near_ints() if 400 < i <= 1500}
    for n in share(sorted(widths), ctx):
        ts = [(U8, STR, PAIR, BYT, U256)[i % 5] for i in range(n)]
        vs = [(i % 256, "s%d" % i, (i % 256, i), b"b" * (i % 70), i << 200)[i % 5] for i in range(n)]
        yield ts, vs
        yield [R.mk_tuple(ts)], [tuple(vs)]


def _sizes(ctx, g, top):
    return sorted({300, 1000, 1025, 2049, 4097, 8193, 16385} | ({32769, 65537} if ctx.thorough else set())
                  | {i for i in g.mined.near_ints() if 300 < i <= top})


def large_payload_faults(ctx, g):
    """Large payloads with one defect, early, in the middle or in the last place."""
    r = g.r

    def flip(d, i):
        b = bytearray(d)
        b[i] ^= r.choice([1, 0x80, 0xFF])
        return bytes(b)

    def word(d, i, w):
        return d[:i] + R._word(w) + d[i + 32 :]

    lens = {1001, 4095, 4097, 10001, 65535, 65537, 100001, 2**18 + 1, 2**20 + 5} | {i | 1 for i in g.mined.near_ints() if 1000 < i <= 1 << 23}
    for n in share(sorted(lens), ctx):
        for t, v in ((BYT, b"b" * n), (STR, "s" * n)):
            for ts, vs in (([t], [v]), ([R.mk_array(t, None)], [[v]])):
                d = R.enc_seq(ts, vs)
                pad = -n % 32
                for x in (flip(d, len(d) - 1), flip(d, len(d) - pad), d[:-1], d[:-pad], d[: -pad - 1], d[:-40]):
                    yield ts, x
                if t is STR:
                    yield ts, flip(d, len(d) - pad - 1)[: len(d) - pad - 1] + b"\xff" + bytes(pad)
    for n in share(_sizes(ctx, g, 40000), ctx):
        spots = sorted({0, 1, n // 2, n - 2, n - 1, r.randrange(n)})
        for ts, vs, off in (([R.mk_array(U8, None)], [[7] * n], 64), ([R.mk_array(BOOL, n)], [[True] * n], 0), ([R.mk_tuple([STR, R.mk_array(BOOL, n)])], [("x", [False] * n)], 64)):
            d = R.enc_seq(ts, vs)
            for k in spots[-3:] if n > 5000 else spots:
                yield ts, word(d, off + 32 * k, r.choice([2, 256, 1 << 255, 2**256 - 1]) if ts[0].s[:4] != "uint" else r.choice([256, 1 << 255]))
            yield ts, d[: off + 32 * n - 1]
        if n > 20000:
            continue
        for ts, vs, off in (([R.mk_array(STR, None)], [["a"] * n], 64), ([R.mk_array(BYT, n)], [[b"q"] * n], 32), ([R.mk_array(R.mk_tuple([U8, BYT]), None)], [[(1, b"")] * n], 64)):
            d = R.enc_seq(ts, vs)
            for k in spots[-3:] if n > 5000 else spots:
                yield ts, word(d, off + 32 * k, r.choice([0, 32 * n - 1, 32 * n - 32, len(d) - off, len(d), 2**256 - 1, 2**63]))
            yield ts, d[:-1]
            yield ts, d[:-33]
            yield ts, word(d, off - 32, n + 1) if off == 64 else flip(d, len(d) - 1)


def large_value_faults(ctx, g):
    """Large values with one element, early or late, that does not belong."""
    r = g.r
    for n in share(_sizes(ctx, g, 40000), ctx):
        spots = sorted({0, n // 2, n - 1, r.randrange(n)})
        for t, ok, bad in ((U8, 7, 256), (BOOL, True, 1), (STR, "a", b"a"), (R.mk_tuple([U8, BYT]), (1, b"x"), (1, "x")), (R.basic("bytes4"), b"abcd", b"abcde"), (R.mk_array(U8, 2), [1, 2], [1, 2, 3])):
            if t.kind in ("tuple", "array", "string") and n > 9000:
                continue
            for k in r.sample(spots, min(len(spots), 2)) + [n - 1]:
                v = [ok] * n
                v[k] = bad
                yield [R.mk_array(t, r.choice([None, n]))], [v]
            yield [R.mk_array(t, n)], [[ok] * (n + r.choice([-1, 1]))]


def valid_cases(ctx, g, scale=1.0):
    """(types, values) with values in the domain; a systematic part sharded over the
    workers, then (by the caller, until its budget ends) rand_case."""
    r = g.r
    thorough = ctx.tier == "thorough"
    # every basic type with its boundary values, bare
    for s in share(BASIC_SAMPLE, ctx):
        t = R.basic(s)
        for v in g.edges(t, full=True):
            yield [t], [v]
    # every basic type in every context
    for s in share(BASIC_SAMPLE, ctx):
        t = R.basic(s)
        es = g.edges(t)
        for _ in range(3 if thorough else 1):
            for tv in contexts(t, r.choice(es), r.choice(es)):
                yield tv
        for tv in contexts(t, es[0], es[-1]):
            yield tv
    # lengths of byte strings and texts, alone and followed by something
    top = int(1100 * scale) if thorough else int(420 * scale)
    lens = sorted(set(list(range(top)) + LEN_SPECIAL + g.mined.lengths(140000)))
    for n in share(lens, ctx):
        b = r.randbytes(min(n, 4096))
        b = (b * (n // max(1, len(b)) + 1))[:n]
        yield [BYT], [b]
        yield [STR], ["x" * n]
        if n < 5000:
            yield [R.mk_array(BYT, None), U8], [[b, b[:-1], b""], 3]
            yield [R.mk_tuple([STR, BYT])], [("é" * (n // 2) + "a" * (n % 2), b)]
    # lengths of arrays
    alens = sorted(set(list(range(int(300 * scale))) + [511, 512, 513, 767, 1000, 1023, 1024, 1025, 2047, 2048, 2049]
                       + ([4095, 4096, 4097, 8192, 10000, 16385] if thorough else [4096]) + g.mined.lengths(6000)))
    for n in share(alens, ctx):
        yield [R.mk_array(U8, None)], [[i % 256 for i in range(n)]]
        if n:
            yield [R.mk_array(U256, n)], [list(range(n))]
        if n <= 1100:
            yield [R.mk_array(STR, None)], [[str(i) for i in range(n)]]
            yield [R.mk_array(R.mk_tuple([U8, BYT]), None), STR], [[(i % 256, b"%d" % i) for i in range(n)], "z"]
            if n:
                yield [R.mk_array(BYT, n), U8], [[b"%d" % i for i in range(n)], 1]
    # tuple widths, type list widths
    widths = list(range(1, 40)) + [48, 63, 64, 65, 96, 127, 128, 129, 200, 255, 256, 257, 300] + [n for n in g.mined.lengths(400) if n > 0]
    for n in share(sorted(set(widths)), ctx):
        ts = [(U8, STR, U256, BYT)[i % 4] for i in range(n)]
        vs = [(i % 256, "s%d" % i, i << 200, b"b" * (i % 70))[i % 4] for i in range(n)]
        yield ts, vs
        yield [R.mk_tuple(ts)], [tuple(vs)]
        yield [U8] * n, [i % 256 for i in range(n)]
        yield [R.mk_array(R.mk_tuple([U8] * n), 2)], [[[i % 256 for i in range(n)]] * 2]
    # static/dynamic member patterns
    for ts, vs in share(sized_patterns(4 if thorough else 3), ctx, 16):
        yield ts, vs
        yield [R.mk_tuple(ts)], [tuple(vs)]
    # array dimension patterns
    for t in share(dims_patterns(5 if thorough else 4), ctx, 8):
        yield [t], [g.rval(t)]
    # depth
    for d in share(range(1, 40 if thorough else 26), ctx):
        for leaf, val in ((U8, 9), (STR, "deep"), (R.basic("bytes7"), b"1234567")):
            t, v = leaf, val
            for _ in range(d):
                t, v = R.mk_tuple([t]), (v,)
            yield [t], [v]
            t, v = leaf, val
            for i in range(d):
                t, v = R.mk_tuple([U8, t, STR] if i % 2 else [STR, t]), ((i, v, "t") if i % 2 else ("h", v))
            yield [t], [v]
            t, v = leaf, val
            for i in range(d):
                t, v = R.mk_array(t, (None, 1)[i % 2]), (v,)
            yield [t], [v]
            t, v = leaf, val
            for i in range(d):
                t = R.mk_array(R.mk_tuple([t, U8]), None) if i % 2 else R.mk_tuple([t])
                v = ((v, i),) if i % 2 else (v,)
            yield [t], [v]
    # mined integers as values of the narrowest and widest types, in context
    for i in share(g._near, ctx):
        for s in ("uint256", "int256", "uint64", "int128"):
            t = R.basic(s)
            lo, hi = R.int_range(t)
            if lo <= i <= hi:
                yield [R.mk_array(t, None), STR], [[i, 0], "m"]


def rand_case(g, depth=3, width=4, n=4):
    r = g.r
    d = r.choice([0, 1, 1, 2, 2, 3, 3, depth])
    ts = [g.rtype(d, width) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, n]))]
    vs = [g.rval(t) for t in ts]
    return ts, vs


def dform(r, data):
    """One of the accepted carriers of the same payload."""
    x = r.random()
    return bytes(data) if x < 0.6 else bytearray(data) if x < 0.88 else MyBytes(data)


def tform(r, names):
    return tuple(names) if r.random() < 0.3 else names


def strs(ts):
    return [t.s for t in ts]


# --------------------------------------------------------------------------
# payload layouts
# --------------------------------------------------------------------------
class Layout:
    """Writes a value at absolute positions chosen at random: tails in any order, with
    gaps, shared where possible, hoisted out of their parent, at any alignment."""

    def __init__(self, g, align=None, gap=None, share_p=0.3, order="random"):
        self.g, self.r = g, g.r
        self.buf = bytearray()
        self.align = align
        self.gap = gap
        self.share_p = share_p
        self.order = order
        self.memo = {}
        self.queue = []

    def alloc(self, n):
        r = self.r
        p = len(self.buf)
        if self.gap:
            k = r.choice(self.gap)
            self.buf += r.randbytes(k)
            p += k
        if self.align:
            k = -p % self.align
            self.buf += r.randbytes(k)
            p += k
        self.buf += bytes(n)
        return p

    def put(self, p, b):
        self.buf[p : p + len(b)] = b

    def static(self, t, v):
        return R.enc(t, v)

    def seq(self, ts, vs, p):
        base = p
        head = sum(32 if t.dyn else t.hs for t in ts)
        for t, v in zip(ts, vs):
            if t.dyn:
                self.queue.append((t, v, p, base, base + head))
                p += 32
            else:
                b = R.enc(t, v)
                self.put(p, b)
                p += len(b)

    def build(self, ts, vs):
        head = sum(32 if t.dyn else t.hs for t in ts)
        self.buf = bytearray(head)
        self.seq(ts, vs, 0)
        r = self.r
        while self.queue:
            i = {"random": r.randrange(len(self.queue)), "lifo": -1, "fifo": 0}[self.order]
            t, v, at, base, minpos = self.queue.pop(i)
            key = (t.canon_s, repr(R.canon(t, v)))
            pos = None
            if r.random() < self.share_p:
                c = [x for x in self.memo.get(key, ()) if x >= minpos]
                if c:
                    pos = r.choice(c)
            if pos is None:
                pos = self.tail(t, v)
                self.memo.setdefault(key, []).append(pos)
            self.put(at, R._word(pos - base))
        return bytes(self.buf)

    def tail(self, t, v):
        k = t.kind
        if k in ("bytes", "string", "custom"):
            b = R.enc(t, v)
            p = self.alloc(len(b))
            self.put(p, b)
            return p
        if k == "tuple":
            p = self.alloc(sum(32 if c.dyn else c.hs for c in t.items))
            self.seq(t.items, v, p)
            return p
        its = (t.item,) * len(v)
        head = sum(32 if c.dyn else c.hs for c in its)
        if t.size is None:
            p = self.alloc(32 + head)
            self.put(p, R._word(len(v)))
            self.seq(its, v, p + 32)
        else:
            p = self.alloc(head)
            self.seq(its, v, p)
        return p


def random_layout(g):
    r = g.r
    return Layout(
        g,
        align=r.choice([None, None, 32, 64]),
        gap=r.choice([None, [0, 1, 7], [0, 32], [0, 0, 0, 64], [0, 5, 33, 100]]),
        share_p=r.choice([0, 0.3, 1.0]),
        order=r.choice(["random", "random", "lifo", "fifo"]),
    )


# --------------------------------------------------------------------------
# mutations
# --------------------------------------------------------------------------
WORDS = [0, 1, 2, 3, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 160, 192, 224, 255, 256, 288, 320,
         2**16, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53, 2**62, 2**63 - 33, 2**63 - 32, 2**63 - 1, 2**63, 2**63 + 1,
         2**64 - 33, 2**64 - 32, 2**64 - 1, 2**64, 2**64 + 32, 2**128, 2**160 - 1, 2**160, 2**255 - 1, 2**255,
         2**256 - 1, 2**256 - 32, 2**256 - 31, 2**256 - 64, 2**256 - 96]


def mutate(g, data, donor=b""):
    """One random mutation of a payload."""
    r = g.r
    b = bytearray(data)
    nw = len(b) // 32
    c = r.randrange(12)
    if c == 0 or not b:  # truncate
        return bytes(b[: r.randint(0, len(b))])
    if c == 1:  # bit flip
        i = r.randrange(len(b))
        b[i] ^= 1 << r.randrange(8)
    elif c == 2:  # byte set
        b[r.randrange(len(b))] = r.choice([0, 1, 2, 0x20, 0x40, 0x7F, 0x80, 0xFF])
    elif c in (3, 4) and nw:  # word replaced
        i = 32 * r.randrange(nw)
        w = r.choice(WORDS) if r.random() < 0.8 else r.choice([len(b), len(b) - 1, len(b) + 1, len(b) - 32, len(b) - 64])
        b[i : i + 32] = R._word(w)
    elif c == 5 and nw:  # word nudged
        i = 32 * r.randrange(nw)
        w = int.from_bytes(b[i : i + 32], "big") + r.choice([-64, -33, -32, -31, -1, 1, 31, 32, 33, 64])
        b[i : i + 32] = R._word(w)
    elif c == 6 and nw > 1:  # swap words
        i, j = 32 * r.randrange(nw), 32 * r.randrange(nw)
        b[i : i + 32], b[j : j + 32] = b[j : j + 32], b[i : i + 32]
    elif c == 7 and nw:  # delete a word
        i = 32 * r.randrange(nw)
        del b[i : i + 32]
    elif c == 8:  # insert a word
        i = 32 * r.randint(0, nw)
        b[i:i] = R._word(r.choice(WORDS))
    elif c == 9:  # append
        b += r.randbytes(r.choice([1, 31, 32, 33, 64]))
    elif c == 10 and donor:
        i, j = r.randint(0, len(b)), r.randint(0, len(donor))
        return bytes(b[:i]) + donor[j:]
    else:  # small word
        if nw:
            i = 32 * r.randrange(nw)
            b[i : i + 32] = R._word(32 * r.randint(0, nw + 1))
    return bytes(b)
