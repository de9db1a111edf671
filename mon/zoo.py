"""Hostile and near-miss values."""
import array
import collections
import datetime
from decimal import Decimal
import enum
import fractions

from . import gen, refabi as R


class Color(enum.IntEnum):
    RED = 1
    BIG = 300


class StrE(str, enum.Enum):
    A = "a"


class Obj:
    def __repr__(self):
        return "<Obj>"


class IntLike:
    def __int__(self):
        return 1

    def __index__(self):
        return 1


class BytesLike:
    def __bytes__(self):
        return b"x"


class LenOnly:
    def __len__(self):
        return 2


class IterOnly:
    def __iter__(self):
        return iter((1, 2))


def fixed_zoo():
    """Values for any type; rebuilt on each call because some are stateful."""
    loop = []
    loop.append(loop)
    h40 = "5aAeb6053F3E94C9b9A09f33669435E7Ef1BeAed"
    return [
        None, True, False, 0, 1, -1, 2, 255, 256, 2**255, 2**256 - 1, 2**256, -(2**255), -(2**255) - 1, 10**100,
        10**1000, 10**4299, 10**5000, -(10**5000), gen.MyInt(1), gen.MyInt(300), Color.RED, Color.BIG, StrE.A,
        0.0, 1.0, -1.0, 1.5, -0.0, 1e300, 5e-324, float("nan"), float("inf"), float("-inf"), 1j, 0j, complex(1, 0),
        fractions.Fraction(1, 2), fractions.Fraction(1), fractions.Fraction(-3, 7),
        Decimal(0), Decimal(1), Decimal("-0"), Decimal("1.5"), Decimal("-1.5"), Decimal("NaN"), Decimal("sNaN"), Decimal("-NaN"),
        Decimal("NaN123"), Decimal("Infinity"), Decimal("-Infinity"), Decimal("1e-2000000"), Decimal("1e2000000"),
        Decimal("-1e2000000"), Decimal("1E+80"), Decimal("1E-80"), Decimal("1E-81"), Decimal("0E-5000"), Decimal("0E+5000"),
        Decimal("1." + "0" * 1500), Decimal("1." + "0" * 1500 + "1"), Decimal("0." + "9" * 1100), Decimal("1E-1000000"),
        Decimal("1.00000000000000000000000000001"), gen.MyDec("0.5"),
        "", "a", "0", "1", "0x", "0x0", "0x1", "true", "é", "\ud800", "a\udfffb", "\U0010ffff", h40, "0x" + h40, "0X" + h40, h40.lower(),
        h40.upper(), "0x" + h40[:-1], "0x" + h40 + "0", h40[:-1], h40 + "0", "0x" + h40[:-1] + "g", " " + h40, h40 + "\n", "0x" + h40 + "\n",
        "0x" + "١" * 40, "١" * 40, "0x" + "0" * 38 + "_1", "0y" + h40, "0x0x" + h40[:-2], "x" * 42, "x" * 40, "0x" + h40[:20],
        gen.MyStr("0x" + h40), gen.MyStr("q"), "a" * 5000,
        b"", b"\x00", b"\x01", b"a" * 19, b"a" * 20, b"a" * 21, b"a" * 24, b"a" * 25, b"a" * 31, b"a" * 32, b"a" * 33, b"\xff" * 64,
        bytearray(b""), bytearray(b"ab"), bytearray(b"a" * 20), bytearray(b"a" * 33), gen.MyBytes(b"xy"), memoryview(b"abc"),
        memoryview(b"a" * 20), h40.encode()[:20], b"0x" + h40.encode()[:18],
        [], (), [1], (1,), [1, 2], (1, 2), [1, 2, 3], [True], ["a"], [b"a"], [[]], [[1]], [[1, 2], [3]], [None], [1, "a"], [1.0],
        ["a", b"a"], (1, (2, 3)), ((1,),), [[], []], [b"", b""], ["", ""], [(), ()], [0] * 40, [b"a" * 20], ["0x" + h40], [2**256], [-1],
        [10**5000], loop, gen.MySeq([1, 2]), gen.UserSeq([1]), collections.deque([1, 2]), range(3), range(0), gen.MyList([1, 2]),
        {}, {1: 2}, {0: 1, 1: 2}, set(), {1, 2}, frozenset([1]), iter([1, 2]), (x for x in (1, 2)), map(int, "12"), zip([1], [2]),
        dict(a=1).keys(), dict(a=1).values(), collections.OrderedDict(a=1), collections.Counter("ab"), Obj(), Obj, object(), len,
        lambda v: v, Ellipsis, NotImplemented, IntLike(), BytesLike(), LenOnly(), IterOnly(), type, int, datetime.date(2020, 1, 1),
        slice(1), Exception("x"), collections.UserString("abc"), collections.UserDict(),
    ]


ZOO_TYPES = (
    ["uint8", "uint256", "uint", "int8", "int256", "int", "uint96", "int72", "bool", "address", "bytes", "string", "bytes1", "bytes20",
     "bytes24", "bytes32", "function", "byte", "fixed8x1", "ufixed8x1", "fixed128x18", "ufixed128x18", "fixed256x80", "ufixed256x80",
     "fixed", "ufixed", "ufixed64x3"]
    + ["uint8[]", "uint8[2]", "uint256[1]", "bool[]", "string[]", "bytes[]", "bytes[2]", "address[]", "bytes3[]", "uint8[][]", "uint8[2][]",
       "uint8[][2]", "string[][]", "fixed8x1[]", "ufixed128x18[2]"]
    + ["(uint8)", "(uint8,uint8)", "(string)", "(string,bytes)", "(uint8,(uint8,uint8))", "((uint8))", "(uint8[],string)", "(bool)[]",
       "(uint8,string)[]", "(uint8,uint8)[2]", "(address,bytes3)", "((string))[1]"]
)


def near_misses(g, t):
    """Values just outside a basic type (and a few just inside)."""
    k = t.kind
    r = g.r
    if k in ("uint", "int"):
        lo, hi = R.int_range(t)
        out = [lo - 1, hi + 1, lo, hi, -lo, -hi, hi + 2, 2**t.m, 2**t.m - 1, 2**t.m + 1, -(2**t.m), -(2 ** (t.m - 1)), -(2 ** (t.m - 1)) - 1,
               2 ** (t.m - 1), 2 ** (t.m - 1) - 1, 2 ** (t.m + 8) - 1, 2**256, True, False, float(1), "1", b"\x01", None, Decimal(1), [1],
               hi * 2, 2**300, -1, -2, -128, -129, 10**r.randrange(78, 640), 10**r.randrange(640, 4290), -(10**r.randrange(640, 4290))]
        out += [2**x for x in range(t.m - 1, t.m + 10)]
        out += ["0x1", "0", "", hex(hi), str(hi), " 1", "1_0", b"", b"1", bytes(t.m // 8), bytes(32), bytes(31) + b"\x01", Decimal("1E+1"), Decimal("0"), Decimal("1.0"), 0.0,
                -0.0, 2.0**53, 1j, fractions.Fraction(1), (1,), {}, {1: 1}, datetime.timedelta(1), datetime.date(2024, 1, 1), object()]
        out += [-(2**x) - d for x in range(max(0, t.m - 2), t.m + 9) for d in (0, 1)]
        for c in g._near:
            if not lo <= c <= hi:
                out.append(c)
        return out
    if k in ("ufixed", "fixed"):
        lo, hi = R.int_range(t)
        n = t.n
        S = R.scaled_to_dec
        out = [S(lo, n), S(hi, n), S(lo - 1, n), S(hi + 1, n), S(hi * 10 + 1, n + 1), S(hi * 10 + 5, n + 1), S(hi * 10 - 1, n + 1), S(1, n), S(-1, n), S(1, n + 1),
               S(5, n + 1), S(9, n + 1), S(11, n + 1), S(10, n + 1), S(1, n + 2), S(1, 500), S(10**n, n), S(10**n + 1, n), S(2**t.m, n),
               S(-(2**t.m), n), S(lo * 10 - 1, n + 1), S(lo * 10 + 1, n + 1), S(-11, n + 1), S(-5, n + 1), S(-15, n + 1), S(-1, n + 3),
               S(10**600 + 1, n + 600), S(10**1200 + 1, n + 1200), S(-(10**600) - 1, n + 600),
               Decimal("NaN"), Decimal("sNaN"), Decimal("Infinity"), Decimal("-Infinity"), 1.0, 0.0, 0.5, float("nan"), 1j, fractions.Fraction(1, 2),
               fractions.Fraction(0), "0", "1.5", None, b"", hi, hi + 1, lo - 1, 0, 10**80, -(10**80), 10**5000, Decimal("1e-2000000"), Decimal("1E+1000"),
               Decimal(hi // 10**n), Decimal(hi // 10**n + 1), hi // 10**n, hi // 10**n + 1, lo // 10**n, -((-lo) // 10**n)]
        for e in (1, 2, 17, 29, 40, 100, 998, 999, 1000, 2000):
            out.append(S(g.r.randint(0, hi) * 10**e + 1, n + e))
            out.append(S(g.r.randint(0, hi) * 10**e, n + e))
        return out
    if k == "bool":
        return [True, False, 0, 1, 2, None, "true", b"\x01", 1.0, [], Decimal(1), gen.MyInt(1), "", "True", "False", "0", "1", "yes",
                b"", b"\x00", bytes(32), 0.0, -1, (), [True], (False,), {}, float("nan")]
    if k == "address":
        h = r.randbytes(20).hex()
        return ["0x" + h, h, "0x" + h[:-1], h[:-1], "0x" + h + "0", h + "00", "0x" + h[:-1] + "g", bytes.fromhex(h), bytes.fromhex(h)[:-1], bytes.fromhex(h) + b"\0",
                bytearray.fromhex(h), b"", "", "0x", None, int(h, 16), [h], " " + h, h + " ", "0x" + h[:-2] + "  ", "0x" + h + "\n", h[:39] + "é", "0x0x" + h[:38], "-0x" + h[:39],
                "0x" + "_" + h[1:], "0b" + h[:38], "x" + h[1:]]
    if k == "bytesn":
        n = t.n
        return [b"a" * i for i in range(0, n + 3)] + [bytes(n + 1), b"a" * n + b"\x00", bytearray(n), bytearray(n + 1), b"a" * 33, b"a" * 64, "a" * n, "", None, 1, [97], memoryview(b"a"),
                                                       "0x00", gen.MyBytes(b"a" * (n + 1)), "0x" + "ab" * n, "ab" * n, "0X" + "AB" * n, b"0x" + b"ab" * n, "0x", "0x" + "00" * 32,
                                                       0, 2 ** (8 * n) - 1, [0] * n, list(b"a" * n), (97,) * n, array.array("B", b"a" * n), "é" * n, "\x00" * n, True]
    if k == "bytes":
        return [b"", b"a", bytearray(b"abc"), "", "abc", "0x00", None, 1, [1, 2], memoryview(b"abc"), (b"a",), True, "0x", "0xabcd", "abcd", "0x" + "ab" * 32, 0, [], (), [97, 98],
                array.array("B", b"abc"), {}, "\x00", "é"]
    if k == "string":
        return ["", "a", b"", b"abc", bytearray(b"a"), None, 1, ["a"], "\ud800", "ok\udc80", gen.MyStr("x"), 1.0, True, collections.UserString("abc"), "\udfff", "a\ud83d", "\udc00\ud800",
                "0x", "0xabcd", b"\xff", b"\xc3\xa9", memoryview(b"abc"), [], (), ["a", "b"], {}, Decimal(1), list("abc")]
    raise ValueError(k)


def plant(g, t, v):
    """v with one random position replaced by something that may not fit, or a sequence
    made too long, too short or into another container."""
    r = g.r
    k = t.kind
    if k in ("tuple", "array"):
        v = list(v)
        x = r.random()
        if v and x < 0.7:
            i = r.randrange(len(v))
            v[i] = plant(g, t.items[i] if k == "tuple" else t.item, v[i])
            return r.choice([list, tuple, tuple])(v)
        c = r.randrange(12)
        if c == 0 and v:
            v.pop()
        elif c == 1:
            v.append(v[0] if v else 0)
        elif c == 2:
            v = v + v
        elif c == 3:
            return iter(v)
        elif c == 4:
            return {i: x for i, x in enumerate(v)}
        elif c == 5:
            return r.choice([None, "", "ab", b"ab", 0, 1.5, True, Obj(), set()])
        elif c == 6:
            return (x for x in v)
        elif c == 7:
            return dict.fromkeys(range(len(v))).keys()
        elif c == 8:
            return [v]
        elif c == 9:
            return v[0] if v else None
        elif c == 10:
            return "a" * len(v)
        else:
            return bytes(len(v))
        return r.choice([list, tuple, gen.UserSeq, collections.deque, gen.MySeq])(v)
    if k != "custom" and r.random() < 0.85:
        return r.choice(near_misses(g, t))
    return r.choice(fixed_zoo())


def long_values(g, share):
    """Long values of simple types, good, or with one fault at a chosen place."""
    r = g.r
    mined = g.mined.lengths(70000)
    for n in share(sorted(set(mined + [90, 1000, 4096, 10000, 65535, 65537, 70001]))):
        if n < 2:
            continue
        for p in {n - 1, r.randrange(n), max(0, n - 1 - r.randrange(40))}:
            yield gen.STR, "y" * p + r.choice(["\ud800", "\udfff", "\udc80"]) + "z" * (n - 1 - p)
        yield gen.STR, "\u00e9" * n
        if n > 3000 and r.random() < 0.7:
            continue
        for s, ok, bad in (("uint8", 1, [256, True, -1, None]), ("bool", True, [1, None]), ("string", "a", [b"a", "\ud800", None]), ("bytes", b"", ["", 5]),
                           ("bytes4", b"ab", [b"abcde", "ab"]), ("uint16[2]", [1, 2], [[1], [1, 65536], 5]), ("(uint8,string)", (1, "s"), [(1,), (256, "s"), None])):
            if n > 300 and r.random() < 0.6:
                continue
            t = R.tparse(s)
            p = r.choice([n - 1, n - 1, r.randrange(n), 0])
            xs = [ok] * n
            xs[p] = r.choice(bad)
            yield R.mk_array(t, None), xs
            yield R.mk_array(t, None), g._seqform([ok] * n, 1.0)
            yield R.mk_array(t, n), g._seqform(xs, 0.5)
            yield R.mk_array(t, n), g._seqform([ok] * n, 1.0)
            if n < 200:
                yield R.mk_tuple([t] * n), g._seqform(xs, 0.5)
                yield R.mk_tuple([t] * n), g._seqform([ok] * n, 1.0)


def plain(v, depth=0):
    """Comparable snapshot of a value (identity for opaque objects)."""
    if depth > 6:
        return ("deep", id(v))
    if isinstance(v, (list, tuple, collections.deque, collections.UserList)):
        return (type(v).__name__, id(v), tuple(plain(x, depth + 1) for x in v))
    if isinstance(v, bytearray):
        return ("bytearray", id(v), bytes(v))
    if isinstance(v, dict):
        return ("dict", id(v), tuple((plain(a, depth + 1), plain(b, depth + 1)) for a, b in v.items()))
    if isinstance(v, (set, frozenset)):
        return ("set", id(v), len(v))
    if isinstance(v, Decimal):
        return ("dec", v.as_tuple())
    if isinstance(v, (int, str, bytes, float)) or v is None:
        return (type(v).__name__, v if v == v else "nan")
    return (type(v).__name__, id(v))
