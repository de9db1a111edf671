"""C04: payloads the reference decoder rejects must be rejected, with an exception class
among the defects the reference found; no undocumented exception for any payload."""
import itertools

from .. import gen, refabi as R
from ..api import decode, dec_expected, DEC_DOC
from . import c03

QUICK_S, THOROUGH_S = 28, 700
RULE = ("a case is (type list, payload): every truncation, every corrupted padding byte, every word replaced by "
        "extreme values, single-defect injections at every offset and length word, mutants, and all short payloads "
        "over a word alphabet; judged when the reference rejects, and for undocumented exceptions always. "
        "Non-trivial: rejected by the reference; distinct by (types, payload).")
NEED = {"large_faults": 200, "rejected": 5000, "defect_S": 500, "defect_P": 500, "defect_X": 500, "defect_U": 10}
ASSUMPTIONS = ["payloads whose reference decoding exceeds the step budget are only checked for undocumented exceptions"]


def judge(ctx, ts, data, kind):
    names = gen.strs(ts)
    o = ctx.call(decode, gen.tform(ctx.rng, names), gen.dform(ctx.rng, data))
    ctx.ev("evaluations")
    ctx.ev(kind)
    if not o.ok and not isinstance(o.e, DEC_DOC):
        ctx.violate("decode raised an undocumented exception", kind=kind, types=names, data=bytes(data).hex(), got=o.brief())
        return
    try:
        want, defects = R.dec(ts, data)
    except R.Budget:
        ctx.ev("skipped")
        return
    if want is None:
        ctx.ev("rejected")
        for d in defects:
            ctx.ev("defect_" + d)
        ctx.mark(names, bytes(data))
        if o.ok:
            ctx.violate("a malformed payload is accepted", kind=kind, types=names, data=bytes(data).hex(), got=o.v, defects=sorted(defects))
        elif not isinstance(o.e, dec_expected(defects)):
            ctx.violate("a malformed payload is rejected for a defect it does not have", kind=kind, types=names,
                        data=bytes(data).hex(), got=o.brief(), defects=sorted(defects))
    elif not o.ok:
        ctx.violate("a well-formed payload is rejected", kind=kind, types=names, data=bytes(data).hex(), got=o.brief(), want=want)


def systematic(ctx, ts, data, dense):
    """Single faults everywhere in one payload."""
    g, r = ctx.g, ctx.rng
    n = len(data)
    cuts = range(n) if dense or n <= 96 else sorted(set(r.sample(range(n), min(n, 24))) | {n - 1, n - 31, n - 32, n - 33})
    for c in cuts:
        judge(ctx, ts, data[: max(c, 0)], "truncations")
    flips = range(n) if dense else r.sample(range(n), min(n, 24))
    for i in flips:
        b = bytearray(data)
        b[i] ^= r.choice([1, 2, 0x80, 0xFF, 1 << r.randrange(8)])
        judge(ctx, ts, bytes(b), "byte_faults")
    ws = range(0, n - 31, 32) if dense else [32 * x for x in r.sample(range(n // 32), min(n // 32, 4))]
    for i in ws:
        old = int.from_bytes(data[i : i + 32], "big")
        near = [old + d for d in (-64, -33, -32, -31, -1, 1, 31, 32, 33, 64)]
        ends = [n, n - 1, n + 1, n - i, n - i - 1, n - 31, n - 32, n - 33, n - 64]
        ws2 = gen.WORDS + near + ends if dense else r.sample(gen.WORDS, 5) + r.sample(near, 3) + r.sample(ends, 3)
        for w in ws2:
            judge(ctx, ts, data[:i] + R._word(w) + data[i + 32 :], "word_faults")


FIXTURES = [
    ("(uint8,(uint16,(string,int24)))", (1, (2, ("abc", -3)))),
    ("(uint256,(uint256,uint256,uint256),string)", (1, (2, 3, 4), "tail")),
    ("((uint8[2][3],bytes),bool)", ((((1, 2), (3, 4), (5, 6)), b"xyz"), True)),
    ("(bytes,uint8[3],string)", (b"ab", (1, 2, 3), "q" * 33)),
    ("(string,string)[2]", (("a", "b"), ("c", "d"))),
    ("(uint8,bytes)[]", ((1, b"x"), (2, b"y" * 40))),
    ("bytes[][]", ((b"a", b""), (), (b"zz",))),
    ("string[2][]", (("a", "bb"), ("ccc", ""))),
    ("uint8[2][][3]", (((1, 2),), (), ((3, 4), (5, 6)))),
    ("((bool,address)[2],bytes)", (((True, "0x" + "11" * 20), (False, "0x" + "22" * 20)), b"k" * 31)),
    ("(fixed128x18,ufixed8x1,string)", (R.Decimal("-1.5"), R.Decimal("25.5"), "é")),
    ("(((((string)))))", ((((("deep",),),),),)),
    ("(bytes5[2],int40,bytes)[1]", (((b"12345", b"67"), -7, b""),)),
    ("(uint8[2],(string,uint8[2][2]),bytes)", ((1, 2), ("x", ((1, 2), (3, 4))), b"y")),
    ("string[]", ("a", "b" * 32, "c" * 33)),
    ("(int8,int256,bool,bytes1,bytes32,address)", (-1, -2, True, b"a", b"b" * 32, "0x" + "ab" * 20)),
    ("(int8,int256,bool,bytes1,bytes32,address)[]", ((-1, -2, True, b"a", b"b" * 32, "0x" + "ab" * 20),) * 2),
    ("(string,(int16[2],bool[])[2],bytes4)", ("t", (((-1, 2), (True,)), ((3, -4), ())), b"four")),
]


def bad_utf8(ctx):
    seqs = [b"\x80", b"\xc0\x80", b"\xc3", b"\xe0\x80\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xff", b"\xfe", b"\xf8\x88\x80\x80\x80",
            b"a\xe2\x82", b"\xe2\x82a", b"\xc1\xbf", b"\xf0\x80\x80\x80"]
    BT = {"string": "bytes", "string[]": "bytes[]", "(uint8,string)": "(uint8,bytes)", "(string,string)[1]": "(bytes,bytes)[1]", "string[2][]": "bytes[2][]"}
    for st, bt in BT.items():
        for s in seqs:
            for pad in (b"", b"x" * 30, b"y" * 31, b"z" * 40):
                c = pad + s
                v = {"string": c, "string[]": [b"ok", c], "(uint8,string)": (1, c), "(string,string)[1]": [(b"ok", c)], "string[2][]": [[c, b"ok"]]}[st]
                yield [R.tparse(st)], R.enc_seq([R.tparse(bt)], [v])


def run(ctx):
    g, r = ctx.g, ctx.rng
    for s, v in gen.share(FIXTURES, ctx):
        t = R.tparse(s)
        for data in (R.enc_seq([t], [v]), gen.Layout(g, gap=[0, 3], share_p=0).build([t], [v])):
            systematic(ctx, [t], data, dense=True)
            ts = [R.basic("uint8"), t, R.basic("string")]
            systematic(ctx, ts, R.enc_seq(ts, [1, v, "z"]), dense=ctx.thorough)
        ctx.sample("dense faults", s)
    for ts, data in gen.share(bad_utf8(ctx), ctx):
        judge(ctx, ts, data, "bad_utf8")
    for ts, data in gen.large_payload_faults(ctx, g):
        judge(ctx, ts, data, "large_faults")
    # every basic type: every single padding byte, alone and nested
    for s in gen.share(gen.BASIC_SAMPLE, ctx):
        t = R.basic(s)
        es = g.edges(t)
        for v in {repr(x): x for x in (es[0], es[-1], es[len(es) // 2], g.rval(t))}.values():
            for ts, vs, off in (([t], [v], 0), ([R.mk_array(t, None)], [[v]], 64), ([gen.STR, R.mk_tuple([t, t])], ["s", (v, v)], 32),
                                ([R.mk_array(R.mk_tuple([gen.STR, t]), 1)], [[("s", v)]], 96)):
                data = R.enc_seq(ts, vs)
                for i in range(off, min(off + 64, len(data))):
                    for x in (1, 0x80, 0xFF) if off == 0 or ctx.thorough else (r.choice([1, 2, 4, 8, 16, 32, 64, 128]),):
                        b = bytearray(data)
                        b[i] ^= x
                        judge(ctx, ts, bytes(b), "byte_faults")
                for c in range(max(0, len(data) - 40), len(data)) if ctx.thorough else (len(data) - 1, len(data) - 17, len(data) - 32, off, off + 1):
                    judge(ctx, ts, data[: max(0, c)], "truncations")
    # padding of byte strings of every length
    for n in gen.share(list(range(0, 130)) + g.mined.lengths(2000), ctx):
        for st in ("bytes", "string"):
            t = R.basic(st)
            c = b"x" * n if st == "bytes" else "x" * n
            for ts, vs in (([t], [c]), ([R.mk_array(t, None), gen.U8], [[c, c], 1]), ([R.mk_tuple([gen.U8, R.mk_tuple([t])])], [(1, (c,))])):
                data = R.enc_seq(ts, vs)
                for i in range(n % 32, 32) if n % 32 else ():
                    # dirty the last byte string's padding
                    b = bytearray(data)
                    b[len(b) - 32 + i] ^= r.choice([1, 0x80, 0xFF])
                    judge(ctx, ts, bytes(b), "byte_faults")
                judge(ctx, ts, data[:-1], "truncations")
                judge(ctx, ts, data[: len(data) - (-n % 32)], "truncations")
    for ts, data in c03.alphabet(ctx):
        judge(ctx, ts, data, "alphabet")
    # array lengths beyond the data
    for st in gen.share(["uint8[]", "string[]", "(uint8,bytes)[]", "uint256[3][]", "bytes[][]", "bool[]", "(uint8[2],(uint8,uint8))[]"], ctx):
        t = R.tparse(st)
        for n in (0, 1, 2, 5):
            v = [g.rval(t.item) for _ in range(n)]
            for ts, vs, off in (([t], [v], 32), ([gen.U8, t], [1, v], 64), ([R.mk_tuple([t])], [(v,)], 64)):
                data = R.enc_seq(ts, vs)
                for w in gen.WORDS + [n + 1, n + 2, len(data), len(data) // 32]:
                    judge(ctx, ts, data[:off] + R._word(w) + data[off + 32 :], "length_faults")
    ctx.ev("systematic_done")
    n = 0
    prev = b""
    while ctx.more():
        ts, vs = gen.rand_case(g, depth=4)
        if not ts:
            continue
        base = R.enc_seq(ts, vs) if r.random() < 0.7 else gen.random_layout(g).build(ts, vs)
        if n < 3:
            ctx.sample("random base", (gen.strs(ts), base.hex()))
        if len(base) < 3000:
            systematic(ctx, ts, base, dense=len(base) < 200 and r.random() < 0.1)
            for _ in range(4):
                judge(ctx, ts, gen.mutate(g, gen.mutate(g, base, prev), prev), "mutants")
            prev = base
        if n % 3 == 0:
            judge(ctx, ts, r.randbytes(r.choice([0, 1, 31, 32, 33, 64, 96, 200])), "noise")
            judge(ctx, ts, b"".join(R._word(r.choice(gen.WORDS)) for _ in range(r.randint(0, 8))), "noise")
        n += 1
    ctx.ev("random", n)


itertools
