"""Reference model of the contract ABI, written from the specification and from
the documented behaviour of eth-abi, and sharing no code with it.

  gparse(s)          grammar-level parse tree of a type string, or None
  tparse(s)          validated type (T), or None when the string is no ABI type
  enc / penc         standard and packed encoding of a value already in the domain
  canon              the Python value decode must return for it
  faults             why a Python value is outside the domain of a type
  dec                collect-all decoder: value, or the set of defects found
"""
from collections import UserString  # noqa: F401
import collections.abc as cabc
import decimal
from decimal import Decimal

# --------------------------------------------------------------------------
# type strings
# --------------------------------------------------------------------------
ALPHA = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIG = frozenset("0123456789")


class G:
    """Grammar-level tree: base+sub or components, and array dimensions."""

    __slots__ = ("base", "sub", "comps", "dims", "s")

    def __init__(self, base, sub, comps, dims, s):
        self.base, self.sub, self.comps, self.dims, self.s = base, sub, comps, dims, s


def _digits(s, i):
    """Maximal run of digits at i, if it starts with 1-9; returns end or None."""
    j = i
    n = len(s)
    if j >= n or s[j] not in "123456789":
        return None
    while j < n and s[j] in DIG:
        j += 1
    return j


def _gtype(s, i):
    start = i
    n = len(s)
    if i < n and s[i] == "(":
        comps = []
        i += 1
        while True:
            r = _gtype(s, i)
            if r is None:
                return None
            comps.append(r[0])
            i = r[1]
            if i < n and s[i] == ",":
                i += 1
                continue
            if i < n and s[i] == ")":
                i += 1
                break
            return None
        base = sub = None
        comps = tuple(comps)
    else:
        j = i
        while j < n and s[j] in ALPHA:
            j += 1
        if j == i:
            return None
        base, comps, sub = s[i:j], None, None
        i = j
        e = _digits(s, i)
        if e is not None:
            sub = int(s[i:e])
            i = e
            if i < n and s[i] == "x":
                e2 = _digits(s, i + 1)
                if e2 is not None:
                    sub = (sub, int(s[i + 1 : e2]))
                    i = e2
    dims = []
    while i < n and s[i] == "[":
        if i + 1 < n and s[i + 1] == "]":
            dims.append(None)
            i += 2
            continue
        e = _digits(s, i + 1)
        if e is None or e >= n or s[e] != "]":
            break
        dims.append(int(s[i + 1 : e]))
        i = e + 1
    return G(base, sub, comps, tuple(dims), s[start:i]), i


def gparse(s):
    r = _gtype(s, 0)
    if r is None or r[1] != len(s):
        return None
    return r[0]


ALIASES = {
    "int": "int256",
    "uint": "uint256",
    "fixed": "fixed128x18",
    "ufixed": "ufixed128x18",
    "function": "bytes24",
    "byte": "bytes1",
}


def normalize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        j = i
        while j < n and (s[j].isalnum() or s[j] == "_"):
            j += 1
        if j > i:
            w = s[i:j]
            out.append(ALIASES.get(w, w))
            i = j
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


class T:
    """A valid ABI type. kind: uint int ufixed fixed bytesn bytes string address
    bool tuple array."""

    __slots__ = ("kind", "m", "n", "items", "item", "size", "s", "canon_s", "dyn", "hs")

    def __repr__(self):
        return f"T({self.s})"


def _mk(kind, s, canon_s, m=None, n=None):
    t = T()
    t.kind, t.m, t.n, t.s, t.canon_s = kind, m, n, s, canon_s
    t.items = t.item = t.size = None
    t.dyn = kind in ("bytes", "string")
    t.hs = 32
    return t


class Custom:
    """Model of a custom coder: subclass and give it enc, dec, check, canon and rval."""

    dyn = False
    width = 32

    def check(self, v):
        """Fault codes of v ('C': the coder raises what self.exc says)."""
        return ()

    def canon(self, v):
        return v

    def dec(self, d, p):
        raise NotImplementedError

    def enc(self, v):
        raise NotImplementedError


def mk_custom(s, c):
    t = _mk("custom", s, s, m=c)
    t.dyn = c.dyn
    t.hs = 32 if c.dyn else c.width
    return t


def mk_tuple(items):
    t = T()
    t.kind, t.m, t.n, t.item, t.size = "tuple", None, None, None, None
    t.items = tuple(items)
    t.s = "(" + ",".join(i.s for i in t.items) + ")"
    t.canon_s = "(" + ",".join(i.canon_s for i in t.items) + ")"
    t.dyn = any(i.dyn for i in t.items)
    t.hs = sum(32 if i.dyn else i.hs for i in t.items)  # size of its contents' head
    return t


def mk_array(item, size):
    t = T()
    t.kind, t.m, t.n, t.items = "array", None, None, None
    t.item, t.size = item, size
    d = "[]" if size is None else f"[{size}]"
    t.s = item.s + d
    t.canon_s = item.canon_s + d
    t.dyn = size is None or item.dyn
    t.hs = 32 if t.dyn else size * item.hs
    return t


_bcache = {}


def basic(s):
    """Valid basic type from its string, aliases included, or None."""
    if s in _bcache:
        return _bcache[s]
    g = gparse(s)
    r = None
    if g is not None and g.comps is None and not g.dims:
        c = ALIASES.get(s, s)
        g = gparse(c)
        b, sub = g.base, g.sub
        if b in ("uint", "int"):
            if type(sub) is int and 8 <= sub <= 256 and sub % 8 == 0:
                r = _mk(b, s, c, m=sub)
        elif b in ("ufixed", "fixed"):
            if type(sub) is tuple:
                m, n = sub
                if 8 <= m <= 256 and m % 8 == 0 and 1 <= n <= 80:
                    r = _mk(b, s, c, m=m, n=n)
        elif b == "bytes":
            if sub is None:
                r = _mk("bytes", s, c)
            elif type(sub) is int and 1 <= sub <= 32:
                r = _mk("bytesn", s, c, n=sub)
        elif b in ("string", "address", "bool"):
            if sub is None:
                r = _mk(b, s, c)
    if len(_bcache) < 20000:
        _bcache[s] = r
    return r


def _from_g(g):
    if g.comps is not None:
        items = []
        for c in g.comps:
            t = _from_g(c)
            if t is None:
                return None
            items.append(t)
        t = mk_tuple(items)
    else:
        bs = g.base
        if g.sub is not None:
            bs += str(g.sub) if type(g.sub) is int else f"{g.sub[0]}x{g.sub[1]}"
        t = basic(bs)
        if t is None:
            return None
    for d in g.dims:
        t = mk_array(t, d)
    return t


def tparse(s):
    g = gparse(s)
    return None if g is None else _from_g(g)


def g_is_dynamic(g):
    """Dynamism of a grammar tree as printed (bases beyond the ABI are static)."""
    if any(d is None for d in g.dims):
        return True
    if g.comps is not None:
        return any(g_is_dynamic(c) for c in g.comps)
    return g.base == "string" or (g.base == "bytes" and g.sub is None)


# --------------------------------------------------------------------------
# exact decimal <-> integer
# --------------------------------------------------------------------------
class TooPrecise(Exception):
    pass


def dec_to_scaled(v, n):
    """Integer v * 10**n for an int or finite Decimal; TooPrecise if not integral.
    Exact: works on the digits, no decimal context is involved."""
    if isinstance(v, int):
        return int(v) * 10**n
    sign, digits, exp = v.as_tuple()
    digits = list(digits)
    while digits and digits[-1] == 0:
        digits.pop()
        exp += 1
    if not digits:
        return 0
    if exp + n < 0:
        raise TooPrecise
    if exp + n + len(digits) > 5000:
        return (-1 if sign else 1) * 10**5000  # far out of any range
    k = 0
    for d in digits:
        k = k * 10 + d
    k *= 10 ** (exp + n)
    return -k if sign else k


def scaled_to_dec(i, n):
    """Exact Decimal i / 10**n, independent of any context."""
    t = Decimal(i).as_tuple()
    return Decimal((t.sign, t.digits, -n))


def trunc_scaled(v, n):
    """v * 10**n truncated toward zero (only used to recognise known finding K1)."""
    sign, digits, exp = v.as_tuple()
    e = exp + n
    k = 0
    keep = digits if e >= 0 else digits[: max(0, len(digits) + e)]
    for d in keep:
        k = k * 10 + d
    if e > 0:
        k *= 10 ** min(e, 5000)
    return -k if sign else k


# --------------------------------------------------------------------------
# values
# --------------------------------------------------------------------------
HEX = frozenset("0123456789abcdefABCDEF")


def addr_bytes(v):
    if isinstance(v, str):
        h = v[2:] if v[:2] in ("0x", "0X") else v
        return bytes.fromhex(h)
    return bytes(v)


def int_range(t):
    if t.kind in ("uint", "ufixed"):
        return 0, 2**t.m - 1
    return -(2 ** (t.m - 1)), 2 ** (t.m - 1) - 1


def is_seq(v):
    return isinstance(v, cabc.Sequence) and not isinstance(v, (str, bytes, bytearray))


class Unspecified(Exception):
    """The properties say nothing about this value (e.g. bool for a fixed type)."""


# fault classes: T wrong python type, B out of bounds, I illegal, E any EncodingError
def faults(t, v, acc=None, top=True):
    """Set of reasons why v is not a value of t (empty set: it is)."""
    if acc is None:
        acc = set()
    k = t.kind
    if k in ("uint", "int"):
        if isinstance(v, bool) or not isinstance(v, int):
            acc.add("T")
        else:
            lo, hi = int_range(t)
            if not lo <= v <= hi:
                acc.add("B")
    elif k in ("ufixed", "fixed"):
        if isinstance(v, bool):
            raise Unspecified
        if not isinstance(v, (int, Decimal)):
            acc.add("T")
        elif isinstance(v, Decimal) and not v.is_finite():
            acc.add("I")
        else:
            lo, hi = int_range(t)
            try:
                s = dec_to_scaled(v, t.n)
            except TooPrecise:
                acc.add("I")
                # v lies strictly between tr and the next integer away from zero
                tr = trunc_scaled(v, t.n)
                if v > 0:
                    oob = tr >= hi
                else:
                    oob = k == "ufixed" or tr <= lo
                if oob:
                    acc.add("B")
                elif v < 0:
                    acc.add("K1")
            else:
                if not lo <= s <= hi:
                    acc.add("B")
    elif k == "bool":
        if not isinstance(v, bool):
            acc.add("T")
    elif k == "address":
        if isinstance(v, str):
            h = v[2:] if v[:2] in ("0x", "0X") else v
            if not (len(h) == 40 and all(c in HEX for c in h)):
                acc.add("E")
        elif isinstance(v, (bytes, bytearray)):
            if len(v) != 20:
                if len(v) in (40, 42):
                    raise Unspecified
                acc.add("E")
        else:
            acc.add("T")
    elif k == "bytesn":
        if not isinstance(v, (bytes, bytearray)):
            acc.add("T")
        elif len(v) > t.n:
            acc.add("B")
    elif k == "bytes":
        if not isinstance(v, (bytes, bytearray)):
            acc.add("T")
    elif k == "string":
        if not isinstance(v, str):
            acc.add("T")
        else:
            try:
                v.encode("utf-8")
            except UnicodeEncodeError:
                acc.add("I")
    elif k == "custom":
        acc.update(t.m.check(v))
    elif k == "tuple" or k == "array":
        if isinstance(v, memoryview):
            raise Unspecified
        if not is_seq(v):
            acc.add("T")
            return acc
        want = len(t.items) if k == "tuple" else t.size
        if want is not None and len(v) != want:
            acc.add("B")
        if k == "tuple":
            for c, x in zip(t.items, v):
                faults(c, x, acc)
        else:
            for x in v:
                faults(t.item, x, acc)
    return acc


def _word(i):
    return (i % 2**256).to_bytes(32, "big")


def scaled(t, v):
    return int(v) if t.kind in ("uint", "int") else dec_to_scaled(v, t.n)


def _k1(t, v, width):
    """What known finding K1 yields: truncated toward zero, filled as a negative."""
    tr = trunc_scaled(v, t.n)
    if tr == 0:
        return b"\xff" * (width - 1) + b"\x00"
    return (tr % 2 ** (8 * width)).to_bytes(width, "big")


def enc(t, v, k1=False):
    """Standard encoding of a value in the domain of t (k1: tolerate the known finding)."""
    k = t.kind
    if k in ("uint", "int", "ufixed", "fixed"):
        try:
            return _word(scaled(t, v))
        except TooPrecise:
            if not k1:
                raise
            return _k1(t, v, 32)
    if k == "bool":
        return _word(1 if v else 0)
    if k == "address":
        return bytes(12) + addr_bytes(v)
    if k == "bytesn":
        return bytes(v) + bytes(32 - len(v))
    if k == "bytes" or k == "string":
        b = v.encode("utf-8") if k == "string" else bytes(v)
        return _word(len(b)) + b + bytes(-len(b) % 32)
    if k == "tuple":
        return enc_seq(t.items, v, k1)
    if k == "custom":
        return t.m.enc(v, k1=True) if k1 else t.m.enc(v)
    body = enc_seq((t.item,) * len(v), v, k1)
    return _word(len(v)) + body if t.size is None else body


def enc_seq(ts, vs, k1=False):
    heads, tails = [], []
    hl = sum(32 if t.dyn else t.hs for t in ts)
    off = hl
    for t, v in zip(ts, vs):
        b = enc(t, v, k1)
        if t.dyn:
            heads.append(_word(off))
            tails.append(b)
            off += len(b)
        else:
            heads.append(b)
    return b"".join(heads) + b"".join(tails)


def penc(t, v, k1=False):
    k = t.kind
    if k in ("uint", "int", "ufixed", "fixed"):
        try:
            return (scaled(t, v) % 2**t.m).to_bytes(t.m // 8, "big")
        except TooPrecise:
            if not k1:
                raise
            return _k1(t, v, t.m // 8)
    if k == "bool":
        return b"\x01" if v else b"\x00"
    if k == "address":
        return addr_bytes(v)
    if k == "bytesn":
        return bytes(v) + bytes(t.n - len(v))
    if k == "bytes":
        return bytes(v)
    if k == "string":
        return v.encode("utf-8")
    if k == "tuple":
        return b"".join(penc(c, x, k1) for c, x in zip(t.items, v))
    if k == "custom":
        return t.m.enc(v)
    return b"".join(penc(t.item, x, k1) for x in v)


def canon(t, v):
    """What decode returns for an encoding of v."""
    k = t.kind
    if k in ("uint", "int"):
        return int(v)
    if k in ("ufixed", "fixed"):
        return scaled_to_dec(dec_to_scaled(v, t.n), t.n)
    if k == "bool":
        return bool(v)
    if k == "address":
        return "0x" + addr_bytes(v).hex()
    if k == "bytesn":
        return bytes(v) + bytes(t.n - len(v))
    if k == "bytes":
        return bytes(v)
    if k == "string":
        return str.__str__(v) if type(v) is str else "".join(v)
    if k == "tuple":
        return tuple(canon(c, x) for c, x in zip(t.items, v))
    if k == "custom":
        return t.m.canon(v)
    return tuple(canon(t.item, x) for x in v)


def same(a, b):
    """Equal values of exactly equal Python types, recursively (Decimals by value)."""
    if type(a) is not type(b):
        return False
    if type(a) is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is Decimal:
        if not (a.is_finite() and b.is_finite()):
            return False
        return dec_key(a) == dec_key(b)
    return a == b


def dec_key(d):
    s, dg, e = d.as_tuple()
    dg = list(dg)
    while dg and dg[-1] == 0:
        dg.pop()
        e += 1
    i = 0
    while i < len(dg) and dg[i] == 0:
        i += 1
    dg = dg[i:]
    return (s, tuple(dg), e) if dg else (0, (), 0)


# --------------------------------------------------------------------------
# collect-all decoder
# --------------------------------------------------------------------------
class Budget(Exception):
    """The reference gave up: too many steps (shared tails can blow up)."""


BAD = object()


class Dec:
    """Decodes data and collects every defect class found anywhere:
    S insufficient data, P padding, X pointer, U not UTF-8."""

    def __init__(self, data, strict=True, budget=20000, errors="strict"):
        self.d = bytes(data)
        self.strict = strict
        self.defects = set()
        self.steps = 0
        self.budget = budget
        self.errors = errors

    def word(self, p):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget
        if p + 32 > len(self.d):
            self.defects.add("S")
            return None
        return self.d[p : p + 32]

    def seq(self, ts, p):
        """Members ts laid out from p, offsets relative to p. Returns (values, end)."""
        base = p
        head = sum(32 if t.dyn else t.hs for t in ts)
        vals = []
        ok = True
        for t in ts:
            if t.dyn:
                w = self.word(p)
                p += 32
                if w is None:
                    ok = False
                    break
                tgt = base + int.from_bytes(w, "big")
                if tgt < base + head or tgt >= len(self.d):
                    self.defects.add("X")
                    ok = False
                    continue
                v = self.value(t, tgt)
            else:
                v = self.value(t, p)
                p += t.hs
            if v is BAD:
                ok = False
            else:
                vals.append(v)
        return tuple(vals) if ok else BAD

    def array(self, item, n, p):
        base = p
        hs = 32 if item.dyn else item.hs
        head = hs * n
        vals = []
        ok = True
        for _ in range(n):
            if item.dyn:
                w = self.word(p)
                if w is None:
                    return BAD
                tgt = base + int.from_bytes(w, "big")
                if tgt < base + head or tgt >= len(self.d):
                    self.defects.add("X")
                    ok = False
                    p += 32
                    continue
                v = self.value(item, tgt)
            else:
                if p >= len(self.d):
                    self.defects.add("S")
                    return BAD
                v = self.value(item, p)
            p += hs
            if v is BAD:
                ok = False
            else:
                vals.append(v)
        return tuple(vals) if ok else BAD

    def value(self, t, p):
        k = t.kind
        if k == "tuple":
            return self.seq(t.items, p)
        if k == "array":
            if t.size is not None:
                return self.array(t.item, t.size, p)
            w = self.word(p)
            if w is None:
                return BAD
            return self.array(t.item, int.from_bytes(w, "big"), p + 32)
        if k in ("bytes", "string"):
            w = self.word(p)
            if w is None:
                return BAD
            n = int.from_bytes(w, "big")
            if p + 32 + n > len(self.d):
                self.defects.add("S")
                return BAD
            c = self.d[p + 32 : p + 32 + n]
            bad = False
            if self.strict:
                pad = -n % 32
                q = p + 32 + n
                if q + pad > len(self.d):
                    self.defects.add("S")
                    bad = True
                elif any(self.d[q : q + pad]):
                    self.defects.add("P")
                    bad = True
            if k == "string":
                try:
                    c = c.decode("utf-8", self.errors)
                except UnicodeDecodeError:
                    self.defects.add("U")
                    bad = True
            return BAD if bad else c
        if k == "custom":
            return t.m.dec(self, p)
        w = self.word(p)
        if w is None:
            return BAD
        if k == "bytesn":
            if any(w[t.n :]):
                self.defects.add("P")
                return BAD
            return w[: t.n]
        i = int.from_bytes(w, "big")
        if k == "bool":
            if i > 1:
                self.defects.add("P")
                return BAD
            return i == 1
        if k == "address":
            if i >> 160:
                self.defects.add("P")
                return BAD
            return "0x" + w[12:].hex()
        if k in ("int", "fixed") and i >> 255:
            i -= 2**256
        lo, hi = int_range(t)
        if not lo <= i <= hi:
            self.defects.add("P")
            return BAD
        return i if k in ("uint", "int") else scaled_to_dec(i, t.n)


def dec(ts, data, strict=True, budget=None, errors="strict"):
    """Returns (values, None) or (None, defects); raises Budget."""
    d = Dec(data, strict, budget or max(20000, len(data) // 8), errors)
    v = d.seq(ts, 0)
    if v is BAD:
        assert d.defects
        return None, frozenset(d.defects)
    assert not d.defects
    return v, None


decimal  # re-exported for callers
