"""Reference model of a coder registry: an ordered list of (predicate, value, label)
per side, consulted afresh for every lookup, with no memory of earlier lookups."""
import copy

from . import refabi as R
from .api import X
from eth_abi.decoding import BaseDecoder
from eth_abi.encoding import BaseEncoder
from eth_abi import decoding as D, encoding as E
from eth_abi.registry import BaseEquals, Equals, Predicate, has_arrlist, is_base_tuple


# ---- predicates the workload registers, with the model's own idea of a match --------
class Pre(Predicate):
    """A user-defined predicate with value equality."""

    __slots__ = ("prefix",)

    def __init__(self, prefix):
        self.prefix = prefix

    def __call__(self, s):
        return s.startswith(self.prefix)

    def __str__(self):
        return f"starts with {self.prefix!r}"


class Fn:
    """A predicate with identity equality; some return other truth values than bool."""

    def __init__(self, names):
        self.names = frozenset(names)

    def __call__(self, s):
        return s in self.names

    def __repr__(self):
        return f"<Fn {sorted(self.names)}>"


def matches(p, s):
    """Model of what each predicate means; never calls the library's own predicates."""
    if isinstance(p, Equals):
        return p.value == s
    if isinstance(p, BaseEquals):
        g = R.gparse(s)
        if g is None or g.comps is not None or g.dims or g.base != p.base:
            return False
        return p.with_sub is None or p.with_sub == (g.sub is not None)
    if p is has_arrlist:
        g = R.gparse(s)
        return g is not None and bool(g.dims)
    if p is is_base_tuple:
        g = R.gparse(s)
        return g is not None and g.comps is not None and not g.dims
    return bool(p(s))


def pkey(p):
    """Equality of predicates, as documented: predicate objects by value, functions by identity."""
    if isinstance(p, Equals):
        return ("Equals", p.value)
    if isinstance(p, BaseEquals):
        return ("BaseEquals", p.base, p.with_sub)
    if isinstance(p, Pre):
        return ("Pre", p.prefix)
    return ("id", id(p))


# ---- values: tagged coders ------------------------------------------------------------
class Tag(R.Custom):
    """A coder that ignores its value and writes its own tag; reading returns tag and word."""

    def __init__(self, n):
        self.n = n

    def enc(self, v):
        return R._word(self.n)

    def dec(self, d, p):
        w = d.word(p)
        return R.BAD if w is None else ("tag", self.n, w)

    def canon(self, v):
        return ("tag", self.n, R._word(self.n))

    def rval(self, g):
        return None


def _read(stream, n):
    w = stream.read(32)
    if len(w) < 32:
        raise X.InsufficientDataBytes("tag word")
    return ("tag", n, w)


def tag_encoder(n, how):
    if how == "callable":
        return lambda value: R._word(n)

    class TagEncoder(BaseEncoder):
        def validate_value(self, value):
            pass

        def encode(self, value):
            return R._word(n)

        @classmethod
        def from_type_str(cls, type_str, registry):
            return cls()

    return TagEncoder if how == "class" else TagEncoder()


def tag_decoder(n, how):
    if how == "callable":
        return lambda stream: _read(stream, n)

    class TagDecoder(BaseDecoder):
        def decode(self, stream):
            return _read(stream, n)

        @classmethod
        def from_type_str(cls, type_str, registry):
            return cls()

    return TagDecoder if how == "class" else TagDecoder()


class Builtin:
    def __init__(self, kind):
        self.kind = kind


FAMILIES = [
    (lambda: BaseEquals("uint"), "uint", "uint", E.UnsignedIntegerEncoder, D.UnsignedIntegerDecoder),
    (lambda: BaseEquals("int"), "int", "int", E.SignedIntegerEncoder, D.SignedIntegerDecoder),
    (lambda: BaseEquals("address"), "address", "address", E.AddressEncoder, D.AddressDecoder),
    (lambda: BaseEquals("bool"), "bool", "bool", E.BooleanEncoder, D.BooleanDecoder),
    (lambda: BaseEquals("ufixed"), "ufixed", "ufixed", E.UnsignedFixedEncoder, D.UnsignedFixedDecoder),
    (lambda: BaseEquals("fixed"), "fixed", "fixed", E.SignedFixedEncoder, D.SignedFixedDecoder),
    (lambda: BaseEquals("bytes", with_sub=True), "bytes<M>", "bytesn", E.BytesEncoder, D.BytesDecoder),
    (lambda: BaseEquals("bytes", with_sub=False), "bytes", "bytes", E.ByteStringEncoder, D.ByteStringDecoder),
    (lambda: BaseEquals("function"), "function", "bytesn", E.BytesEncoder, D.BytesDecoder),
    (lambda: BaseEquals("byte", with_sub=False), "byte", "bytesn", E.BytesEncoder, D.BytesDecoder),
    (lambda: BaseEquals("string"), "string", "string", E.TextStringEncoder, D.StringDecoder),
    (lambda: has_arrlist, "has_arrlist", "array", E.BaseArrayEncoder, D.BaseArrayDecoder),
    (lambda: is_base_tuple, "is_base_tuple", "tuple", E.TupleEncoder, D.TupleDecoder),
]


class Side:
    """One side (encoders or decoders) of a registry."""

    def __init__(self):
        self.entries = []  # (predicate, model value, label)

    def copy(self):
        c = Side()
        c.entries = list(self.entries)
        return c

    def can_add(self, pred, label):
        return not any(pkey(p) == pkey(pred) or (label is not None and lb == label) for p, _, lb in self.entries)

    def add(self, lookup, value, label):
        """True if the registration must be accepted (and records it)."""
        if isinstance(lookup, str):
            pred, label = Equals(lookup), lookup if label is None else label
        else:
            pred = lookup
        if not self.can_add(pred, label):
            return False
        self.entries.append((pred, value, label))
        return True

    def would_add(self, lookup, label):
        if isinstance(lookup, str):
            return self.can_add(Equals(lookup), lookup if label is None else label)
        return self.can_add(lookup, label)

    def find_removal(self, key):
        for i, (p, _, lb) in enumerate(self.entries):
            if lb == key if isinstance(key, str) else pkey(p) == pkey(key):
                return i
        return None

    def remove(self, key):
        i = self.find_removal(key)
        if i is None:
            return False
        del self.entries[i]
        return True

    def resolve(self, s):
        """The T this side must use for type string s, or the set of exceptions allowed."""
        hits = [v for p, v, _ in self.entries if matches(p, s)]
        if len(hits) > 1:
            return {X.MultipleEntriesFound}
        if not hits:
            return {X.ParseError} if R.gparse(s) is None else {X.NoEntriesFound}
        v = hits[0]
        if isinstance(v, R.Custom):
            return R.mk_custom(s, v)
        n = R.normalize(s)
        g = R.gparse(n)
        if g is None:
            return {X.ParseError}
        if v.kind == "array":
            if not g.dims:
                return {ValueError}
            d = g.dims[-1]
            inner = n[: n.rindex("[")]
            c = self.resolve(inner)
            return c if isinstance(c, set) else R.mk_array(c, d)
        if v.kind == "tuple":
            if g.comps is None or g.dims:
                return {ValueError}
            cs = [self.resolve(c.s) for c in g.comps]
            bad = [c for c in cs if isinstance(c, set)]
            return set().union(*bad) if bad else R.mk_tuple(cs)
        t = R.basic(s)
        if t is None or t.kind != v.kind:
            return {ValueError}  # ABITypeError is one
        return t


class RegModel:
    def __init__(self, builtin=True):
        self.enc, self.dec = Side(), Side()
        if builtin:
            for mk, label, kind, _, _ in FAMILIES:
                p = mk()
                self.enc.add(p, Builtin(kind), label)
                self.dec.add(p, Builtin(kind), label)

    def copy(self):
        m = RegModel(False)
        m.enc, m.dec = self.enc.copy(), self.dec.copy()
        return m


copy
