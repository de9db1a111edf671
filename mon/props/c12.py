"""C12: families of copied registries under interleaved operations, and their reclamation."""
import copy
import gc
import itertools
import weakref

from .. import refabi as R, reghist as H, regmodel as M
from ..api import ABICodec, ABIDecoder, ABIEncoder, default_registry, encode, decode, encode_packed
from eth_abi import decoding as D, encoding as E
from eth_abi.registry import ABIRegistry, BaseEquals, registry_packed

QUICK_S, THOROUGH_S = 26, 500
RULE = ("a history is up to 150 operations spread over a family of up to 6 registries related by copy(), copy.copy and copy.deepcopy; each has "
        "its own model, cloned when it is copied, and every lookup and coding call on any member is judged by that member's model. Families "
        "are then dropped and their registries must be unreachable after a collection. Non-trivial: distinct by (type string, observation "
        "kind, matching registrations, expected verdict).")
NEED = {"orphans": 60, "families": 150, "copies": 400, "lookups": 20000, "coded": 5000, "reclaimed": 400, "strict_calls": 2000, "default_intact": 100}
ASSUMPTIONS = ["custom coders hold no reference to a registry outside the registry's own cycle", "predicates are pure"]

COPIERS = [("copy()", lambda x: x.copy()), ("copy.copy", copy.copy), ("copy.deepcopy", copy.deepcopy)]


class MyRegistry(ABIRegistry):
    """A user's own kind of registry."""


def duplicate(ctx, mem, log):
    name, fn = ctx.rng.choice(COPIERS)
    o = ctx.call(fn, mem.real)
    ctx.ev("evaluations")
    ctx.ev("copies")
    if not o.ok or type(o.v) is not type(mem.real) or o.v is mem.real:
        ctx.violate("copying a registry failed", how=name, got=o.brief(), history=log[-40:])
        return None
    new = H.Member(ctx, o.v, mem.model.copy(), log)
    log.append((mem.name, name, "->", new.name))
    return new


def family(ctx, n):
    g, r = ctx.g, ctx.rng
    tags = itertools.count(1000 + r.randrange(10**6))
    log = []
    if r.random() < 0.2:
        mems = [H.Member(ctx, r.choice([ABIRegistry, MyRegistry])(), M.RegModel(False), log)]
    else:
        mems = [H.Member(ctx, default_registry.copy(), M.RegModel(), log)]
    made = [weakref.ref(mems[0].real)]
    focus = r.sample(H.UNIVERSE, 12)
    for _ in range(n):
        x = r.random()
        mem = r.choice(mems)
        if x < 0.06 and len(mems) < 6:
            if r.random() < 0.5:  # warm caches first
                mem.sweep(r, g, focus)
            new = duplicate(ctx, mem, log)
            if new is None:
                return made
            made.append(weakref.ref(new.real))
            mems.append(new)
            if r.random() < 0.3:  # equal at once
                new.sweep(r, g, focus)
        elif x < 0.35:
            mem.mutate(r, tags)
            if r.random() < 0.3:
                for other in mems:
                    other.sweep(r, g, focus)
        elif x < 0.37 and len(mems) > 2:
            log.append((mem.name, "dropped"))
            mems.remove(mem)
        else:
            mem.look(r.choice(focus) if r.random() < 0.7 else r.choice(H.UNIVERSE), r, g)
    for mem in mems:
        mem.sweep(r, g)
    # labels too: what one member frees or takes, the others still have or lack
    for mem in mems:
        for lb in H.LABELS:
            for side, un in ((mem.model.enc, mem.real.unregister_encoder), (mem.model.dec, mem.real.unregister_decoder)):
                if r.random() < 0.5:
                    log.append((mem.name, un.__name__, lb))
                    mem.expect(ctx.call(un, lb), side.remove(lb), (KeyError,), "unregistration by label", label=lb)
    for mem in mems:
        mem.sweep(r, g, focus)
    ctx.ev("families")
    ctx.sample("family", [x for x in log[:14]])
    return made


class Holder(E.BaseEncoder):
    """A compound custom encoder that looks its part up in the registry it is given and keeps it."""

    registry = None

    def validate_value(self, value):
        self.registry.get_encoder("uint8").validate_value(value)

    def encode(self, value):
        return self.registry.get_encoder("uint8")(value)

    @classmethod
    def from_type_str(cls, type_str, registry):
        return cls(registry=registry)


def strictness(ctx):
    """Shared decoder instances in copies, decoded with different strictness."""
    r = ctx.rng
    base = default_registry.copy()
    base.unregister_decoder("string")
    base.unregister_decoder("bytes")
    base.register_decoder(BaseEquals("string"), D.StringDecoder(), label="string")
    base.register_decoder(BaseEquals("bytes", with_sub=False), D.ByteStringDecoder(), label="bytes")
    if r.random() < 0.5:
        base.register_decoder("blobs", D.DynamicArrayDecoder(item_decoder=D.ByteStringDecoder()))
        base.register_decoder("pair", D.TupleDecoder(decoders=(D.StringDecoder(), D.ByteStringDecoder())))
        extra = {"blobs": R.tparse("bytes[]"), "pair": R.tparse("(string,bytes)")}
    else:
        extra = {}
    regs = [base] + [fn(base) for _, fn in COPIERS]
    codecs = [ABICodec(x) for x in regs] + [ABIDecoder(base), ABICodec(base.copy())]
    pool = []
    for s, v in (("string", "ab"), ("bytes", b"q"), ("string[]", ["a", "b"]), ("(bytes,string)", (b"1", "2")), ("(string,uint8)[2]", [("x", 1), ("y", 2)]), ("bytes[][]", [[b"k"]])):
        pool.append((s, R.tparse(s), v))
    for s, t in extra.items():
        pool.append((s, t, [b"aa", b"b"] if s == "blobs" else ("s", b"b")))
    hist = []
    for _ in range(40):
        s, t, v = r.choice(pool)
        data = bytearray(R.enc_seq([t], [v]))
        c = r.randrange(3)
        if c == 0:
            data[-1] = 1
        elif c == 1:
            data = data[:-20]
        data = bytes(data)
        strict = r.random() < 0.5
        i = r.randrange(len(codecs))
        hist.append((i, s, c, strict))
        if r.random() < 0.3:
            ctx.call(r.choice(regs).get_decoder, s, strict=r.random() < 0.5)
        o = ctx.call(codecs[i].decode, [s], data, strict=strict)
        want, defects = R.dec([t], data, strict=strict)
        ctx.ev("evaluations")
        ctx.ev("strict_calls")
        ctx.mark("strict", s, c, strict, i)
        if (o.ok and (want is None or not R.same(o.v, want))) or (not o.ok and want is not None):
            ctx.violate("strictness leaked between codecs over copied registries", history=hist[-20:], type=s, strict=strict, data=data.hex(), got=o.v if o.ok else o.brief(),
                        want=want if want is not None else sorted(defects))
            return


def default_intact(ctx):
    """The shared default registries see nothing of all this."""
    g, r = ctx.g, ctx.rng
    for s in ("uint8", "string", "(uint8,bytes)[]", "foo", "uint[2]", "foo[]", "byte", "(address,bool)"):
        t = R.tparse(s)
        ctx.ev("evaluations")
        if t is None:
            a, b = ctx.call(encode, [s], [None]), ctx.call(encode_packed, [s], [None])
            if a.ok or b.ok:
                ctx.violate("a registration on a copy reached the default registries", type=s, got=a.brief(), packed=b.brief())
            continue
        v = g.rval(t)
        a, b = ctx.call(encode, [s], [v]), ctx.call(encode_packed, [s], [v])
        d = ctx.call(decode, [s], R.enc_seq([t], [v]))
        if not (a.ok and a.v == R.enc_seq([t], [v]) and b.ok and b.v == R.penc(t, v) and d.ok and R.same(d.v, (R.canon(t, v),))):
            ctx.violate("operations on copies changed the default codecs", type=s, value=v, got=a.brief(), packed=b.brief(), decoded=d.brief())
    ctx.ev("default_intact")


def packed_copies(ctx):
    r = ctx.rng
    a = registry_packed.copy()
    b = copy.deepcopy(a)
    a.unregister_encoder("uint")
    a.register_encoder(BaseEquals("uint"), M.tag_encoder(77, "callable"), label="uint")
    ea, eb = ABIEncoder(a), ABIEncoder(b)
    for _ in range(3):
        for s in r.sample(["uint8", "uint8[]", "(uint8,bool)", "uint16[2]"], 4):
            t = R.tparse(s)
            v = ctx.g.rval(t)
            o = ctx.call(eb.encode, [s], [v])
            ctx.ev("evaluations")
            if not (o.ok and o.v == R.penc(t, v)):
                ctx.violate("a change to one packed registry shows in another", type=s, value=v, got=o.brief())
            ctx.call(ea.encode, [s], [v])


def make_refs(ctx):
    """Registries used in every way, returned as weak references only."""
    g, r = ctx.g, ctx.rng
    refs = family(ctx, r.choice([10, 60, 150])) or []
    reg = default_registry.copy()
    reg.register_encoder("held", Holder)
    codec = ABICodec(reg)
    for s, v in (("held", 3), ("held[]", [1, 2]), ("(held,string)", (1, "x"))):
        ctx.call(codec.encode, [s], [v])
    kid = reg.copy()
    kc = ABICodec(kid)
    kid.unregister_encoder("uint")
    kid.register_encoder(BaseEquals("uint"), M.tag_encoder(9, "callable"), label="uint")
    # the holder in the copy uses the copy's own registrations
    for c, want in ((kc, R._word(9)), (codec, R._word(3))):
        o = ctx.call(c.encode, ["held"], [3])
        ctx.ev("evaluations")
        if not (o.ok and o.v == want):
            if not (c is kc and not o.ok):  # Holder.validate_value needs a coder object
                ctx.violate("a class coder was bound to the wrong registry", got=o.brief(), want=want.hex())
    ctx.call(codec.decode, ["(string,uint8)[]", "bytes"], bytes(64), strict=False)
    ctx.call(codec.is_encodable, "uint8[][]", [[1]])
    refs += [weakref.ref(reg), weakref.ref(kid)]
    return refs


def orphans(ctx):
    """Of a chain of copies all but one are dropped: they are released at once, and the
    one that is left works on."""
    r, g = ctx.rng, ctx.g
    regs = [r.choice([default_registry, registry_packed]).copy()]
    hows = []
    for _ in range(r.randint(1, 4)):
        how = r.choice(["copy()", "copy.copy", "copy.deepcopy"])
        hows.append(how)
        src = r.choice(regs)
        if r.random() < 0.5:
            ctx.call(src.get_encoder, "(uint8,string)[]")
            ctx.call(src.get_decoder, "(uint8,string)[]")
        regs.append(src.copy() if how == "copy()" else copy.copy(src) if how == "copy.copy" else copy.deepcopy(src))
    keep = r.randrange(len(regs))
    for x in regs:
        if r.random() < 0.5:
            ctx.call(ABICodec(x).encode, ["(uint8,bytes)[2]"], [[(1, b""), (2, b"x")]])
            ctx.call(ABICodec(x).is_encodable, "bool[]", [True])
    left = regs.pop(keep)
    refs = [weakref.ref(x) for x in regs]
    del regs[:]
    src = x = None
    gc.collect()
    ctx.ev("evaluations")
    ctx.ev("orphans", len(refs))
    alive = [x for x in refs if x() is not None]
    if alive:
        who = [type(x).__name__ for x in gc.get_referrers(alive[0]())][:8]
        ctx.violate("a registry stays alive because a registry copied from it or to it does", how=hows, kept=keep, alive=len(alive), referrers=who)
    o = ctx.call(ABICodec(left).encode, ["uint8", "bool[2]"], [1, [True, False]])
    if not o.ok:
        ctx.violate("a registry stopped working when its relatives were dropped", how=hows, kept=keep, got=o.brief())


def run(ctx):
    n = 0
    gc.collect()
    while ctx.more() or n < 30:
        refs = make_refs(ctx)
        strictness(ctx)
        packed_copies(ctx)
        default_intact(ctx)
        orphans(ctx)
        gc.collect()
        alive = [x for x in refs if x() is not None]
        ctx.ev("evaluations")
        ctx.ev("reclaimed", len(refs) - len(alive))
        if alive:
            who = [type(x).__name__ for x in gc.get_referrers(alive[0]())][:8]
            ctx.violate("registries no longer referenced survive a garbage collection", alive=len(alive), of=len(refs), referrers=who)
            return
        n += 1
