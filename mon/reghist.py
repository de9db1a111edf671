"""Drives real registries and their models through the same operations and compares
what every lookup and coding call finds."""
from . import refabi as R, regmodel as M
from .api import X, ABICodec
from eth_abi.registry import BaseEquals, Equals, has_arrlist, is_base_tuple

NAMES = ["foo", "bar", "foo8", "foobar", "qux", "uint8", "uint256", "uint", "bool", "string", "bytes", "bytes4", "byte", "int16", "address", "fixed",
         "fixed8x1", "function"]
SPECIAL = ["No matching", "foo[]", "uint8[]", "(foo,bar)", "(uint8,bool)", "foo[", "not a type", "", "uint7", "(bool)", "foo[2]"]
LABELS = ["L0", "L1", "", "L 2", "foo", "uint", "bytes", "string", "has_arrlist", "is_base_tuple", "uint8", "bool", "foo8"]
FNS = [M.Fn(x) for x in (["foo"], ["foo"], ["foo", "bar"], ["uint8"], ["uint256", "qux"], ["foo[]"], ["(foo,bar)", "bar"], ["bool", "not a type", "No matching"])]
UNIVERSE = NAMES + SPECIAL + [
    "foo[][]", "bar[]", "(foo)", "(foo,uint8)", "(string,foo)", "((foo,bar),bool)", "(foo,bar)[]", "(uint,foo8)[2]", "qux[3]", "(qux[],string)", "uint[]", "uint8[2][]",
    "string[]", "bytes[2]", "(bytes,uint256)", "byte[]", "(address,fixed)", "baz", "baz[]", "(baz,foo)", "uint8]", "(foo", "foo9", "foobar[2]", "bytes5", "int24", "function[]",
]


def lookups(r):
    """A lookup to register or unregister with."""
    c = r.randrange(8)
    if c < 3:
        return r.choice(NAMES if r.random() < 0.75 else SPECIAL)
    if c == 3:
        return Equals(r.choice(NAMES))
    if c == 4:
        return BaseEquals(r.choice(["foo", "uint", "bytes", "qux", "bool", "string", "int"]), with_sub=r.choice([None, None, True, False]))
    if c == 5:
        return r.choice(FNS)
    if c == 6:
        return M.Pre(r.choice(["foo", "uint", "fo", "bar", "(", "bytes", "No"]))
    return r.choice([has_arrlist, is_base_tuple])


class Member:
    """A real registry with its model."""

    n = 0

    def __init__(self, ctx, real, model, log):
        self.ctx, self.real, self.model, self.log = ctx, real, model, log
        self.codec = ABICodec(real)
        Member.n += 1
        self.name = f"r{Member.n}"

    # ---- judging ------------------------------------------------------------------
    def bad(self, what, **kw):
        self.ctx.violate(what, registry=self.name, history=self.log[-60:], **kw)

    def expect(self, o, ok, excs, what, **kw):
        self.ctx.ev("evaluations")
        if ok:
            if o.ok:
                return True
            self.bad(f"{what} was refused though it must succeed", got=o.brief(), **kw)
        else:
            if not o.ok and isinstance(o.e, tuple(excs)) and not self._wrong(o.e, excs):
                return True
            self.bad(f"{what} did not raise as it must", got=o.brief(), want=[e.__name__ for e in excs], **kw)
        return False

    @staticmethod
    def _wrong(e, excs):
        """The documented exceptions are all ValueErrors: a lookup error must be the right one."""
        lookup = (X.NoEntriesFound, X.MultipleEntriesFound, X.ParseError)
        return isinstance(e, lookup) and not any(isinstance(e, c) for c in excs if c in lookup)

    # ---- mutating operations --------------------------------------------------------
    def mutate(self, r, tags):
        op = r.choice(["reg_e", "reg_d", "reg", "reg", "reg", "unreg_e", "unreg_d", "unreg", "unreg", "builtin", "badlookup"])
        m, ctx = self.model, self.ctx
        ctx.ev("mutations")
        if op in ("reg_e", "reg_d", "reg"):
            lk = lookups(r)
            label = r.choice([None, None, r.choice(LABELS)])
            n = next(tags)
            how = r.choice(["callable", "class", "instance"])
            e, d, tag = M.tag_encoder(n, how), M.tag_decoder(n, how), M.Tag(n)
            kw = {} if label is None and r.random() < 0.7 else {"label": label}
            if op == "reg":
                we, wd = m.enc.would_add(lk, label), m.dec.would_add(lk, label)
                if we and not wd:
                    return  # halves would differ: outcome not claimed
                self.log.append((self.name, "register", lk, label, n))
                o = ctx.call(self.real.register, lk, e, d, **kw)
                if we:
                    m.enc.add(lk, tag, label)
                    m.dec.add(lk, tag, label)
                ok = we
            else:
                side, fn, val = (m.enc, self.real.register_encoder, e) if op == "reg_e" else (m.dec, self.real.register_decoder, d)
                self.log.append((self.name, fn.__name__, lk, label, n))
                ok = side.add(lk, tag, label)
                o = ctx.call(fn, lk, val, **kw)
            ctx.ev("registered" if ok else "refused")
            self.expect(o, ok, (ValueError,), "registration", lookup=lk, label=label)
        elif op in ("unreg_e", "unreg_d", "unreg"):
            sides = {"unreg_e": [m.enc], "unreg_d": [m.dec], "unreg": [m.enc, m.dec]}[op]
            if op != "unreg" and r.random() < 0.5:
                key = lookups(r)
            else:
                key = r.choice(LABELS + NAMES[:8])
            if r.random() < 0.55:  # something that is there
                ps, _, lb = r.choice(sides[0].entries) if sides[0].entries else (None, None, None)
                if ps is not None:
                    key = lb if (lb is not None and (r.random() < 0.7 or op == "unreg")) else ps
            if op == "unreg" and not isinstance(key, str):
                return
            fi = [s.find_removal(key) for s in sides]
            if len(fi) == 2 and fi[0] is not None and fi[1] is None:
                return
            fn = {"unreg_e": self.real.unregister_encoder, "unreg_d": self.real.unregister_decoder, "unreg": self.real.unregister}[op]
            self.log.append((self.name, fn.__name__, key))
            ok = fi[0] is not None
            if ok:
                for s in sides:
                    s.remove(key)
            o = ctx.call(fn, self._fresh(r, key))
            ctx.ev("unregistered" if ok else "refused")
            self.expect(o, ok, (KeyError,), "unregistration", key=key)
        elif op == "builtin":  # put a built-in family (back) in place
            mk, label, kind, E, D = r.choice(M.FAMILIES)
            lk = mk()
            we, wd = m.enc.would_add(lk, label), m.dec.would_add(lk, label)
            if we and not wd:
                return
            self.log.append((self.name, "register builtin", label))
            o = ctx.call(self.real.register, lk, E, D, label=label)
            if we:
                m.enc.add(lk, M.Builtin(kind), label)
                m.dec.add(lk, M.Builtin(kind), label)
            ctx.ev("registered" if we else "refused")
            self.expect(o, we, (ValueError,), "registration of a built-in", label=label)
        else:
            bad = r.choice([None, 5, b"uint8", ["uint8"]])
            fn = r.choice([self.real.register_encoder, self.real.register_decoder, self.real.unregister_encoder, self.real.unregister_decoder])
            args = (bad, M.tag_encoder(0, "callable")) if fn.__name__.startswith("reg") else (bad,)
            self.log.append((self.name, fn.__name__, bad))
            self.expect(ctx.call(fn, *args), False, (TypeError,), "a lookup that is no string or callable", lookup=bad)

    @staticmethod
    def _fresh(r, key):
        """An equal but distinct predicate, where predicates compare by value."""
        if isinstance(key, Equals):
            return Equals("".join(list(key.value)))
        if isinstance(key, BaseEquals):
            return BaseEquals(key.base, with_sub=key.with_sub)
        if isinstance(key, M.Pre):
            return M.Pre(key.prefix)
        return key

    # ---- lookups --------------------------------------------------------------------
    def look(self, s, r, g):
        """One observation of type string s, judged by the model."""
        ctx, m = self.ctx, self.model
        ctx.ev("lookups")
        c = r.randrange(7)
        if c in (0, 1, 2):
            t = m.enc.resolve(s)
        else:
            t = m.dec.resolve(s)
        err = t if isinstance(t, set) else None
        if err is not None:
            ctx.ev("lookups_refused")
            for x in err:
                ctx.ev("expected_" + x.__name__)
        if c == 0:
            o = ctx.call(self.real.get_encoder, s)
            self.expect(o, err is None, err or (), "get_encoder", type=s)
        elif c == 1:
            o = ctx.call(self.real.has_encoder if r.random() < 0.5 else self.codec.is_encodable_type, s)
            ctx.ev("evaluations")
            good = False
            if err is None:
                good = o.ok and o.v is True
            else:
                if X.MultipleEntriesFound in err:
                    good = not o.ok and type(o.e) is X.MultipleEntriesFound
                if err != {X.MultipleEntriesFound}:
                    good = good or (o.ok and o.v is False)
            if not good:
                self.bad("has_encoder answers wrongly", type=s, got=o.brief(), resolves=str(err or t)[:200])
        elif c == 2:
            v = None if err else g.rval(t)
            o = ctx.call(self.codec.encode, [s], [v])
            if self.expect(o, err is None, err or (), "encode", type=s, value=v) and err is None:
                want = R.enc_seq([t], [v])
                if o.v != want:
                    self.bad("encode used another registration than the matching one", type=s, value=v, got=o.v.hex(), want=want.hex())
                ctx.ev("coded")
        elif c in (3, 4):
            kw = {} if c == 3 else {"strict": r.random() < 0.5}
            o = ctx.call(self.real.get_decoder, s, **kw)
            self.expect(o, err is None, err or (), "get_decoder", type=s)
        else:
            data = b"" if err else R.enc_seq([t], [g.rval(t)])
            strict = r.random() < 0.6
            if err is None and t.dyn and r.random() < 0.4:
                b = bytearray(data)
                b[-1] ^= 1
                data = bytes(b)
            o = ctx.call(self.codec.decode, [s], data, strict=strict)
            if err is not None:
                self.expect(o, False, err, "decode", type=s)
            else:
                ctx.ev("evaluations")
                ctx.ev("coded")
                want, defects = R.dec([t], data, strict=strict)
                from .api import dec_expected
                if want is not None:
                    good = o.ok and R.same(o.v, want)
                else:
                    good = not o.ok and isinstance(o.e, dec_expected(defects))
                if not good:
                    self.bad("decode did not use the matching registration", type=s, strict=strict, data=data.hex(), got=o.v if o.ok else o.brief(),
                             want=want if want is not None else sorted(defects))
        ctx.mark(s, c, str(err), tuple((repr(M.pkey(p))[:60], type(v).__name__) for p, v, _ in (m.enc if c < 3 else m.dec).entries if M.matches(p, s)),
                 "compound" if s[-1:] in ")]" else "", err is None and t.s)

    def sweep(self, r, g, universe=UNIVERSE):
        for s in universe:
            self.look(s, r, g)
            self.look(s, r, g)
