"""C11: histories of registrations and lookups against a registry model without memory."""
import itertools

from .. import reghist as H, regmodel as M
from ..api import X, default_registry
from eth_abi.registry import ABIRegistry, Equals, PredicateMapping

QUICK_S, THOROUGH_S = 26, 600
RULE = ("a history is up to 120 operations on one registry (a copy of the default one or an empty one): register/unregister variants with "
        "string, value-equal, identity-equal and overlapping lookups, labels or none, and lookups, encode and decode calls of 60 type strings "
        "including compound ones; every outcome is compared with a list model re-evaluated for each lookup. Non-trivial: distinct by "
        "(type string, observation kind, matching registrations, expected verdict).")
NEED = {"histories": 200, "registered": 2000, "unregistered": 1500, "refused": 1500, "lookups": 20000, "expected_MultipleEntriesFound": 500,
        "expected_NoEntriesFound": 500, "expected_ParseError": 200, "coded": 5000, "mapping_histories": 100}
ASSUMPTIONS = ["predicates are pure", "a register or unregister call whose encoder half succeeds and decoder half is refused is not judged",
               "where several components of a compound type are at fault, any of their errors is accepted",
               "malformed built-in types (uint7) are looked up at top level only"]


def history(ctx, n):
    g, r = ctx.g, ctx.rng
    tags = itertools.count(1000 + r.randrange(10**6))
    log = []
    if r.random() < 0.25:
        m = H.Member(ctx, ABIRegistry(), M.RegModel(False), log)
    else:
        m = H.Member(ctx, default_registry.copy(), M.RegModel(), log)
    focus = r.sample(H.UNIVERSE, 12)
    for _ in range(n):
        if r.random() < 0.35:
            m.mutate(r, tags)
            if r.random() < 0.2:
                m.sweep(r, g, focus)
        else:
            m.look(r.choice(focus) if r.random() < 0.7 else r.choice(H.UNIVERSE), r, g)
    m.sweep(r, g)
    ctx.ev("histories")
    if len(ctx.samples.get("history", ())) < 2:
        ctx.sample("history", [x[1:] for x in log[:12]])
    # taking everything away again must always be possible, and leaves nothing behind
    for side, un in ((m.model.enc, m.real.unregister_encoder), (m.model.dec, m.real.unregister_decoder)):
        es = list(side.entries)
        r.shuffle(es)
        for p, _, lb in es:
            key = lb if lb is not None and r.random() < 0.5 else p
            log.append((m.name, un.__name__, key))
            side.remove(key)
            m.expect(ctx.call(un, m._fresh(r, key)), True, (), "unregistration of what is registered", key=key)
    m.sweep(r, g, focus)
    for mk, label, kind, E, D in M.FAMILIES:
        m.expect(ctx.call(m.real.register, mk(), E, D, label=label), True, (), "registration in an emptied registry", label=label)
        m.model.enc.add(mk(), M.Builtin(kind), label)
        m.model.dec.add(mk(), M.Builtin(kind), label)
    m.sweep(r, g, focus)


def mapping(ctx, n):
    """The same model for PredicateMapping itself, which other registries build on."""
    r = ctx.rng
    real, model, log = PredicateMapping("m"), M.Side(), []
    for _ in range(n):
        c = r.randrange(8)
        ctx.ev("evaluations")
        if c < 3:
            p = H.lookups(r)
            p = Equals(p) if isinstance(p, str) else p
            label = r.choice([None, r.choice(H.LABELS)])
            v = object()
            ok = model.add(p, v, label)
            log.append(("add", p, label))
            o = ctx.call(real.add, p, v, label) if label is not None or r.random() < 0.5 else ctx.call(real.add, p, v)
            good = o.ok if ok else (not o.ok and isinstance(o.e, ValueError))
        elif c < 5:
            key = H.lookups(r)
            key = r.choice(H.LABELS) if isinstance(key, str) else key
            if model.entries and r.random() < 0.6:
                p, _, lb = r.choice(model.entries)
                key = lb if lb is not None and r.random() < 0.5 else p
            ok = model.remove(key)
            log.append(("remove", key))
            fn = real.remove if r.random() < 0.5 else (real.remove_by_label if isinstance(key, str) else real.remove_by_equality)
            o = ctx.call(fn, H.Member._fresh(r, key))
            good = o.ok if ok else (not o.ok and isinstance(o.e, KeyError))
        elif c == 5 and r.random() < 0.3:
            log.append(("copy",))
            old = real
            real = real.copy()
            # the original must not feel what happens to the copy
            o = ctx.call(old.add, M.Fn(["x"]), object(), "only in the old one")
            good = o.ok
        else:
            s = r.choice(H.UNIVERSE)
            hits = [v for p, v, _ in model.entries if M.matches(p, s)]
            o = ctx.call(real.find, s)
            log.append(("find", s))
            if len(hits) == 1:
                good = o.ok and o.v is hits[0]
            else:
                good = not o.ok and type(o.e) is (X.MultipleEntriesFound if hits else X.NoEntriesFound)
            ctx.mark("find", s, len(hits), len(model.entries))
        if not good:
            ctx.violate("PredicateMapping differs from its model", history=log[-40:], got=o.brief())
            return
    ctx.ev("mapping_histories")


def run(ctx):
    n = 0
    while ctx.more() or n < 40:
        history(ctx, ctx.rng.choice([10, 40, 120]))
        mapping(ctx, 60)
        n += 1
