"""A worker interpreter for C24, started with its own options: runs the judges of other
properties on a seeded workload and reports their findings and the outcome of every pure call."""
import gc
import hashlib
import os
import pickle
import random
import sys
import threading
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, "/repo")
sys.path.insert(1, HERE)


def main(mode, seed, rounds, out):
    import importlib

    if mode.startswith("import:"):
        importlib.import_module(mode[7:])
    import eth_abi

    if os.path.dirname(os.path.abspath(eth_abi.__file__)) != "/repo/eth_abi":
        raise SystemExit("eth_abi is not imported from /repo")
    from eth_abi import packed
    from eth_abi.grammar import normalize, parse

    from mon import gen, monitor, refabi as R, reghist as H, regmodel as M, zoo
    from mon.api import default_registry
    from mon.props import c04, c05, c06, c08, c09

    pure = {eth_abi.encode: "encode", eth_abi.decode: "decode", eth_abi.is_encodable: "is_encodable", eth_abi.is_encodable_type: "is_encodable_type",
            packed.encode_packed: "encode_packed", packed.is_encodable_packed: "is_encodable_packed", parse: "parse", normalize: "normalize"}
    log, found = {}, []

    class Recorder(monitor.Ctx):
        def call(self, fn, *a, **kw):
            o = super().call(fn, *a, **kw)
            name = pure.get(fn) if getattr(fn, "__hash__", None) else None
            if name:
                try:
                    k = monitor.short((name, monitor.typed(list(a)), sorted(kw.items())), 5000)
                except RecursionError:  # a value that contains itself
                    k = " at 0x"
                if " at 0x" not in k and "unprintable" not in k:
                    if o.ok:
                        w = monitor.short(monitor.typed(o.v if name != "parse" else (str(o.v), o.v.to_type_str())), 5000)
                    else:
                        w = type(o.e).__name__
                    log[hashlib.blake2b(k.encode("utf-8", "surrogatepass"), digest_size=10).digest()] = (k[:600], w[:600], hashlib.blake2b(w.encode("utf-8", "surrogatepass"), digest_size=8).digest())
            return o

        def violate(self, what, **detail):
            found.append({"what": what, "detail": {k: monitor.short(x, 2000) for k, x in detail.items()}})
            if len(found) >= 3:
                raise monitor.Stop

    ctx = Recorder("C24", "quick", seed, 0, 1, 3600, None)
    g, r = ctx.g, ctx.rng

    def work():
        for _ in range(rounds):
            ts, vs = gen.rand_case(g, depth=3)
            if not ts:
                continue
            vs = list(vs)
            data = R.enc_seq(ts, vs)
            if len(data) > 4000:
                continue
            c06.judge(ctx, ts, vs, "valid")
            c08.judge(ctx, ts, vs, "valid")
            c04.judge(ctx, ts, data, "valid")
            i = r.randrange(len(ts))
            bad = list(vs)
            bad[i] = zoo.plant(g, ts[i], vs[i])
            c06.judge(ctx, ts, bad, "planted")
            c08.judge(ctx, ts, bad, "planted")
            for _ in range(3):
                d = gen.mutate(g, data)
                c04.judge(ctx, ts, d, "mutant")
                c05.judge(ctx, ts, d, "mutant")
            s = c09.rstr(r, 2)
            c09.judge(ctx, s, "string")
            c09.judge(ctx, c09.edits(r, s), "string")
            for s in (s, r.choice(["uint7", "bool8", "bytes33", "fixed8x0", "uint8[", "()", "foo", "(uint8,foo)", "byte", "uint[2]", "bytes0", "int0"])):
                o = ctx.call(eth_abi.is_encodable_type, s)
                if not (o.ok and o.v is (R.tparse(R.normalize(s)) is not None)):
                    ctx.violate("is_encodable_type is wrong", type=s, got=o.brief())
        for s in r.sample(gen.BASIC_SAMPLE, 12):
            t = R.basic(s)
            for x in zoo.near_misses(g, t):
                c06.judge(ctx, [t], [x], "near")
                c08.judge(ctx, [t], [x], "near")
            for x in r.sample(zoo.fixed_zoo(), 12):
                c06.judge(ctx, [R.mk_array(t, None)], [[x]], "zoo")
            for v in g.edges(t):
                c06.judge(ctx, [t], [v], "edge")
                c04.judge(ctx, [t], R.enc_seq([t], [v]), "edge")
        mem = H.Member(ctx, default_registry.copy(), M.RegModel(), [])
        tags = iter(range(1000, 10**6))
        for _ in range(rounds):
            if r.random() < 0.35:
                mem.mutate(r, tags)
            else:
                mem.look(r.choice(H.UNIVERSE), r, g)

    warnings.simplefilter("error" if mode == "warnings as errors" else "ignore")
    if mode == "collect always":
        gc.set_threshold(20)
    elif mode == "never collect":
        gc.disable()
    elif mode == "traced":
        sys.settrace(lambda *a: None)
    err = None
    try:
        if mode == "thread":
            box = []

            def go():
                try:
                    work()
                except BaseException as e:
                    box.append(e)

            threading.stack_size(64 << 20)
            th = threading.Thread(target=go)
            th.start()
            th.join()
            if box:
                raise box[0]
        else:
            work()
    except monitor.Stop:
        pass
    except Exception as e:
        import traceback

        err = ("".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:], any(f.filename.startswith("/repo/eth_abi/") for f in traceback.extract_tb(e.__traceback__)))
    gc.enable()
    with open(out, "wb") as f:
        pickle.dump({"log": log, "found": found, "err": err, "counts": dict(ctx.counts), "known": {k: (n, monitor.short(w)) for k, (n, w) in ctx.known.items()},
                     "flags": (sys.flags.optimize, sys.flags.hash_randomization, sys.get_int_max_str_digits(), sys.flags.bytes_warning)}, f)


random
if __name__ == "__main__":
    main(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
