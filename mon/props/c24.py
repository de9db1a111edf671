"""C24: results are the same in every process and interpreter mode."""
import os
import pickle
import pkgutil
import shutil
import subprocess
import sys
import tempfile
import time

import eth_abi

from .. import monitor

QUICK_S, THOROUGH_S = 20, 400
LINES = False
RULE = ("a case is one interpreter started with its own options (optimisation, hash seed, integer digit limit, bytes warnings, development mode, "
        "locale, warnings as errors, garbage collection always or never, tracing, another thread, another module of eth_abi imported first) "
        "running the judges of encode, decode, packed, parse and registry properties on a seeded workload; the recorded outcomes of all pure "
        "calls are then compared between interpreters. Non-trivial: distinct calls compared between at least two interpreters.")
NEED = {"interpreters": 60, "evaluations": 20000, "compared": 50000, "modules_imported_alone": 8, "optimised": 8, "other_hash_seeds": 8}
ASSUMPTIONS = ["Python 3.12 as installed; other versions and implementations are not available here"]

PY = sys.executable
CONFIGS = [
    ("plain", [], {"PYTHONHASHSEED": "0"}, ""),
    ("-O", ["-O"], {"PYTHONHASHSEED": "0"}, ""),
    ("-OO", ["-OO"], {"PYTHONHASHSEED": "7"}, ""),
    ("hash seed 1", [], {"PYTHONHASHSEED": "1"}, ""),
    ("hash seed 4242", [], {"PYTHONHASHSEED": "4242"}, ""),
    ("random hash seed", [], {"PYTHONHASHSEED": "random"}, ""),
    ("640 digits", ["-X", "int_max_str_digits=640"], {"PYTHONHASHSEED": "2"}, ""),
    ("no digit limit", ["-X", "int_max_str_digits=0"], {"PYTHONHASHSEED": "3"}, ""),
    ("-bb", ["-bb"], {"PYTHONHASHSEED": "0"}, "warnings as errors"),
    ("-X dev", ["-X", "dev"], {"PYTHONHASHSEED": "5"}, ""),
    ("C locale", ["-X", "utf8=0"], {"PYTHONHASHSEED": "0", "LC_ALL": "C", "LANG": "C", "PYTHONCOERCECLOCALE": "0"}, ""),
    ("warnings as errors", [], {"PYTHONHASHSEED": "0"}, "warnings as errors"),
    ("isolated", ["-I"], {}, ""),
    ("collect always", [], {"PYTHONHASHSEED": "9"}, "collect always"),
    ("never collect", [], {"PYTHONHASHSEED": "0"}, "never collect"),
    ("traced", [], {"PYTHONHASHSEED": "0"}, "traced"),
    ("thread", ["-O"], {"PYTHONHASHSEED": "0"}, "thread"),
    ("packed first", [], {"PYTHONHASHSEED": "0"}, "import:eth_abi.packed"),
    ("tools first", ["-O"], {"PYTHONHASHSEED": "0"}, "import:eth_abi.tools"),
    ("registry first", [], {"PYTHONHASHSEED": "0"}, "import:eth_abi.registry"),
]


def environment(extra):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON") or k in ("PYTHONPYCACHEPREFIX", "PYTHONDONTWRITEBYTECODE")}
    env.update(extra)
    return env


def interpreter(ctx, cfg, seed, rounds, scratch):
    name, flags, env, mode = cfg
    out = os.path.join(scratch, "log")
    child = os.path.join(monitor.VERIF, "mon", "child.py")
    p = subprocess.run([PY, *flags, child, mode, str(seed), str(rounds), out], env=environment(env), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=600)
    if p.returncode or not os.path.exists(out):
        text = p.stdout.decode("utf-8", "replace")[-3000:]
        if "/repo/eth_abi/" in text:
            ctx.violate("eth_abi failed in an interpreter with other options", interpreter=name, flags=flags, env=env, output=text)
            return None
        raise RuntimeError(f"{name}: {p.returncode} {text}")
    with open(out, "rb") as f:
        r = pickle.load(f)
    os.unlink(out)
    ctx.ev("interpreters")
    ctx.ev("evaluations", r["counts"].get("evaluations", 0))
    if r["flags"][0]:
        ctx.ev("optimised")
    if env.get("PYTHONHASHSEED", "0") not in ("0",):
        ctx.ev("other_hash_seeds")
    for k, (n, what) in r["known"].items():  # listed findings of the judges' own properties, reported there
        ctx.ev("known_elsewhere_" + k, n)
    for v in r["found"]:
        ctx.violate(v["what"] + " (in an interpreter with its own options)", interpreter=name, flags=flags, env=env, mode=mode, **v["detail"])
    if r["err"]:
        if r["err"][1]:
            ctx.violate("eth_abi raised in an interpreter with other options", interpreter=name, flags=flags, env=env, mode=mode, traceback=r["err"][0])
        else:
            raise RuntimeError(f"{name}: {r['err'][0]}")
    return r["log"]


def group(ctx, configs, seed, rounds, scratch):
    """The same workload in several interpreters; outcomes compared call by call."""
    first = {}
    for cfg in configs:
        log = interpreter(ctx, cfg, seed, rounds, scratch)
        if log is None:
            return
        for k, (call, outcome, digest) in log.items():
            if k not in first:
                first[k] = (cfg[0], call, outcome, digest)
                continue
            ctx.ev("compared")
            ctx.distinct.add(int.from_bytes(k[:8], "big"))
            if first[k][3] != digest:
                ctx.violate("the same call has another outcome in another interpreter", call=call, interpreters=(first[k][0], cfg[0]), outcomes=(first[k][2], outcome))
    ctx.sample("call compared", next(iter(first.values()))[1] if first else "none")


def imports(ctx):
    """Every module can be the first one imported."""
    names = sorted(m.name for m in pkgutil.walk_packages(eth_abi.__path__, "eth_abi."))
    for i, n in enumerate(["eth_abi"] + names):
        if i % ctx.nshards != ctx.shard:
            continue
        flags = ctx.rng.choice([[], ["-O"], ["-OO"]])
        p = subprocess.run([PY, *flags, "-c", f"import sys; sys.path.insert(0, '/repo'); import {n}; import eth_abi; assert_ = eth_abi.encode(['uint8'], [1]); sys.exit(0 if assert_ == bytes(31) + b'\\x01' else 5)"],
                           env=environment({}), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        ctx.ev("evaluations")
        ctx.ev("modules_imported_alone")
        if p.returncode:
            ctx.violate("a module cannot be imported first", module=n, flags=flags, output=p.stdout.decode("utf-8", "replace")[-2000:])


def run(ctx):
    scratch = tempfile.mkdtemp(prefix="c24-")
    try:
        imports(ctx)
        n = 0
        rest = CONFIGS[1:]
        while time.monotonic() < ctx.deadline or n < 2:  # the work is done in other processes
            # the plain interpreter with each of the others, in turns over the workers
            k = (ctx.shard + n) % 3
            some = [c for i, c in enumerate(rest) if i % 3 == k]
            ctx.rng.shuffle(some)
            group(ctx, [CONFIGS[0], *some], f"{ctx.seed}{ctx.shard:02}{n:03}", 60, scratch)
            n += 1
        ctx.ev("groups", n)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
