"""The monitoring engine: workers, probes, counters, verdicts, evidence."""
import collections
import ctypes
import hashlib
import importlib
import json
import os
import pickle
import random
import re
import resource
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PKG = os.path.join(REPO, "eth_abi") + os.sep
MAX_VIOLATIONS = 3
MAX_RESIDENT = 1600 << 20
FULL = 77  # exit status of a worker that stopped because it has grown too big
ADDR = re.compile(r" at 0x[0-9a-f]+")


class Hang(BaseException):
    """A single call used more CPU time than any call of this workload can need."""


class Stop(BaseException):
    """Enough violations recorded."""


class Out:
    """Outcome of one observed call."""

    __slots__ = ("ok", "v", "e")

    def __init__(self, ok, v, e):
        self.ok, self.v, self.e = ok, v, e

    def key(self):
        """Comparable form: returned value with types, or exception class."""
        return ("ok", typed(self.v)) if self.ok else ("exc", type(self.e).__name__)

    def brief(self):
        if self.ok:
            return "returned " + short(self.v)
        try:
            m = str(self.e)
        except Exception:
            m = "?"
        return f"raised {type(self.e).__name__}: {m[:160]}"


def typed(v):
    if isinstance(v, (tuple, list)):
        return (type(v).__name__, tuple(typed(x) for x in v))
    return (type(v).__name__, repr(v) if not isinstance(v, (int, bytes, str, bool)) else v)


def short(v, n=400):
    old = sys.get_int_max_str_digits()
    try:
        sys.set_int_max_str_digits(0)
        s = repr(v)
    except Exception as e:
        s = f"<unprintable {type(v).__name__}: {type(e).__name__}>"
    finally:
        sys.set_int_max_str_digits(old)
    return s if len(s) <= n else s[: n - 20] + f"...[{len(s)} chars]"


class LineCoverage:
    """Which lines of eth_abi the monitored executions ran (sys.monitoring)."""

    TOOL = 1

    def __init__(self):
        self.hit = set()

    def start(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "verif-lines")
        hit = self.hit

        def on_line(code, line):
            if code.co_filename.startswith(PKG):
                hit.add((code.co_filename[len(PKG):], line))
            return m.DISABLE

        m.register_callback(self.TOOL, m.events.LINE, on_line)
        m.set_events(self.TOOL, m.events.LINE)


def executable_lines():
    """Lines inside functions of eth_abi (denominator for the coverage figure)."""
    import glob
    import types

    out = set()

    def walk(co, rel, infn):
        if infn:
            for _, _, ln in co.co_lines():
                if ln is not None and ln != co.co_firstlineno:
                    out.add((rel, ln))
        for c in co.co_consts:
            if isinstance(c, types.CodeType):
                walk(c, rel, infn or bool(c.co_flags & 2))

    for p in glob.glob(PKG + "**/*.py", recursive=True):
        with open(p, "rb") as f:
            walk(compile(f.read(), p, "exec"), p[len(PKG):], False)
    return out


def die_with_parent():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def resident():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * resource.getpagesize()


class Ctx:
    def __init__(self, pid, tier, seed, shard, nshards, seconds, pipe):
        self.id, self.tier, self.seed = pid, tier, seed
        self.shard, self.nshards = shard, nshards
        self.rng = random.Random(f"{pid}/{seed}/{shard}/{nshards}")
        self.t0 = time.monotonic()
        self.deadline = self.t0 + seconds
        self.seconds = seconds
        self.cap = max(240, 4 * seconds)
        self.cpu0 = time.process_time()
        self.random_cpu = None
        self.counts = collections.Counter()
        self.distinct = set()
        self.samples = {}
        self.violations = []
        self.known = {}
        self.notes = {}
        self.pipe = pipe
        self._call_no = 0
        self._in_call = False
        self._tick_call = -1
        self._ticks = 0
        self.hang_ticks = 12
        self._asked = 0
        self.full = False
        self.generation = 0
        self.lines = LineCoverage()
        self.thorough = tier == "thorough"
        from .gen import Gen

        self.g = Gen(self.rng)

    # ---- budget ------------------------------------------------------------
    def more(self):
        """Time left for the random phase: by the wall clock, or, on a loaded machine, by CPU
        time; the random phase always gets its share however long the systematic one took."""
        now, cpu = time.monotonic(), time.process_time()
        if self.random_cpu is None:
            self.random_cpu = cpu
            self.notes["systematic_s"] = round(now - self.t0, 1)
            if self.thorough:
                self.generations()
                now, cpu = time.monotonic(), time.process_time()
        if self.thorough:
            self._asked += 1
            if self._asked % 16 == 0 and resident() > MAX_RESIDENT:
                self.full = True
                return False
        if now < self.deadline:
            return True
        if now > self.t0 + self.cap:
            return False
        return cpu - self.cpu0 < 0.7 * self.seconds or cpu - self.random_cpu < 0.25 * self.seconds

    def generations(self):
        """Long runs: the random phase goes on in a forked child. eth_abi keeps every coder it ever
        made, so a child that has grown too big reports, ends, and a fresh one continues."""
        spent, n = time.process_time() - self.cpu0, 0
        while True:
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                die_with_parent()
                self.generation = n
                self.cpu0 = time.process_time() - spent
                self.random_cpu = time.process_time()
                signal.setitimer(signal.ITIMER_PROF, 5, 5)
                if n:
                    self.rng.seed(f"{self.id}/{self.seed}/{self.shard}/{self.nshards}/{n}")
                    self.counts.clear()
                    self.distinct.clear()
                return
            _, status = os.waitpid(pid, 0)
            n += 1
            now = time.monotonic()
            if status != FULL << 8 or now >= self.deadline:
                os._exit(0 if status == FULL << 8 else (status >> 8) or (9 if status else 0))

    # ---- observing ---------------------------------------------------------
    def call(self, fn, *a, **kw):
        self._call_no += 1
        self._in_call = True
        try:
            r = Out(True, fn(*a, **kw), None)
        except Exception as e:
            r = Out(False, None, e)
        except Hang as e:
            r = Out(False, None, e)
        finally:
            self._in_call = False
        return r

    def on_tick(self, *_):
        if not self._in_call:
            return
        if self._call_no != self._tick_call:
            self._tick_call, self._ticks = self._call_no, 0
        self._ticks += 1
        if self._ticks >= self.hang_ticks:
            self._ticks = 0
            raise Hang(f"one call used more than {5 * self.hang_ticks} s of CPU time")

    def ev(self, kind, n=1):
        self.counts[kind] += n

    def mark(self, *key):
        """Record a distinct non-trivial case."""
        key = ADDR.sub("", short(key, 20000))
        self.distinct.add(int.from_bytes(hashlib.blake2b(key.encode("utf-8", "surrogatepass"), digest_size=8).digest(), "big"))

    def sample(self, kind, obj):
        s = self.samples.setdefault(kind, [])
        if len(s) < 2:
            s.append(short(obj, 300))

    # ---- verdicts ----------------------------------------------------------
    def violate(self, what, **detail):
        v = {"what": what, "detail": {k: short(x, 3000) for k, x in detail.items()}, "shard": self.shard}
        self.violations.append(v)
        send(self.pipe, ("violation", v))
        if len(self.violations) >= MAX_VIOLATIONS:
            raise Stop

    def known_finding(self, fid, what):
        self.known.setdefault(fid, [0, what])[0] += 1


def send(fd, obj):
    b = pickle.dumps(obj)
    b = len(b).to_bytes(8, "big") + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def worker(mod, ctx):
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGPROF, ctx.on_tick)
    signal.setitimer(signal.ITIMER_PROF, 5, 5)
    if getattr(mod, "LINES", True):
        ctx.lines.start()
    err = None
    try:
        mod.run(ctx)
    except Stop:
        pass
    except BaseException as e:  # noqa: B036
        tb = e.__traceback__
        frames = traceback.extract_tb(tb)
        text = "".join(traceback.format_exception(type(e), e, tb))[-6000:]
        if isinstance(e, Hang) or any(f.filename.startswith(PKG) for f in frames):
            try:
                ctx.violate("eth_abi raised where the workload needs it to succeed", traceback=text)
            except Stop:
                pass
        else:
            err = text
    send(ctx.pipe, ("done", {
        "counts": dict(ctx.counts), "distinct": ctx.distinct, "samples": ctx.samples,
        "known": ctx.known, "notes": ctx.notes, "lines": ctx.lines.hit, "err": err,
        "shard": ctx.shard, "generation": ctx.generation,
    }))
    if ctx.full:
        os._exit(FULL)


def run_check(pid, tier, seed, only_shard=None):
    t0 = time.monotonic()
    mod = importlib.import_module(f"mon.props.{pid.lower()}")
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        listed = {k["id"]: k for k in json.load(f)["findings"] if pid in k["properties"]}
    nshards = getattr(mod, "SHARDS", 8)
    secs = (mod.THOROUGH_S if tier == "thorough" else mod.QUICK_S)
    limit = getattr(mod, "LIMIT", {"quick": 700, "thorough": 7200})[tier]
    procs = {}
    for sh in range(nshards):
        if only_shard is not None and sh != only_shard:
            continue
        rd, wr = os.pipe()
        sys.stdout.flush()
        pidn = os.fork()
        if pidn == 0:
            code = 0
            try:
                os.close(rd)
                die_with_parent()
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                worker(mod, Ctx(pid, tier, seed, sh, nshards, secs, wr))
            except BaseException:
                traceback.print_exc()
                code = 9
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(wr)
        procs[rd] = [pidn, sh, bytearray(), None]
    live = set(procs)
    violations, results = [], {}
    timed_out = False
    while live:
        left = limit - (time.monotonic() - t0)
        if left <= 0:
            timed_out = True
            break
        rs, _, _ = select.select(list(live), [], [], min(left, 5))
        for fd in rs:
            b = os.read(fd, 1 << 20)
            p = procs[fd]
            if not b:
                live.discard(fd)
                os.close(fd)
                _, p[3] = os.waitpid(p[0], 0)
                continue
            p[2] += b
            while len(p[2]) >= 8:
                n = int.from_bytes(p[2][:8], "big")
                if len(p[2]) < 8 + n:
                    break
                kind, obj = pickle.loads(bytes(p[2][8 : 8 + n]))
                del p[2][: 8 + n]
                if kind == "violation":
                    violations.append(obj)
                else:
                    results[p[1], obj["generation"]] = obj
    for fd in live:
        try:
            os.kill(procs[fd][0], signal.SIGKILL)
            os.waitpid(procs[fd][0], 0)
        except OSError:
            pass

    counts = collections.Counter()
    distinct, lines = set(), set()
    samples, known, errs, notes = {}, {}, [], {}
    for sh in sorted(results):
        r = results[sh]
        counts.update(r["counts"])
        distinct |= r["distinct"]
        lines |= r["lines"]
        for k, v in r["samples"].items():
            samples.setdefault(k, v)
        for k, (n, what) in r["known"].items():
            known.setdefault(k, [0, what])[0] += n
        for k, v in r["notes"].items():
            notes[k] = max(notes.get(k, v), v)
        if r["err"]:
            errs.append(f"shard {sh[0]}: {r['err']}")
    for fd, p in procs.items():
        if (p[3] or not any(sh == p[1] for sh, _ in results)) and fd not in live:
            errs.append(f"shard {p[1]} died with status {p[3]}")
    # known findings: only listed ones are tolerated
    for k, (n, what) in known.items():
        if k not in listed:
            violations.append({"what": f"unlisted finding {k}", "detail": {"what": what, "times": n}, "shard": -1})
    evals = counts.get("evaluations", 0)
    need = getattr(mod, "NEED", {})
    missing = [k for k, n in need.items() if counts.get(k, 0) < n]
    wall = time.monotonic() - t0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ex = executable_lines()
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": [{k: v} for k, v in samples.items()][:12] or ["none"],
            "observed": {k: v for k, v in sorted(counts.items()) if k != "evaluations"},
            "maxima": notes,
            "eth_abi_lines_executed_in_functions": len(lines & ex),
            "eth_abi_lines_in_functions": len(ex),
            "workers": len(procs), "worker_generations": len(results),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(violations),
        "workers_stopped_early": len(errs),
        "known_findings_observed": {k: n for k, (n, _) in known.items()},
    }
    if only_shard is None:
        tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))
    for k in sorted(known):
        if k in listed:
            print(f"KNOWN-FINDING: property={pid} {listed[k]['what']} (observed {known[k][0]} times)")
    if violations:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(violations[:5]):
            path = os.path.join(rdir, f"{pid}-{tier}-{seed}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "tier": tier, "seed": seed, "shard": v["shard"], **v,
                           "rerun": f"bash /verif/check.sh {pid} {tier} --seed {seed} --shard {v['shard']}"}, f, indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            print("  " + v["what"])
            for k, x in v["detail"].items():
                print(f"    {k}: {str(x)[:1500]}")
        return 1
    if timed_out:
        print(f"INCONCLUSIVE property={pid}: workers still running after {limit} s")
        return 3
    if errs and only_shard is None and len(errs) <= len(procs) // 4 and not missing:
        # the other workers saw all that is asked for; a fault of the machinery is not one of eth_abi
        print(f"NOTE property={pid}: {len(errs)} of {len(procs)} workers stopped early on an error of the machinery")
        print(errs[0][-1500:])
    elif errs:
        print(f"ERROR property={pid}: the machinery failed")
        for e in errs[:3]:
            print(e)
        return 2
    if missing and only_shard is None:
        print(f"INCONCLUSIVE property={pid}: monitors not reached: {missing}")
        return 3
    print(f"HELD property={pid} on {evals} evaluations, {len(distinct)} distinct non-trivial, "
          f"{len(lines & ex)}/{len(ex)} eth_abi lines, {wall:.1f} s")
    return 0
