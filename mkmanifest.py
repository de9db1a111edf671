#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = {
"C01": ("online reference monitor over encode calls", "every encode call of the workload is compared byte for byte with an independent encoder"),
"C02": ("online round-trip monitor over encode/decode calls", "decode(encode(v)) is compared with the canonical value, types included"),
"C03": ("online monitor of decode against a collect-all reference decoder, over generated payload layouts", "accepted payloads, canonical or not, are judged by an independent decoder"),
"C04": ("online monitor of decode verdicts under payload fault injection", "accept/reject and exception class are judged by a reference that collects all defects of the payload"),
"C05": ("history monitor of interleaved strict and non-strict decode calls", "each call is judged by a memoryless lenient/strict reference"),
"C06": ("online monitor of encode refusals under hostile values", "accept/reject and exception class are judged by an independent domain predicate"),
"C07": ("agreement monitor of is_encodable, is_encodable_type and encode on the same inputs", "three observed outcomes are compared with each other and with the domain predicate"),
"C08": ("online reference monitor over encode_packed calls", "output and refusals are compared with an independent packed encoder and domain predicate"),
"C09": ("online monitor of parse/normalize against an independent recognizer", "verdict, printed form, attributes and equality are compared with a hand-written recognizer"),
"C10": ("online monitor of type usability across all entry points", "five entry points are judged by an independent validity predicate; aliases are compared with canonical names"),
"C11": ("history monitor of registry operations against a sequential model", "each operation and lookup is compared with an ordered list model without memory"),
"C12": ("history monitor of families of copied registries, with weak-reference leak detection", "each registry is compared with its own model; released registries are observed through weak references"),
"C13": ("online reference monitor over codecs with generated custom coders", "layout, values and errors are compared with a reference that models the custom coders"),
"C14": ("purity monitors: argument and context snapshots, thread stress with injected switches, re-entrant calls", "every outcome is compared with the outcome of the call alone; arguments and contexts are compared with snapshots"),
"C15": ("online exact-arithmetic monitor of fixed-point calls under hostile decimal contexts", "results are compared with digit-level integer arithmetic that uses no decimal context"),
"C16": ("execution-count monitor: executed lines, stream reads and memory peaks per call against linear bounds", "deterministic counts, not time, are compared with bounds about four times the measured maxima"),
"C17": ("monitor of values drawn from strategies, and history monitor of strategy registries", "drawn values are judged by the reference domain, encoders and decoder; registries by a model"),
"C18": ("online trace-specification monitor of the frame stack", "every stream operation is compared with a model of offsets and an ordinary BytesIO"),
"C19": ("online monitor of directly built coder objects over grids of settings", "outcomes are compared with a model of what each setting means"),
"C20": ("online monitor of text and byte contents against Python's UTF-8 codec and error handlers", "contents are compared with codecs.utf_8_decode under the same handler"),
"C21": ("history monitor of the default registries through every entry point; recording stream classes", "every outcome is compared with a model of the registry in force; streams handed to coders are recorded and checked"),
"C22": ("online monitor of misused calls with watched arguments", "verdicts and exception classes are compared with a table by kind of argument; every exception is printed"),
"C23": ("online monitor of matcher verdicts against an independent recognizer", "verdicts, equality and hashes are compared with the parsed meaning of the string and the settings"),
"C24": ("offline comparison of call logs recorded in differently configured interpreters, judged online in each", "every call is judged by the reference in its own interpreter, and recorded outcomes are compared between interpreters"),
"C25": ("forced single preemptions of changes and calls, and offline checking of logged concurrent histories", "each result must stem from a registration in force at some time during its call; the log of changes and calls is judged when the threads have ended"),
}
LEVEL = ("Holds on every execution observed; reach comes from systematic sweeps plus seeded random workloads, so inputs outside "
         "the explored families are not covered. Trusted: the reference in mon/, CPython. ")
checks = [dict(property=k, quick_cmd=f"bash check.sh {k} quick", thorough_cmd=f"bash check.sh {k} thorough", technique=t,
               level="exploration", level_note=LEVEL + n[0].upper() + n[1:] + ".") for k, (t, n) in sorted(T.items())]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[],
         notes="No hooks in /repo: the monitors observe the public API, executed lines (sys.monitoring) and stream objects from outside. "
               "Pure Python, so nothing is built; check.sh compiles /repo's sources afresh on every run.")
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
