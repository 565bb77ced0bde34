#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (kept in step with properties.jsonl)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
MC, FE = "model_checking", "fault_enumeration"
BASE = ("Exhaustive within the stated bounds: every type of the universe (sizes, limits and nesting scaled down) and every value / byte string / history listed in DESIGN.md, "
        "each executed on the real code and compared with an independent reference model. Trusts the reference model (itself cross-checked), the Go runtime and the small-scope hypothesis. ")
T = {
 "C01": (MC, "explicit-state enumeration of all values up to a bound of every type of a type universe, replayed on the implementation against a reference SSZ model", ""),
 "C02": (MC, "explicit-state enumeration of all bounded values, encode/decode round trip replayed on the implementation against the model value", ""),
 "C03": (MC, "exhaustive enumeration of byte strings (all strings up to a depth over a boundary alphabet, plus all adversarial edits of every valid encoding), model decision replayed on the implementation", ""),
 "C04": (MC, "exhaustive enumeration of byte strings, dry check and decode of the implementation compared on each", ""),
 "C05": (MC, "explicit-state enumeration of all bounded values, root compared with the model's independent merkleization", ""),
 "C06": (MC, "explicit-state enumeration of all bounded container values and one-field changes, signing root compared with the model", ""),
 "C07": (FE, "exhaustive enumeration of claimed lengths and hostile inputs per type, with panic, hang and allocation monitors on every one", "Allocation is measured (runtime memory statistics) against a bound computed from the type. "),
 "C08": (MC, "exhaustive enumeration of inputs with canary-guarded destinations and bool/slice well-formedness monitors on every execution, plus the same space under AddressSanitizer", ""),
 "C09": (FE, "enumeration of every program point of the (instrumented) implementation as the moment of a garbage collection with memory clobbering and stack moves", "Points are statement boundaries; collections inside a single statement or a runtime call are not enumerated. "),
 "C10": (FE, "enumeration of all ways a reader can split, delay or cut the stream (all compositions up to a bound, every cut and failure point)", ""),
 "C11": (FE, "enumeration of every failure point and short-write pattern of the writer for every bounded value", ""),
 "C12": (MC, "exhaustive enumeration of fuzz inputs up to a depth and length sweep per type, results validated by the model", ""),
 "C13": (MC, "explicit-state enumeration of all bounded values per type, with the model's exact bounds", ""),
 "C14": (MC, "enumeration of all sequences of decode operations up to a depth on one destination, compared with a fresh destination", ""),
 "C15": (MC, "stateless model checking: controlled scheduler explores all interleavings up to a preemption bound at statement granularity on the instrumented implementation; race detector on the same operation pairs", "Sequentially consistent interleavings at statement boundaries up to the preemption bound; weaker orderings are only covered by the race detector runs. "),
 "C16": (MC, "exhaustive enumeration of (count, limit) pairs against the naive tree", ""),
 "C17": (MC, "exhaustive enumeration of (count, limit, index) triples against the naive tree", ""),
 "C18": (MC, "enumeration of all switching sequences of hash functions up to a depth", ""),
 "C19": (MC, "enumeration of all squash/embed/omit/pointer compositions up to a depth, compared with the flattened twin type", ""),
 "C20": (MC, "exhaustive enumeration of byte slices, lengths and indices against the bit-array model", ""),
 "C21": (MC, "the same exhaustive enumerations executed on the native build, a 32-bit build (386) and big-endian 64-bit and 32-bit builds (MIPS64, MIPS) run by a user-mode emulator; the results of every case compared between the hosts", "Trusts the emulator for the big-endian runs (it only executes the compiled instructions; both hosts run the same harness). "),
 "C22": (MC, "enumeration of all operation sequences up to a depth on shared definitions and values, with deep snapshots compared after every step", ""),
 "C23": (MC, "enumeration of all Go type expressions up to a nesting depth, model decision compared with the implementation", ""),
 "C24": (MC, "enumeration of all positions of custom definitions in type expressions up to a nesting depth, all operations compared with the model", ""),
 "C25": (MC, "explicit-state enumeration of values; texts compared pairwise and against the expected field lines", ""),
 "C26": (MC, "explicit exploration of all operation sequences up to a depth on the implementation's readers, scopes and writers in step with a model of their state", ""),
 "C27": (MC, "exhaustive enumeration of (count, limit, index) and (type, limit, value) states on the implementation, counting hashes, leaf reads, part visits, factory calls and heap bytes against the reference tree's needs", ""),
}
UNCLAIMED = {}
for l in os.environ.get("UNCLAIMED", "").split():
    UNCLAIMED[l] = "the check for this property is not finished yet"
checks = []
for p in props:
    if p in UNCLAIMED:
        continue
    lvl, tech, note = T[p]
    checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                   "technique": tech, "level": lvl, "level_note": BASE + note})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in UNCLAIMED.items()],
     "notes": "No hooks in /repo: instrumented builds (C09, C15) are made with 'go build -overlay' from /repo's working tree. See DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
