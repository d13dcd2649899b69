#!/usr/bin/env python3
"""Source of MANIFEST.json (run: python3 tools/manifest.py > MANIFEST.json)."""
import json
CL = "explicit-state model checking of the implementation: state closure over heap snapshots under chosen hash functions, compared with a reference model in every step"
T = {
 "C01": CL + "; exhaustive contents walks and operation sequences",
 "C02": CL + "; exhaustive contents walks and operation sequences",
 "C03": CL + ", Mod's callback arguments and pointers included",
 "C04": CL + ", for every agreement of hash digits up to 14 complete collisions",
 "C05": CL + ", with before/after comparison of order, pointers, Len and Dep",
 "C06": CL + ", Len oracle",
 "C07": CL + ", iteration stopped at every position",
 "C08": CL + ", Dep computed from the hashes and order per contents",
 "C09": CL + ", every pointer ever obtained tracked",
 "C10": CL + ", operations through every copy of the container value",
 "C11": "exhaustive enumeration of all method sequences (bounded length) on zero values and new containers of every kind",
 "C12": "stateless model checking of real code under a controlled scheduler (all schedules up to a preemption bound), plus exhaustive purity check of read-only operations by heap snapshots",
 "C13": "stateless model checking under a controlled scheduler (all schedules up to a preemption bound) and exhaustive alternating sequences with heap snapshots of the other container",
 "C14": CL + ", with callbacks that panic, end the goroutine, nest or read at every position",
 "C15": CL + ", for every ordered pair of special keys with forced hash collisions",
 "C16": "exhaustive contents tours on an AddressSanitizer build, and with a garbage collection, or a move of the goroutine's stack, injected at every statement (instrumented build)",
 "C17": "exhaustive enumeration of operation sequences and contents; release of removed entries observed through weak pointers after collection",
 "C18": "exhaustive enumeration of iteration counts and special keys; lockstep exploration of specialised and generic containers in every contents",
 "C19": "exhaustive tours of all contents of small key sets for a menu of value types, on the real code against a reference model",
 "C20": "exhaustive tours of all contents of small key sets with every call of the key methods recorded and checked",
 "C21": "exhaustive tours of all contents of small key sets, the container's heap graph measured after every operation, and the process's live heap between repetitions",
 "C22": "exhaustive fault enumeration: every operation in every contents of small key sets with every call of a key method failing in turn",
 "C24": "stateless model checking of real code under a controlled scheduler (all schedules of two updating threads up to a preemption bound), plus race detection in every listed trie shape",
 "C25": "exhaustive enumeration of operation sequences and contents walks; every operand's and the container's release observed through weak pointers after collection",
 "C26": CL + ", every update of present entries made from inside every callback position",
 "C27": "exhaustive tours of all contents of small key sets for a menu of key types, on the real code against a reference model",
 "C28": "exhaustive tours of all contents of small key sets, the container read, or another one operated on, inside every single call of a key method",
 "C23": "exhaustive tours of all contents of small key sets on an instrumented build, the statements of every operation counted",
}
N = {
 "C12": "Exhaustive for the listed containers and operation pairs/triples up to 2 (thorough 3) preemptions at statement granularity, sequentially consistent; the free-running race-detector stage adds memory-model races for the schedules that happened and is not exhaustive.",
 "C13": "Exhaustive for the listed pairs of containers and operations up to the preemption bound at statement granularity; the race-detector stage is a sample of schedules.",
 "C24": "Exhaustive for the listed operation pairs and trie shapes up to 2 (thorough 3) preemptions at statement granularity, sequentially consistent; the race-detector stage sees the happens-before order of one free-running execution per shape.",
 "C16": "Exhaustive over contents of small key sets; out-of-bounds accesses are seen when they hit a redzone or show in results, lost pointers when a collection at any statement frees, or a stack move at any statement invalidates, something still needed.",
 "C17": "Exhaustive over the listed sequences and contents; relies on two full collections clearing weak pointers of unreachable objects.",
 "C25": "Exhaustive over the listed sequences and contents; relies on full collections clearing weak pointers of unreachable objects.",
 "C11": "Exhaustive for the listed sequence lengths on every kind and every way of copying a zero value.",
}
D = "Exhaustive within the bounds listed under stages in the evidence file (key counts, trie shapes by branching level, histories of any length where the closure completes); trusts the stand-in for hash/maphash (documented behaviour only), the snapshots of the container's heap graph, the Go runtime and the reference model."
checks = [dict(property=p, quick_cmd=f"./check.sh {p} quick", thorough_cmd=f"./check.sh {p} thorough",
    technique=T[p], level="model_checking", level_note=N.get(p, "") + (" " if p in N else "") + D) for p in sorted(T)]
print(json.dumps(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
    notes="No hooks in /repo: the checker replaces hash/maphash by an overlay and, for the schedule and collection stages, compiles an instrumented copy of /repo's current sources made at build time."), indent=1))
