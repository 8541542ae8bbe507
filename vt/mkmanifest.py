#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks (python3 vt/mkmanifest.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXPL = "Holds on the executions explored (counts in the evidence file); trusts the harness's model, the kernel's page protection as reported by faults and /proc/self/maps, and the compiler at -O0."
T = {
 "A01": ("runtime monitoring: page-fault probes and address-space sweeps against a shadow heap", "exploration", EXPL),
 "A02": ("runtime monitoring: page-fault probes and address-space sweeps against a shadow heap", "exploration", EXPL),
 "A03": ("runtime monitoring: use-after-free probes, reissue monitor, address-space sweeps", "exploration", EXPL),
 "A04": ("runtime monitoring: planted slack corruption, oracle on the report; intact heaps must stay silent", "exploration", EXPL),
 "A05": ("runtime monitoring: misuse matrix in forked children, oracle on signal and message", "exploration", EXPL),
 "A06": ("runtime monitoring: shadow heap with content patterns, disjointness monitor", "exploration", EXPL),
 "A07": ("runtime monitoring: alignment monitor over all allocation functions, misuse children", "exploration", EXPL),
 "A08": ("runtime monitoring: zero-size model with fault probes, forked children", "exploration", EXPL),
 "A09": ("runtime monitoring with injected refusals: failing requests against a shadow heap", "exploration", EXPL),
 "A10": ("runtime monitoring: leak report parsed and compared with a model of the live blocks", "exploration", EXPL),
 "A11": ("runtime monitoring: stress with injected delays, ownership and lock monitors, ThreadSanitizer", "exploration", EXPL + " ThreadSanitizer sees the accesses of the interleavings that happened."),
 "A12": ("runtime monitoring: footprint monitor on recorded mmap/munmap/mprotect events, address-space limits", "exploration", EXPL),
 "A13": ("runtime monitoring: placement enumeration of overlapping and adjacent regions, oracle on the report", "exploration", EXPL),
 "A14": ("runtime monitoring: differential check against reference functions at guard pages", "exploration", EXPL),
 "A15": ("runtime monitoring: table probes and address-space sweeps after every kind of call", "exploration", EXPL),
 "A16": ("runtime monitoring: counting constructors, scripted new-handlers, forked children", "exploration", EXPL),
 "A17": ("runtime monitoring: settings matrix, each effect observed against the documentation", "exploration", EXPL),
 "A18": ("runtime monitoring: message parser against expected texts on every output channel", "exploration", EXPL),
 "A19": ("runtime monitoring: differential runs of real programs with and without the preloaded library", "exploration", EXPL),
 "A20": ("fault injection: every k-th memory system call fails, shadow heap and sweeps as oracle", "fault_enumeration", EXPL),
 "A21": ("sanitizers: AddressSanitizer, UndefinedBehaviorSanitizer and memcheck over the library's own code", "exploration", EXPL),
 "A22": ("runtime monitoring: offline check of the recorded allocation log against the call history", "exploration", EXPL),
 "A23": ("runtime monitoring: macro matrix in forked children, with and without the library", "exploration", EXPL),
 "A24": ("runtime monitoring: the shadow heap over every build configuration", "exploration", EXPL),
 "A25": ("runtime monitoring: shadow heap through constructors, exit, threads, fork and exec", "exploration", EXPL),
 "A26": ("runtime monitoring: in-process breakpoint on the allocation hook, repeated runs, gdb on leaking programs", "exploration", EXPL),
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
m = dict(version=1, setup_cmd="python3 check.py --setup",
         checks=[dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                      technique=T[i][0], level=T[i][1], level_note=T[i][2]) for i in ids if i in checks.CHECKS],
         not_applicable=[dict(property=i, reason=NA.get(i, "no check built yet")) for i in ids if i not in checks.CHECKS],
         notes="No hooks in /repo: the monitors work from outside (page protection, wrapped system calls, messages).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
