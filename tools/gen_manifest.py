#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl (run by hand when a property is added)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {"C21": "pure compile-time and formatting helpers: no concurrency, time, I/O or multi-party behaviour for a simulator to control; "
             "their output is only checked as part of the lines compared by C01, C12 and C16"}
COMMON = ("Seeded sampling, not proof: no violation in the runs counted in the evidence file. Trusted: the simulated kernel, clocks, "
          "disk and C++ memory model (deviations listed in DESIGN.md) and the executable reference model in sim/harness.cpp; "
          "all code of the repository is real, compiled from the working tree. ")
NOTE = {
 "C01": "Refinement of every output byte against a reference model, per sink, plus data races, bad memory accesses and deadlocks.",
 "C02": "Conservation (delivered + counted drops = made) against the model; a TRY statement that waits is a violation.",
 "C03": "Process and machine crashes at arbitrary points; the durable image is compared with what sync or fatal promised.",
 "C04": "Sink close, copy, assign, re-register and logger destruction at arbitrary points; late access is detected by poisoning and race detection.",
 "C05": "Concurrent logger calls; happens-before race detection and model of visible effects.",
 "C06": "Ring under a weak-memory simulation (stale loads of relaxed/acquire atomics) with race detection on every byte.",
 "C07": "Rotation by command, signal-free, with rename/unlink of the file and failing opens; union of files compared with the model.",
 "C08": "Short, interrupted and failing writes, disk full and recovery, unwritable stderr.",
 "C09": "Simulated io_uring with delayed, reordered, short and failing completions, partial submission, full queues, SQPOLL. Known finding K1 is excluded by profile.",
 "C10": "Instrumented custom back-end that checks the call protocol and throws.",
 "C11": "Clients that are slow, dead, malformed or flooding; replies compared with the sinks' possible states.",
 "C12": "Level changes from owner, other threads and commands; statement side effects compared with the admitted levels.",
 "C13": "Simulated clocks, TSC and frequency sources with steps and drift.",
 "C14": "Progress within a bounded number of consumer steps after the last statement. Known finding K2 is excluded by profile.",
 "C15": "Allocator, lock and system-call counters on the calling thread during each statement.",
 "C16": "Throwing copies and formatters at arbitrary points; life cycle of each argument object tracked.",
 "C17": "Failing system calls in construction and operation; descriptor, mapping, ring, thread, socket and heap leak accounting.",
 "C18": "Liveness as progress within a bounded number of points under a fair schedule once faults stop; deadlock detection.",
 "C19": "Socket path life cycle in the simulated file system with failing socket calls and colliding paths.",
 "C20": "The real xtrctl main() run as a simulated process against a live logger, with failing connections.",
}
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: system calls, threads, atomics, clocks and allocation are taken over at compile and link time "
              "(sim/build.py). /repo only carries fix: commits, listed in known-findings.json."}
for p in props:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
        continue
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                        "evidence_file": "evidence/%s.json" % i,
                        "technique": "deterministic simulation with fault injection: seeded schedules, weak memory and faults over the real code, checked against a reference model",
                        "level": "exploration", "level_note": NOTE[i] + " " + COMMON.strip()})
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
