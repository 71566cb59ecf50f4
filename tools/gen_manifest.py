import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
CLAIM = {
 "C01": ("fault_enumeration", "seeded simulation of the generator processes over an in-memory file system, fault injection at every system call and allocation, against a reference model of the tables"),
 "C02": ("fault_enumeration", "seeded simulation of the generator processes with kill and error injection at every system call; leftovers judged by the compiler and the reference tables"),
 "C03": ("exploration", "seeded schedules over the system calls of concurrent generator processes in a simulated directory"),
 "C04": ("exploration", "seeded histories of generator runs, crashes and rejected runs against a model of the directory"),
 "C05": ("exploration", "real threads under a seeded baton scheduler that switches at chosen machine instructions inside library calls; results against a reference model, memory conservation checked at every switch"),
 "C06": ("exploration", "seeded signal delivery at chosen machine instructions with handlers that call the library again; results, registers and stack checked"),
 "C07": ("exploration", "seeded abandonment of calls at chosen machine instructions (longjmp, thread exit, thread never resumed) followed by checked calls"),
 "C08": ("exploration", "seeded array placements against unmapped and read-only pages, injected page faults and evictions, undefined register bits; results against a reference model"),
 "C10": ("fault_enumeration", "real analysis on a simulated allocator with seeded failing allocations; exit status, diagnostic, text and bounds against the fault-free run of the same history"),
 "C11": ("exploration", "seeded histories of analysis operations on a simulated allocator (reuse order, content, guarded pages); block conservation, fresh-process reference runs and concrete runs inside the bounds"),
 "C12": ("exploration", "real speed programs on a simulated time-stamp counter with seeded histories (stalls, backward jumps, wrap, adversarial orders); reports against the recorded differences"),
 "C09": ("exploration", "single-stepped detection routine on a simulated processor and operating system (emulated CPUID and XGETBV), seeded configurations"),
}
CLAIM.update(json.load(open(os.path.join(V, "tools", "claims.json"))) if os.path.exists(os.path.join(V, "tools", "claims.json")) else {})
NOTE = {
 "C01": "samples fault sequences; every fault kind is injected at first, last and random positions of every class of call",
 "C02": "samples kill points and faults; every system call of a run is a possible kill point",
 "C03": "samples interleavings at system-call granularity",
 "C04": "samples histories of up to nine runs",
 "C05": "samples schedules at machine-instruction granularity; results compared with a reference model",
 "C06": "samples interruption points at machine-instruction granularity",
 "C07": "samples abandonment points at machine-instruction granularity",
 "C08": "samples placements and register contents; all routines and sizes in every run of the check",
 "C09": "samples simulated processors; the instruction stream is the real one",
 "C10": "every single failing allocation of the sampled analyses plus sampled sequences",
 "C11": "samples analysis histories and allocator behaviours",
 "C12": "samples counter histories; the speed programs are the real binaries with a trapped counter",
}
NA = {
 "C20": "a pure function of its input: no schedule, clock, fault or I/O can influence it, so simulation would be input generation only; concurrent and interrupted calls are decided by C05-C08",
 "C21": "a pure function of its input; no nondeterminism to simulate",
 "C22": "a pure arithmetic bound over inputs; no nondeterminism to simulate",
 "C23": "equivalence of two pure functions; no nondeterminism to simulate",
 "C24": "pure arithmetic on intervals; no nondeterminism to simulate (allocation failures and histories of the analysis are decided by C10 and C11)",
 "C25": "a pure function of its input; the clock histories that feed it are decided by C12",
 "C26": "needs LLVM 11, clam and crab, which are not installed, and is a pure function of the analysed program",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIM:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": CLAIM[i][1], "level": CLAIM[i][0], "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
