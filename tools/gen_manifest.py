#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")

CHECKS = {
 # property: (crate, technique, level_note)
 "C01": ("mapsim", "seeded histories against a list model", "fault-free histories of two ordered hashes; every result, order and lookup compared with a list of pairs after every operation"),
 "C02": ("mapsim", "seeded histories with raising key callbacks", "the k-th hash/eql? callback of an operation raises, k drawn from the seed; atomicity and error identity judged against the model"),
 "C03": ("mapsim", "seeded deletion windows with nested traversals and raising keys", "positions, traversals, lookups, compaction and re-keying compared with a list of slots after every step"),
 "C04": ("mapsim", "seeded histories with panicking callbacks", "the k-th callback of an operation panics; ownership ledger, poisoned memory and container consistency judged"),
 "C05": ("mapsim", "seeded traversals abandoned or leaked at any point", "drain, split, consume, sort, box, filter and borrow iterators consumed from either end by a drawn script, then dropped, folded, collected or leaked; yields, ledger and container compared with the list model"),
 "C06": ("mapsim", "seeded histories of two sets against a list model", "fault-free histories; results, order, lookups and set relations compared after every operation"),
 "C07": ("mapsim", "seeded histories with a refusing allocator", "requests larger than the operation needs are refused; result and contents compared with the model"),
 "C08": ("mapsim", "seeded histories of worn tables against a multimap model", "fault-free histories of the raw table, map and set (elements with and without destructors, over-aligned elements); every result and the whole contents compared after every operation"),
 "C09": ("mapsim", "seeded histories with panicking callbacks", "the k-th callback of an operation panics; ownership ledger, guard zones, poisoned memory, length and iteration judged"),
 "C10": ("mapsim", "seeded histories with raising callbacks", "the k-th raising callback of an operation fails; error identity, contents and later behaviour compared with the model"),
 "C11": ("mapsim", "seeded traversals abandoned or leaked at any point", "drain, extract, retain and consuming traversals stopped after a drawn number of elements; yields, ledger and contents compared with the model"),
 "C12": ("iosim", "seeded kernel responses and signals under buffered output", "the repository's buffer and stream modules over a simulated kernel: short writes, EINTR, EAGAIN, hard errors and signals drawn per call; descriptor log plus buffer compared with the accepted bytes after every call"),
 "C13": ("iosim", "seeded kernel responses and signals under buffered input", "the repository's buffer and stream modules over a simulated kernel: short reads, EINTR, EAGAIN, errors, end of file and signals drawn per call; delivered bytes and positions compared with a file model"),
 "C14": ("rtsim", "seeded interleavings of requesters, safepoints, registration and teardown", "the real poll word, signal table, timer, scheduler and safepoint code over simulated OS threads; sequentially consistent interleavings at atomic operations"),
 "C15": ("rtsim", "seeded interleavings of the timer thread with thread-count changes, forks and teardown", "the real timer over simulated threads and clock; ticks judged against the number of live threads"),
 "C16": ("rtsim", "seeded completion orders, interrupted callers and wake-up faults", "the real worker hand-off and scheduler over simulated system calls, threads and pipe"),
 "C17": ("rtsim", "seeded histories of sleeps, wakes, interrupts and signals under a simulated clock", "the real scheduler, thread object, timer and safepoint code over coroutines and a simulated clock, poll and signals; every return and every wait of the process judged by a model of all threads"),
 "C18": ("rtsim", "seeded histories of joins, terminations, timeouts and interrupts under a simulated clock", "the real scheduler, thread object, timer and safepoint code over coroutines and a simulated clock, poll and signals; every return and every wait of the process judged by a model of all threads"),
 "C19": ("rtsim", "seeded histories of raises, kills, masks and parks", "the real scheduler, thread object, timer and safepoint code over coroutines and a simulated clock, poll and signals; every return and every wait of the process judged by a model of all threads"),
 "C20": ("rtsim", "seeded histories of descriptor waits with readiness events, EINTR, signals and failing polls", "the real scheduler, thread object, timer and safepoint code over coroutines and a simulated clock, poll and signals; every return and every wait of the process judged by a model of all threads"),
 "C21": ("rtsim", "seeded blocking graphs of sleeps, joins, descriptor waits and interrupts", "the real scheduler, thread object, timer and safepoint code over coroutines and a simulated clock, poll and signals; every return and every wait of the process judged by a model of all threads"),
 "C22": ("rtsim", "seeded histories of spawns, passes, timer ticks and endings", "the real scheduler, thread object, timer and safepoint code over coroutines and a simulated clock, poll and signals; every return and every wait of the process judged by a model of all threads"),
 "C23": ("rtsim", "seeded histories cut by process exit or fork at any point", "the real scheduler, thread object, timer and safepoint code over coroutines and a simulated clock, poll and signals; every return and every wait of the process judged by a model of all threads"),
 "C24": ("rtsim", "seeded preemptions, raises, kills and wakes of threads contending for mutexes", "the repository's Ruby thread library, read and run by an evaluator over the real scheduler, thread object and timer, with switches at the real safepoints and a simulated clock; ownership and blocked threads judged at every step and whenever the process is idle"),
 "C25": ("rtsim", "seeded producers and consumers with preemptions, timeouts, close, clear, raises and kills", "the repository's Ruby thread library, read and run by an evaluator over the real scheduler, thread object and timer, with switches at the real safepoints and a simulated clock; every push and pop history judged by a queue model, blocked threads whenever the process is idle"),
 "C26": ("rtsim", "seeded producers and consumers of bounded queues with resizes, close, clear, raises and kills", "the repository's Ruby thread library, read and run by an evaluator over the real scheduler, thread object and timer, with switches at the real safepoints and a simulated clock; every history judged by a bounded queue model, blocked threads whenever the process is idle"),
 "C27": ("rtsim", "seeded waits, signals, broadcasts, timeouts, raises and kills", "the repository's Ruby thread library, read and run by an evaluator over the real scheduler, thread object and timer, with switches at the real safepoints and a simulated clock; owed signals, ownership after every wait and blocked waiters judged by a model"),
 "C28": ("rtsim", "seeded entries, nested entries, condition waits, raises and kills", "the repository's Ruby thread library, read and run by an evaluator over the real scheduler, thread object and timer, with switches at the real safepoints and a simulated clock; ownership, depth, waits and blocked threads judged by a model"),
 "C29": ("heapsim", "seeded mutation and collection histories against a reference graph", "the real allocator, collector, poll word, object cells and hashes; pages and thresholds scaled down in most runs; liveness, contents, destructors and counters compared after every collection"),
 "C30": ("heapsim", "seeded histories with collections, nested operations and raises inside every callback", "the real hash representation and native Hash methods over the real collector; contents, order, lookups, iteration visits and comparisons judged by an insertion-ordered model after every step"),
 "C33": ("procsim", "seeded starts of processes with failing, interrupted and exhausted system calls", "the real argument parsing, process start, child set-up and error report over a simulated kernel; the image of the program, the errors, the reaping and the descriptors of both sides judged by a model"),
 "C34": ("fibersim", "seeded fiber programs with errors, kills, misuse and collection against a model of the fiber rules", "the real fiber objects, their stacks, the methods of Fiber and the fiber part of the executor; the assembled switches are replaced; every arrival of control, its value or error and every refusal judged by the model"),
 "C35": ("fibersim", "seeded fiber programs with storage operations and hashes changed behind the fiber's back", "the real storage and blocking methods over the real fibers; every read compared with a table per fiber"),
 "C36": ("fibersim", "seeded requests from the program and from inside sources, with errors, rewinds and refusals", "the real enumerator code over the real fibers; every delivered value, end, error and what a collection reaches judged by a model"),
 "C37": ("socksim", "seeded threads, other ends, delays, interrupts and system call failures in a simulated kernel", "the real socket methods; every result, error, datum, address and wait judged against the simulated kernel's answers"),
 "C38": ("socksim", "seeded threads, unusable arguments, interrupts, closes and system call failures in a simulated kernel", "the real socket methods; owner, mode and inheritance of every descriptor and every address list judged after each call"),
 "C39": ("waitsim", "seeded threads, readiness changes, signals, closes, spurious wake-ups and failures of the waiting system calls", "the real select and wait methods over simulated streams, kernel waits and clock; every answer compared with the readiness since the call last went on, every wait and limit judged"),
}
NOT_BUILT = "no check built for this property yet"
NA = {
 "C31": "A pure function of the program: compiled and interpreted execution have no schedule, clock, I/O or fault to simulate, and the code generator cannot be built in this environment; deciding it needs translation validation or differential testing, not deterministic simulation.",
 "C32": "A pure function of the input text or number: there is no schedule, clock, I/O or fault that a simulator could choose, so deterministic simulation decides nothing that plain input testing does not.",
}

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        crate, tech, note = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"bash bin/check.sh {crate} {i} quick",
            "thorough_cmd": f"bash bin/check.sh {crate} {i} thorough",
            "technique": "deterministic simulation: " + tech,
            "level": "exploration",
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, NOT_BUILT)})
crates = sorted({c[0] for c in CHECKS.values()})
m = {
    "version": 1,
    "setup_cmd": "bash bin/build.sh " + " ".join(crates),
    "hooks": {"guard": "none", "enable": "no hooks in /repo: the simulators build /repo's crates and modules unmodified", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
