#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("Seeded search over simulated executions of the real code, not a proof: a quick run explores a few million "
          "schedules with at most 11 threads (mostly 2 to 5), capacities 1 to 300 (mostly 1 to 9) and about 60 operations. Trusted: the simulator's "
          "scheduler, memory model (a subset of what the language allows), clock and allocator, and the oracle. ")
NOTE = {
 "C01": "Every message has a serial number and a checksum; deliveries are matched against sends in the recorded history.",
 "C02": "Order of receives is compared with the happens-before order of the sends' claims, in strong and weak memory runs.",
 "C03": "Interval-based linearizability conditions for a FIFO queue, over histories of several producers and consumers that are drained at the end.",
 "C04": "Occupancy is bounded at every step; every refusal, empty result and length is checked against what was possible during the call.",
 "C05": "Vector-clock race detection on every cell access and on the user's own accesses, weak-memory stale reads, checksums, aliasing registry.",
 "C06": "Whenever nothing can run, a sleeping receiver with a message at the front or no senders left is a violation.",
 "C07": "Whenever nothing can run, a sleeping sender with an empty queue or no receiver is a violation, and so is a waiting sender that three later ones are woken before; the faults are cancellation, timeouts, lost races.",
 "C08": "Close reports are compared with the handles' lifetimes and the undelivered messages; handles also go away by panics.",
 "C09": "As C08 for the sending side, including senders asleep at the drop and the returned errors' own classification.",
 "C10": "Runs with abandoned waits at every stage; the freed wait nodes' memory is poisoned and never reused, so any later touch is seen.",
 "C11": "The clock is virtual: lateness and earliness of timeouts are exact. Only the std build has timed operations.",
 "C12": "Every element's construction and drop is recorded; memory is never reused within a run, so double drops and leaks are exact. One known finding (a panicking recycling policy).",
 "C13": "By-reference sends check what they find in the element; a user policy counts creations and resets; collections are followed by length and capacity.",
 "C14": "The allocator knows whether library code of a constructed queue is running: any allocation then is a violation; all memory must be back at the end.",
 "C15": "At random points all other threads freeze and the non-waiting call must finish within a bounded number of its own steps.",
 "C16": "Panics injected while holding references, in closures and with handles; then all other oracles apply to the survivors.",
 "C17": "Threads race to split static channels, the winner passes messages through its pair.",
 "C18": "Other threads are held between operations; a waiting call must sleep within a bounded number of its own steps and not wake by itself.",
 "C19": "A hook presets the counters of an unused queue to the state of a queue one to five laps before the overflow; all other oracles then apply.",
 "C21": "A sender that slept before another's send began must not be woken by an operation that starts after the other was woken, nor still sleep when nothing runs.",
 "C20": "Executors that poll inside wake(), and wakers that send or drop handles and pending sends when woken, cloned or dropped; all other oracles then apply.",
}
checks = [dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
               evidence_file="evidence/%s.json" % p, technique="deterministic simulation with fault injection",
               level="exploration", level_note=COMMON + NOTE[p]) for p in sorted(NOTE)]
NA = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in reversed(log) if l.split(" ", 1)[1].startswith("hook:")]
m = dict(version=1, setup_cmd="python3 check.py build",
         hooks=dict(guard="thingbuf_sim", enable="sim/.cargo/config.toml passes --cfg thingbuf_sim (and thingbuf_sim_preset for the counter preset) to rustc; the simulator in /verif/sim depends on /repo by path", source_commits=hooks),
         checks=checks, not_applicable=NA,
         notes="Known findings: known/FINDINGS.txt. Design, bounds and the table of planted changes: DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
