#!/usr/bin/env python3
"""Decides one property of thingbuf by deterministic simulation.

    check.py build                 build the simulator against /repo's working tree
    check.py C01 [quick|thorough]  seeded search over schedules and fault sequences
    check.py replay FILE [--log]   replay a recorded violation

Exit 0: held on everything explored; 1: violation (with a VIOLATION line);
2: the check itself could not give an answer.
"""
import collections
import json
import os
import re
import signal
import struct
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(ROOT, "sim")
WORK = os.path.join(ROOT, "work")
REPLAYS = os.path.join(ROOT, "replays")
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known", "FINDINGS.txt")

# std: thingbuf with its `std` feature, debug assertions on.
# nostd: `no_std` + `alloc`, without debug assertions, with thingbuf's own spin mutex.
BUILDS = {
    "std": (["--release"], "target-std", "release"),
    "nostd": (["--no-default-features", "--profile", "shipped"], "target-nostd", "shipped"),
}

# A run that ends like this tells us nothing good about any property.
BROKEN = ["panic", "crash", "hang", "relock", "bad-element", "double-free"]
MEMORY = ["data-race", "use-after-free", "alias"]
STUCK = ["deadlock-other", "livelock"]
CLASSES = {
    "C01": ["lost", "duplicate", "phantom", "phantom-failed", "value-lost", "corrupt", "early-visible",
            "closed-early", "sent-after-close", "lost-wakeup-rx"] + MEMORY + STUCK,
    "C02": ["order", "duplicate", "lost", "phantom"],
    "C03": ["lost", "duplicate", "phantom", "phantom-failed", "value-lost", "corrupt", "early-visible", "order",
            "false-empty", "false-full"] + MEMORY + STUCK,
    "C04": ["over-capacity", "false-full", "false-empty", "false-len", "zero-capacity", "alias"],
    "C05": ["corrupt", "early-visible", "stale-element"] + MEMORY,
    "C06": ["lost-wakeup-rx", "lost-wakeup-rx-closed", "false-timeout"] + STUCK,
    "C07": ["stranded-tx", "starved-tx", "lost-wakeup-tx-closed", "false-timeout-tx"] + STUCK,
    "C21": ["unfair-wake"],
    "C08": ["closed-early", "closed-missed-rx", "false-closed-rx", "false-is-closed", "lost-wakeup-rx-closed",
            "lost"] + STUCK,
    "C09": ["closed-missed-tx", "false-closed-tx", "sent-after-close", "lost-wakeup-tx-closed", "error-class",
            "value-lost", "phantom-failed"] + STUCK,
    "C10": ["lost", "duplicate", "phantom", "phantom-failed", "value-lost", "lost-wakeup-rx", "lost-wakeup-rx-closed",
            "lost-wakeup-tx-closed", "stranded-tx", "leak-waker", "leak", "leak-memory", "corrupt", "order",
            "over-capacity", "false-full", "false-empty", "false-len", "closed-missed-rx", "closed-missed-tx",
            "closed-early", "sent-after-close", "early-visible", "stale-element", "false-timeout",
            "false-timeout-tx"] + MEMORY + STUCK,
    "C11": ["timeout-early", "timeout-late", "false-timeout", "false-timeout-tx", "error-class", "phantom-failed", "value-lost",
            "false-closed-tx", "false-closed-rx", "lost-wakeup-rx-closed", "lost-wakeup-tx-closed", "lost", "duplicate",
            "phantom", "order", "corrupt", "lost-wakeup-rx", "stranded-tx", "leak", "leak-memory"] + MEMORY + STUCK,
    "C12": ["leak", "leak-memory", "leak-waker", "alias", "use-after-free", "stale-element"],
    "C13": ["stale-element", "not-reused", "too-many-new", "capacity-lost", "capacity-kept", "corrupt"],
    "C14": ["alloc", "leak-memory"],
    "C15": ["not-nonblocking"],
    "C16": ["lost", "duplicate", "phantom", "phantom-failed", "value-lost", "corrupt", "early-visible", "order",
            "lost-wakeup-rx", "lost-wakeup-rx-closed", "lost-wakeup-tx-closed", "stranded-tx", "closed-missed-rx",
            "closed-missed-tx", "sent-after-close", "closed-early", "leak", "leak-memory", "leak-waker",
            "over-capacity", "false-full", "false-empty", "false-len", "busy-wait", "not-nonblocking",
            "stale-element", "false-closed-rx", "false-closed-tx", "false-is-closed"] + MEMORY + STUCK,
    "C17": ["double-split", "split-refused", "lost", "duplicate", "phantom", "order", "corrupt", "closed-early",
            "closed-missed-rx", "closed-missed-tx", "false-closed-rx", "false-closed-tx", "false-empty", "false-full",
            "over-capacity", "value-lost", "leak", "leak-memory", "lost-wakeup-rx", "lost-wakeup-rx-closed",
            "lost-wakeup-tx-closed", "stranded-tx"] + MEMORY + STUCK,
    "C18": ["busy-wait", "livelock"],
}
# When wakers use the channel, and past the overflow of the position counters,
# everything must hold as before.
CLASSES["C20"] = CLASSES["C19"] = sorted(set(c for v in CLASSES.values() for c in v))
SEARCH_SECS = {"quick": 30, "thorough": 780}
# Part of the workers that run the nostd build (which has no blocking channels).
NOSTD_WORKERS = {"C11": 0}

FAULTS = {
    "spurious_wakeups": "spurious thread wake-ups",
    "spurious_polls": "spurious polls of tasks",
    "stale_waker_wakes": "wakes of outdated wakers",
    "waker_changes": "task moved to another waker between polls",
    "cancelled_unpolled": "futures dropped before the first poll",
    "cancelled_waiting": "futures dropped while waiting",
    "cancelled_after_wake": "futures dropped after being woken",
    "timeouts_send": "send timeouts",
    "timeouts_recv": "receive timeouts",
    "clock_jumps": "clock jumps",
    "timer_jumps": "idle time skipped to the next timer",
    "solo_freezes": "all other threads frozen during a non-waiting call",
    "boundary_holds": "threads stalled between operations",
    "stale_reads": "stale values returned by weakly ordered loads",
    "weak_cas_failures": "spurious failures of weak compare-exchange",
    "panics_in_ref": "panics while holding a reference",
    "panics_in_closure": "panics inside a user closure",
    "panics_with_handles": "threads panicking with handles",
    "reentrant_wakes": "wakers sending or dropping handles and pending sends",
    "clone_panics": "wakers that panic when the library clones them",
    "second_futures": "tasks polling and dropping a second receive future",
    "fans": "tasks awaiting many sends at once",
    "rx_moved": "receiver handed from one thread to another",
    "inline_polls": "executors polling a task inside its wake()",
    "rx_dropped_early": "receiver dropped while senders were active",
    "refs_held": "references held across other operations",
    "lock_blocks": "threads blocked on the internal lock",
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(names, preset=True):
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    if not preset:
        env["RUSTFLAGS"] = "--cfg thingbuf_sim -A warnings"
    procs = {}
    for n in names:
        args, tdir, _ = BUILDS[n]
        procs[n] = subprocess.Popen(
            ["cargo", "build", "--offline", "--locked", "--quiet", "--target-dir", os.path.join(SIM, tdir)] + args,
            cwd=SIM, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = True
    for n, p in procs.items():
        out, _ = p.communicate()
        if p.returncode != 0:
            ok = False
            log("building the simulator (%s) failed:\n%s" % (n, out[-6000:]))
    if not ok and preset:
        # The hook that presets the position counters names private fields of the
        # queue; everything else can still be decided without it.
        log("building once more without the counter preset hook")
        return build(names, preset=False)
    if not ok:
        sys.exit(2)
    return preset


def binary(n):
    _, tdir, prof = BUILDS[n]
    return os.path.join(SIM, tdir, prof, "tbsim")


class Worker(threading.Thread):
    """Searches one residue class of seeds, in a process of its own that is
    started again whenever a run ended half-way."""

    def __init__(self, prop, idx, stride, base, bld, deadline, stop):
        super().__init__(daemon=True)
        self.prop, self.idx, self.stride, self.bld = prop, idx, stride, bld
        self.seed = base + idx
        self.deadline, self.stop = deadline, stop
        self.res = []
        self.found = None
        self.odd = []
        self.proc = None
        self.error = None
        self.other = collections.Counter()

    def progress(self):
        try:
            with open(self.pfile, "rb") as f:
                return struct.unpack("<QQQ", f.read(24))
        except Exception:
            return (0, 0, 0)

    def run(self):
        try:
            self.loop()
        except Exception as e:  # noqa
            self.error = repr(e)

    def loop(self):
        self.pfile = os.path.join(WORK, "%s.%d.prog" % (self.prop, self.idx))
        while not self.stop.is_set():
            rem = self.deadline - time.time()
            if rem < 0.5:
                return
            try:
                os.unlink(self.pfile)
            except FileNotFoundError:
                pass
            cmd = [binary(self.bld), "search", "--prop", self.prop, "--start", str(self.seed), "--stride",
                   str(self.stride), "--secs", str(max(1, int(rem))), "--progress", self.pfile,
                   "--classes", ",".join(CLASSES[self.prop] + BROKEN),
                   "--bitmap", os.path.join(WORK, "%s.%s.bits" % (self.prop, self.bld))]
            self.proc = p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            out = [None]
            rd = threading.Thread(target=lambda: out.__setitem__(0, p.stdout.read()), daemon=True)
            rd.start()
            last, since, hung = None, time.time(), False
            while p.poll() is None:
                time.sleep(0.05)
                if self.stop.is_set():
                    p.kill()
                    break
                pr = self.progress()
                if pr != last:
                    last, since = pr, time.time()
                elif time.time() - since > 25:
                    hung = True
                    p.kill()
                    break
            p.wait()
            rd.join(5)
            if self.stop.is_set():
                return
            d = None
            if not hung:
                try:
                    d = json.loads(out[0])
                except Exception:
                    d = None
            if d is None:
                seed, runs, _ = self.progress()
                if seed == 0:
                    self.error = "the simulator did not start (exit %s)" % p.returncode
                    return
                self.res.append({"runs": runs, "lost": True})
                cls = self.confirm(seed)
                if cls:
                    self.found = {"seed": seed, "class": cls[0], "msg": cls[1], "build": self.bld}
                    self.stop.set()
                    return
                self.odd.append({"seed": seed, "exit": p.returncode, "hung": hung})
                self.seed = seed + self.stride
                continue
            self.res.append(d)
            self.seed = d["next"]
            if d["violation"]:
                self.found = dict(d["violation"], build=self.bld)
                self.stop.set()
                return
            for k, v in d["classes"].items():
                self.other[k] += v

    def confirm(self, seed):
        """A process died or hung in this run: does it do so again?"""
        cmd = [binary(self.bld), "search", "--prop", self.prop, "--start", str(seed), "--runs", "1", "--secs", "60",
               "--classes", ",".join(CLASSES[self.prop] + BROKEN)]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=40)
        except subprocess.TimeoutExpired:
            return ("hang", "the run never ends: an operation loops without a step the scheduler can see")
        try:
            d = json.loads(p.stdout)
        except Exception:
            return ("crash", "the run ends the process (exit %s): %s" % (p.returncode, p.stderr.strip()[-300:]))
        if d["violation"]:
            return (d["violation"]["class"], d["violation"]["msg"])
        return None


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) replay=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((os.path.join(ROOT, "known", m.group(2)), m.group(3)))
    return out


def replay(path, extra=()):
    bld = "std"
    for l in open(path):
        if l.startswith("build "):
            bld = l.split()[1]
    return subprocess.run([binary(bld), "replay", path] + list(extra), capture_output=True, text=True, timeout=120)


def report(prop, f):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s-%d.txt" % (prop, f["class"], f["seed"]))
    raw = path + ".full"
    info = None
    try:
        p = subprocess.run([binary(f["build"]), "minimise", "--seed", str(f["seed"]), "--prop", prop, "--class",
                            f["class"], "--out", path, "--secs", "40"], capture_output=True, text=True, timeout=240)
        info = json.loads(p.stdout.strip().splitlines()[-1])
    except Exception as e:
        log("minimisation failed: %r" % e)
    if not os.path.exists(path):
        subprocess.run([binary(f["build"]), "search", "--prop", prop, "--start", str(f["seed"]), "--runs", "1",
                        "--out", path], capture_output=True, text=True, timeout=60)
    again = "not run"
    if f["class"] not in ("crash", "hang"):
        try:
            r = replay(path)
            again = "reproduced, %s execution" % ("identical" if "identical" in r.stdout else "different") \
                if r.returncode == 1 else "NOT reproduced"
        except Exception as e:
            again = "failed: %r" % e
    log("violation of %s: %s: %s" % (prop, f["class"], f["msg"]))
    log("seed %d (%s build); minimised: %s; replay: %s" % (f["seed"], f["build"], json.dumps(info), again))
    return path, info, again


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    preset = build(["std", "nostd"])
    built = time.time()
    ncpu = max(2, min(8, os.cpu_count() or 2))
    nno = NOSTD_WORKERS.get(prop, max(1, ncpu // 4))
    secs = float(os.environ.get("VERIF_SECS", SEARCH_SECS[tier]))
    for b in BUILDS:
        try:
            os.unlink(os.path.join(WORK, "%s.%s.bits" % (prop, b)))
        except FileNotFoundError:
            pass
    stop = threading.Event()
    deadline = time.time() + secs
    base = (seed * 1_000_003 % (1 << 20)) << 40 | 1
    ws = []
    for i in range(ncpu - nno):
        ws.append(Worker(prop, i, ncpu - nno, base, "std", deadline, stop))
    for i in range(nno):
        ws.append(Worker(prop, 64 + i, nno, base + (1 << 39), "nostd", deadline, stop))
    for w in ws:
        w.start()
    for w in ws:
        w.join()
    searched = time.time() - built
    tot = collections.Counter()
    cnt = collections.Counter()
    kinds = collections.Counter()
    other = collections.Counter()
    samples, perb, errors, odd = [], collections.Counter(), [], []
    max_steps = 0
    for w in ws:
        if w.error:
            errors.append(w.error)
        odd += w.odd
        other.update(w.other)
        for d in w.res:
            for k in ("runs", "nontrivial", "distinct", "replays", "mismatches", "decisions"):
                tot[k] += d.get(k, 0)
            perb[w.bld] += d["runs"]
            cnt.update(d.get("counters", {}))
            kinds.update(d.get("kinds", {}))
            max_steps = max(max_steps, d.get("max_steps", 0))
            if len(samples) < 3 and d.get("samples"):
                samples.append(d["samples"][-1])
    found = [w.found for w in ws if w.found]
    found.sort(key=lambda f: f["seed"])
    rc = 0
    vio = None
    known = []
    if found:
        f = found[0]
        path, info, again = report(prop, f)
        vio = {"seed": f["seed"], "build": f["build"], "class": f["class"], "message": f["msg"], "replay": path,
               "minimised": info, "replayed": again}
        rc = 1
    else:
        for path, what in known_findings(prop):
            r = replay(path)
            if r.returncode != 0:
                known.append(what)
    if rc == 0:
        if errors:
            log("errors: %s" % errors[:3])
            rc = 2
        elif tot["mismatches"]:
            log("replayed runs differed: the simulation is not deterministic")
            rc = 2
        elif tot["runs"] < 200:
            log("only %d runs were possible" % tot["runs"])
            rc = 2
    wall = time.time() - t0
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": tot["distinct"],
            "rule": "one evaluation is one simulated run: a plan (flavour, capacity, threads and their operations, "
                    "fault rates) and every scheduling and fault decision derived from one seed. Non-trivial: at "
                    "least 4 context switches and at least one message transferred (or a split or collection "
                    "scenario). Distinct: by a hash of the plan and of the executed sequence of (thread, kind of "
                    "step) and values, counted in a shared bitmap of 2^27 bits (collisions make it a lower bound).",
            "samples": samples,
            "nontrivial_runs": tot["nontrivial"],
            "runs_per_hour": int(tot["runs"] / max(searched, 0.1) * 3600),
            "seeds": "%d.. in steps of %d (std), %d.. (nostd)" % (base, ncpu - nno, base + (1 << 39) + 64),
            "runs_per_build": dict(perb),
            "simulated_time_s": cnt["sim_ns"] / 1e9,
            "scheduler_steps": cnt["steps"],
            "scheduling_decisions": tot["decisions"],
            "context_switches": cnt["switches"],
            "longest_run_steps": max_steps,
            "messages": cnt["messages"],
            "faults_injected": {FAULTS[k]: cnt[k] for k in FAULTS},
            "outcomes_seen": {k: cnt[k] for k in ("full_results", "empty_results", "closed_results", "parks",
                                                  "unparks", "line_wakes", "task_waits", "task_wakes", "handles_cloned",
                                                  "handles_dropped", "laps", "split_races")},
            "counter_overflow_hook": "available" if preset else "did not build: no run starts near the overflow",
            "scenarios": dict(kinds),
            "replayed_runs": tot["replays"],
            "replays_that_differed": tot["mismatches"],
            "violation_classes_of_this_check": sorted(set(CLASSES[prop] + BROKEN)),
            "violations_of_other_properties_seen": dict(other),
            "unconfirmed_process_ends": odd[:5],
            "real_code": "all of thingbuf: ring buffer, wait cell, wait queue, channels, references, recycling, "
                         "and in the nostd build its spin mutex",
            "stubs": "atomics, UnsafeCell, thread park/unpark/yield, Instant and (std build) the mutex are the "
                     "simulator's, through thingbuf's own loom seam; threads are coroutines; async tasks run on the "
                     "simulator's executor; the global allocator is an instrumented arena",
            "search_s": round(searched, 2),
        },
        "assumptions": [
            "the simulated memory model (happens-before tracking, stale reads for loads that are not SeqCst) covers "
            "a subset of the behaviours the language memory model allows",
            "the scheduler switches at operations of the seam only; code between two of them runs uninterrupted",
            "bounds: at most 6 threads, capacities 1 to 9, up to about 60 operations per run",
        ],
        "wall_s": round(wall, 2),
        "violations": 1 if vio else 0,
    }
    if vio:
        ev["coverage"]["violation"] = vio
    if known:
        ev["coverage"]["known_findings"] = known
    tmp = os.path.join(EVID, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))
    for what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if vio:
        print("VIOLATION property=%s replay=%s" % (prop, vio["replay"]))
    elif rc == 0:
        print("%s held: %d runs, %d distinct non-trivial, %.0f s" % (prop, tot["runs"], tot["distinct"], wall))
    return rc


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "build":
        build(list(BUILDS))
        return 0
    if a[0] == "replay":
        build(list(BUILDS))
        r = replay(a[1], a[2:])
        print(r.stdout, end="")
        return r.returncode
    if a[0] not in CLASSES:
        log("unknown property", a[0])
        return 2
    return check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))


if __name__ == "__main__":
    sys.exit(main())
