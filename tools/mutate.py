#!/usr/bin/env python3
"""Measures the simulator against mechanical changes of /repo's source.

    mutate.py list                      the mutants
    mutate.py run OUT.jsonl [LANES] [REGEX]
    mutate.py props OUT.jsonl IN.jsonl [LANES]   each property's own check on the given mutants

A mutant is {id, file, line, new} or {id, edits: [[file, old, new], ...]}; LANE=n numbers the copies from n.

Works on copies under /tmp/mut only. Not part of any check."""
import json, os, re, shutil, subprocess, sys, threading, queue, time, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/mut"
FILES = ["src/lib.rs", "src/mpsc.rs", "src/mpsc/async_impl.rs", "src/mpsc/blocking.rs", "src/mpsc/errors.rs",
         "src/recycling.rs", "src/static_thingbuf.rs", "src/thingbuf.rs", "src/util.rs", "src/util/mutex/spin_impl.rs",
         "src/util/panic.rs", "src/wait.rs", "src/wait/cell.rs", "src/wait/queue.rs"]


def code_lines(path):
    src = open("/repo/" + path).read().split("\n")
    skip, depth = False, 0
    for i, l in enumerate(src):
        s = l.strip()
        if re.match(r"#\[cfg\((all\()?(test|loom)|#\[cfg\(all\(test|#\[cfg\(all\(loom|#\[cfg\(loom", s):
            skip = "arm"
            continue
        if skip == "arm":
            if s.startswith("#["):
                continue
            depth = l.count("{") - l.count("}")
            skip = depth > 0 and "in"
            continue
        if skip == "in":
            depth += l.count("{") - l.count("}")
            if depth <= 0:
                skip = False
            continue
        if s.startswith("//") or s.startswith("#") or s.startswith("use ") or s.startswith("pub use"):
            continue
        yield i, l


def mutants():
    out = []
    for f in FILES:
        if not os.path.exists("/repo/" + f):
            continue
        for i, l in code_lines(f):
            code = re.sub(r"//.*", "", l)
            c = code.strip()
            if not c or "test_println" in c or "debug_assert" in c:
                continue

            def add(kind, new):
                if new != l:
                    out.append((f, i, kind, new))
            for m in re.finditer(r"\b(SeqCst|AcqRel|Acquire|Release)\b", code):
                add("relaxed", l[:m.start()] + "Relaxed" + l[m.end():])
            if re.search(r"\b(load|store|swap|fetch_\w+|lock|notify|close\w*|remove|wait\w*|take\w*|set_\w+|drop\w*|clear|shrink_to|recycle|spin\w*|enqueue|unlock)\(.*\);$", c) and not re.match(r"(let|return)\b", c):
                add("delete", re.match(r"\s*", l).group() + ";")
            if re.match(r"(\*?[\w.]+) (=|\+=) .*;$", c):
                add("delete", re.match(r"\s*", l).group() + ";")
            for a, b in [(" == ", " != "), (" != ", " == "), (" < ", " <= "), (" > ", " >= "), (" >= ", " > "), (" <= ", " < "),
                         (" && ", " || "), (" || ", " && "), (" + 1", ""), (" - 1", ""), ("> 1", "> 0"), ("> 1", "> 2"),
                         (" | ", " & "), (" & ", " | "), ("true", "false"), ("false", "true"), ("Some(ptr)", "None"),
                         ("&mut *slot = ", "let _ = "), ("self.max", "self.min"), ("self.min", "self.max"),
                         ("Ready(None)", "Pending"), ("WaitResult::Notified", "WaitResult::Wait"), ("WaitResult::Wait", "WaitResult::Notified"),
                         ("WaitResult::Closed", "WaitResult::Wait"), ("WaitResult::Closed", "WaitResult::Notified"), ("WaitResult::Wait", "WaitResult::Closed"),
                         ("TrySendError::Closed", "TrySendError::Full"), ("TrySendError::Full", "TrySendError::Closed"),
                         ("TryRecvError::Closed", "TryRecvError::Empty"), ("TryRecvError::Empty", "TryRecvError::Closed"),
                         ("TimeoutError::Closed", "TimeoutError::Timeout"), ("TimeoutError::Timeout", "TimeoutError::Closed"),
                         ("State::Start", "State::Done"), ("State::Start", "State::Waiting"), ("State::Waiting", "State::Start"), ("State::Waiting", "State::Done"),
                         ("State::Done", "State::Start"), ("State::Done", "State::Waiting"),
                         ("State::TX_CLOSED", "State::WAITING"), ("State::NOTIFYING", "State::TX_CLOSED"), ("State::PARKING", "State::WAITING"),
                         ("State::WAITING", "State::NOTIFYING"), ("break", "continue"), ("continue", "break"),
                         ("thread::park()", "thread::yield_now()"), ("spin_loop()", "black_box(())"), ("self.capacity", "self.closed"),
                         ("done_spinning()", "done_spinning() || true"), ("self.gen", "self.closed"), ("self.closed", "self.gen"),
                         (".replace(", ".get_or_insert("), ("head_idx", "tail_idx"), ("tail_idx", "head_idx"), ("prev", "next"), ("next", "prev"),
                         ("self.head", "self.tail"), ("self.tail", "self.head"), ("self.rx_wait", "self.tx_wait"),
                         ("timeout - elapsed", "timeout"), ("elapsed < timeout", "elapsed <= timeout")]:
                for m in re.finditer(re.escape(a), code):
                    add("%s->%s" % (a.strip(), b.strip()), l[:m.start()] + b + l[m.end():])
            if f.endswith("queue.rs"):
                for m in re.finditer(r"\b(EMPTY|WAITING|WAKING|CLOSED)\b", code):
                    if "const" in c:
                        continue
                    for k in ("EMPTY", "WAITING", "WAKING", "CLOSED"):
                        if k != m.group():
                            add("%s->%s" % (m.group(), k), l[:m.start()] + k + l[m.end():])
            m = re.match(r"(\s*(?:\} else )?if )(?!let)(.*)( \{)$", code.rstrip())
            if m:
                add("never", m.group(1) + "false && (" + m.group(2) + ")" + m.group(3))
                add("always", m.group(1) + "true || (" + m.group(2) + ")" + m.group(3))
            m = re.search(r"([\w.]+)\.fetch_(add|sub|or|and)\(([^,]*), (.*?)\)", code)
            if m and m.group(3).strip() != "0" and "State(" not in c:
                op = {"add": "+", "sub": "-", "or": "|", "and": "&"}[m.group(2)]
                add("split", code[:m.start()] + "{ let v = %s.load(SEQ); %s.store(v %s (%s), SEQ); v }" % (m.group(1), m.group(1), op, m.group(3)) + code[m.end():])
            m = re.search(r"([\w.]+)\.swap\(([^,]*), (.*?)\)", code)
            if m:
                add("split", code[:m.start()] + "{ let v = %s.load(SEQ); %s.store(%s, SEQ); v }" % (m.group(1), m.group(1), m.group(2)) + code[m.end():])
    for f in FILES:
        if os.path.exists("/repo/" + f):
            out += structural(f)
    seen, res = set(), []
    for f, i, kind, new in out:
        new = new.replace("SEQ", "core::sync::atomic::Ordering::SeqCst")
        if (f, i, new) in seen:
            continue
        seen.add((f, i, new))
        r = dict(id=hashlib.sha1(("%s:%d:%s" % (f, i, new)).encode()).hexdigest()[:8], file=f, line=i + 1, kind=kind, new=new)
        if "\0" in new:
            # a change of several lines: NEW \0 number of lines replaced
            r["new"], n = new.split("\0")
            r["n"] = int(n)
        res.append(r)
    return res


def structural(f):
    """Changes of whole statements: two neighbours exchanged, one done twice, a guard dropped at once, a strong
    compare-exchange made weak, a negation or an early return lost."""
    src = open("/repo/" + f).read().split("\n")
    code = dict(code_lines(f))
    out = []
    # statements: runs of lines from one at depth 0 of its block to the ';' or '}' that ends it
    sts = []
    i = 0
    starts = set()
    while i < len(src):
        l = re.sub(r"//.*", "", src[i]).strip() if i in code else ""
        if l and not l.startswith(("}", ")", "]", ".", "|", "&&", "||", "#", "fn ", "pub ", "impl", "struct", "mod ", "where", "else", "_ =>", "unsafe impl", "type ", "const ", "static ", "use ")) and "=>" not in l.split("{")[0]:
            d, j = 0, i
            while j < len(src):
                t = re.sub(r"//.*", "", src[j])
                t = re.sub(r"'.'|\"[^\"]*\"", "", t)
                d += sum(t.count(c) for c in "([{") - sum(t.count(c) for c in ")]}")
                t = t.strip()
                if d <= 0 and (t.endswith(";") or t.endswith("}")):
                    break
                if d < 0:
                    break
                j += 1
            if d == 0 and j < len(src) and j - i < 25:
                sts.append((i, j))
        i += 1
    ends = {a: b for a, b in sts}
    ind = lambda k: len(src[k]) - len(src[k].lstrip())
    for a, b in sts:
        c = "\n".join(src[a:b + 1])
        if "test_println" in c or "debug_assert" in c:
            continue
        k = b + 1
        while k < len(src) and (not src[k].strip() or src[k].strip().startswith("//") or "test_println" in src[k]):
            k += 1
        dull = r"^\s*(test_dbg!\(\w+\);|(backoff|\w+ = |continue|hint::).*)$"
        if k in ends and ind(k) == ind(a) > 0 and "sim::" not in c and not re.match(dull, c) and not re.match(dull, src[k]):
            e = ends[k]
            c2 = "\n".join(src[k:e + 1])
            if "debug_assert" not in c2:
                if not (re.match(r"\s*let [\w(), ]+ = [^!]*;$", c) and re.match(r"\s*let [\w(), ]+ = [^!]*;$", c2) and not re.search(r"load|Instant", c + c2)):
                    out.append((f, a, "swap", c2 + "\n" + c + "\0%d" % (e - a + 1)))
        if c.rstrip().endswith(";") and not re.match(r"\s*(let|return|break|continue|assert)", c) and not re.match(dull, c):
            out.append((f, a, "twice", c + "\n" + c + "\0%d" % (b - a + 1)))
            if b > a:
                out.append((f, a, "delete", ";" + "\0%d" % (b - a + 1)))
        m = re.match(r"(\s*let )(?:mut )?(\w+)( = .*)", c, re.S)
        if m and (m.group(2).startswith("_") or not re.search(r"\b%s\b" % m.group(2), "\n".join(src[b + 1:b + 40]))):
            out.append((f, a, "let_", m.group(1) + "_" + m.group(3) + "\0%d" % (b - a + 1)))
        if re.match(r"\s*return\b.*;$", c):
            out.append((f, a, "delete", ";" + "\0%d" % (b - a + 1)))
    for i, l in code.items():
        c = re.sub(r"//.*", "", l)
        if not c.strip() or "test_println" in c or "debug_assert" in c:
            continue
        for m in re.finditer(r"compare_exchange\b", c):
            out.append((f, i, "weak", l[:m.end()] + "_weak" + l[m.end():]))
        for m in re.finditer(r"(?<![\w#\])])!(?=[\w(])", c):
            out.append((f, i, "!", l[:m.start()] + l[m.end():]))
        for a, b in [("wrapping_add(", "saturating_add("), ("wrapping_sub(", "saturating_sub("), ("checked_sub(", "checked_add("), (".next_power_of_two()", ""), (".unwrap_or(0)", ".unwrap_or(1)"), (".take()", ".as_ref()"), ("Some(", "None.or(Some("), (".max(", ".min("), (".min(", ".max("), (" - ", " + "), (" + ", " - "), (" << ", " >> "), ("mem::replace(", "Some("), ("thread::park_timeout(", "thread::sleep("), ("will_wake", "will_wake"), (".is_some()", ".is_none()"), (".is_none()", ".is_some()"), (".is_ok()", ".is_err()"), (".is_err()", ".is_ok()"), ("Poll::Pending", "Poll::Ready(None)"), ("None", "Some(())")]:
            for m in re.finditer(re.escape(a), c):
                if a != b:
                    out.append((f, i, "%s->%s" % (a.strip(), b.strip()), l[:m.start()] + b + l[m.end():]))
        m = re.search(r"(?<![\w.])(\d+)(?![\w.])", c)
        if m and not re.search(r"\[|#", c):
            for v in (int(m.group(1)) + 1, int(m.group(1)) - 1):
                if v >= 0:
                    out.append((f, i, "number", l[:m.start()] + str(v) + l[m.end():]))
    return out


def lane_setup(k):
    d = "%s/%d" % (BASE, k)
    os.makedirs(d + "/repo", exist_ok=True)
    for x in ("src", "tests", "README.md"):
        p = d + "/repo/" + x
        if os.path.isdir(p):
            shutil.rmtree(p)
        if os.path.isdir("/repo/" + x):
            shutil.copytree("/repo/" + x, p)
        elif os.path.exists("/repo/" + x):
            shutil.copy("/repo/" + x, p)
    s = open("/repo/Cargo.toml").read()
    s = "\n".join(l for l in s.split("\n") if not re.match(r"loom *=", l) and "bench" not in l)
    open(d + "/repo/Cargo.toml", "w").write(s)
    shutil.copy("/opt/vp/ws/Cargo.lock", d + "/repo/Cargo.lock")
    if os.path.isdir(d + "/sim"):
        shutil.rmtree(d + "/sim")
    shutil.copytree(V + "/sim", d + "/sim", ignore=shutil.ignore_patterns("target*"))
    t = open(d + "/sim/Cargo.toml").read().replace('path = "/repo"', 'path = "%s/repo"' % d)
    open(d + "/sim/Cargo.toml", "w").write(t)
    return d


ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="0")
BUILDS = {"std": (["--release"], "release"), "nostd": (["--no-default-features", "--profile", "shipped"], "shipped")}


def build(d):
    for n, (a, prof) in BUILDS.items():
        p = subprocess.run(["cargo", "build", "--offline", "-q", "-j", "3", "--target-dir", "%s/t-%s" % (d, n)] + a, cwd=d + "/sim", env=ENV,
                           capture_output=True, text=True)
        if p.returncode:
            return p.stderr
    return None


def binary(d, n):
    return "%s/t-%s/%s/tbsim" % (d, n, BUILDS[n][1])


def search(d, prop, classes, secs, start=1):
    """First violation of one std and one nostd search side by side."""
    ps = []
    for n in BUILDS:
        if prop == "C11" and n == "nostd":
            continue
        cmd = ["timeout", str(secs + 25), binary(d, n), "search", "--prop", prop, "--start", str(start), "--secs", str(secs)]
        if classes:
            cmd += ["--classes", ",".join(classes)]
        ps.append((n, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
    t0 = time.time()
    hit = None
    pend = list(ps)
    while pend and not hit:
        time.sleep(0.05)
        for n, p in list(pend):
            if p.poll() is None:
                continue
            pend.remove((n, p))
            o = p.stdout.read()
            try:
                j = json.loads(o)
            except Exception:
                hit = ("hang" if p.returncode == 124 else "crash", "exit %s" % p.returncode, n)
                continue
            if j["violation"]:
                hit = (j["violation"]["class"], j["violation"]["msg"][:120], n)
            elif j["classes"] and time.time() - t0 < secs:
                # a violation of another class ended the process: go on
                q = subprocess.Popen([x if x != str(start) else str(j["next"]) for x in p.args], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                pend.append((n, q))
    for n, p in pend:
        p.kill()
    return hit, round(time.time() - t0, 1)


def tests(d):
    for extra in (["--lib", "--tests"], ["--doc"]):
        try:
            p = subprocess.run(["cargo", "test", "--all-features", "--offline", "-q", "-j", "3"] + extra, cwd=d + "/repo",
                               env=dict(ENV, CARGO_TARGET_DIR=d + "/t-test"), capture_output=True, text=True, timeout=200)
        except subprocess.TimeoutExpired:
            return "hang"
        if p.returncode:
            return "fail"
    return "pass"


def apply(d, m):
    if "edits" in m:
        orig = {}
        for f, old, new in m["edits"]:
            p = d + "/repo/" + f
            s = open(p).read()
            orig.setdefault(p, s)
            assert old in s, (m["id"], old)
            open(p, "w").write(s.replace(old, new))
        return orig, None
    p = d + "/repo/" + m["file"]
    orig = open(p).read()
    ls = orig.split("\n")
    ls[m["line"] - 1:m["line"] - 1 + m.get("n", 1)] = [m["new"]]
    open(p, "w").write("\n".join(ls))
    return p, orig


def undo(p, orig):
    for p, o in (p.items() if isinstance(p, dict) else [(p, orig)]):
        open(p, "w").write(o)


def one(d, m):
    p, orig = apply(d, m)
    r = dict(m)
    try:
        e = build(d)
        if e:
            r["result"] = "no-build"
            return r
        hit, t = search(d, "", None, 10)
        if not hit:
            hit, t2 = search(d, "", None, 40, start=10_000_000)
            t += t2
        r["secs"] = t
        if hit:
            r.update(result="caught", cls=hit[0], msg=hit[1], build=hit[2])
        else:
            r["tests"] = tests(d)
            r["result"] = "survived" if r["tests"] == "pass" else "tests-only"
        return r
    finally:
        undo(p, orig)


def props(d, m):
    sys.path.insert(0, V)
    import check
    p, orig = apply(d, m)
    r = dict(m)
    r.pop("msg", None)
    try:
        if build(d):
            r["result"] = "no-build"
            return r
        r["by"] = {}
        for pr in sorted(check.CLASSES):
            hit, t = search(d, pr, check.CLASSES[pr] + check.BROKEN, 8)
            if hit:
                r["by"][pr] = [hit[0], t]
        r["tests"] = tests(d)
        return r
    finally:
        undo(p, orig)


def campaign(ms, out, lanes, fn):
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    q = queue.Queue()
    for m in ms:
        if m["id"] not in done:
            q.put(m)
    lock = threading.Lock()

    base = int(os.environ.get("LANE", "0"))

    def work(k):
        d = lane_setup(base + k)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            r = fn(d, m)
            with lock:
                with open(out, "a") as f:
                    f.write(json.dumps(r) + "\n")
    ts = [threading.Thread(target=work, args=(k,)) for k in range(lanes)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    if sys.argv[1] == "list":
        ms = mutants()
        for m in ms:
            print(m["id"], m["file"], m["line"], m["kind"], m["new"].strip())
        print(len(ms), file=sys.stderr)
    elif sys.argv[1] == "run":
        ms = mutants()
        if len(sys.argv) > 4:
            ms = [m for m in ms if re.search(sys.argv[4], m["file"] + ":" + str(m["line"]) + ":" + m["kind"])]
        campaign(ms, sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 4, one)
    else:
        ms = [json.loads(l) for l in open(sys.argv[3])]
        campaign(ms, sys.argv[2], int(sys.argv[4]) if len(sys.argv) > 4 else 4, props)
