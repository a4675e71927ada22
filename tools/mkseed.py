#!/usr/bin/env python3
"""mkseed.py SPEC.py: turns specs into /verif/seeded/<id>/ directories.
A spec calls seed(id, property, needs, breaks, [(file, old, new), ...], demo_rs)."""
import json, os, shutil, subprocess, sys
REPO = os.environ.get("REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def seed(id, prop, needs, breaks, edits, demo):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(["git", "-C", REPO, "status", "--porcelain"], capture_output=True, text=True).stdout == ""
    try:
        for e in edits:
            f, old, new = e[:3]
            p = os.path.join(REPO, f)
            s = open(p).read()
            if len(e) > 3:  # the n-th occurrence
                parts = s.split(old)
                n = e[3]
                s = old.join(parts[:n]) + new + old.join(parts[n:])
            else:
                assert s.count(old) == 1, "%s: %s: %d matches of %r" % (id, f, s.count(old), old[:60])
                s = s.replace(old, new)
            open(p, "w").write(s)
        diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    demo = demo.lstrip("\n")
    open(os.path.join(d, "demo.rs"), "w").write(demo)
    if demo.startswith("// mode: mini"):
        shutil.copy(os.path.join(V, "tools/demo/mini.rs"), d)
    shutil.copy(os.path.join(V, "tools/demo/demo.sh"), d)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(id)

if __name__ == "__main__":
    exec(open(sys.argv[1]).read())
