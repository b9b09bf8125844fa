#!/usr/bin/env python3
"""Applies each edit listed in /verif/selftest/*.txt to a scratch copy of /repo and runs checks on it.
Entry:   === bad C04 label        (the named check must report)      or      === ok label   (all checks quiet)
         --- path
         <<<<
         old text
         ====
         new text
         >>>>
Usage: selftest.py [-c C01,C04 checks to run for 'ok' entries] [-k substring] [files]"""
import os, re, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def parse(path):
    out, cur, mode, buf = [], None, None, []
    for line in open(path).read().split("\n"):
        if line.startswith("=== ") and mode is None:
            w = line[4:].split()
            if w[0] == "bad":
                cur = dict(kind="bad", check=w[1].split(","), label=" ".join(w[2:]), edits=[])
            else:
                cur = dict(kind="ok", check=None, label=" ".join(w[1:]), edits=[])
            out.append(cur)
        elif line.startswith("--- ") and mode is None:
            f = line[4:].strip()
        elif line == "<<<<" and mode is None:
            mode, buf = "old", []
        elif line == "====" and mode == "old":
            old, mode, buf = "\n".join(buf), "new", []
        elif line == ">>>>" and mode == "new":
            cur["edits"].append((f, old, "\n".join(buf)))
            mode = None
        elif mode:
            buf.append(line)
    return out


def one(t, checks, slot):
    src = slot
    saved = {}
    try:
        for f, old, new in t["edits"]:
            p = os.path.join(src, f)
            s = open(p).read()
            saved.setdefault(p, s)
            n = s.count(old)
            if n == 0:
                return "EDIT-FAILED %s: %r" % (f, old[:60]), {}
            if n > 1 and not t["label"].endswith("(all)"):
                s = s.replace(old, new, 1)
            else:
                s = s.replace(old, new)
            open(p, "w").write(s)
        res = {}
        env = dict(os.environ, SA_REPO=src)
        r = subprocess.run([sys.executable, "-m", "sa.front"], cwd=V, env=env, capture_output=True, text=True)
        if r.returncode:
            return "PARSE " + (r.stdout + r.stderr)[-600:], {}
        for c in (t["check"] or checks):
            r = subprocess.run([sys.executable, "-m", "sa." + c.lower()], cwd=V, env=dict(env, SA_NOEV="1"), capture_output=True, text=True)
            res[c] = (r.returncode, r.stdout + r.stderr)
        return None, res
    finally:
        for p, s in saved.items():
            open(p, "w").write(s)


def main():
    a = sys.argv[1:]
    checks = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    key, verbose, only, files = "", False, None, []
    while a:
        x = a.pop(0)
        if x == "-c":
            checks = a.pop(0).split(",")
            only = set(checks)
        elif x == "-k":
            key = a.pop(0)
        elif x == "-v":
            verbose = True
        else:
            files.append(x)
    files = files or sorted(os.path.join(V, "selftest", f) for f in os.listdir(V + "/selftest") if f.endswith(".txt"))
    tests = [t for f in files for t in parse(f) if key in t["label"] or key in str(t["check"])]
    if only:
        tests = [t for t in tests if t["kind"] == "ok" or set(t["check"]) & only]
    d = tempfile.mkdtemp(prefix="selftest.", dir="/tmp")
    n = 4
    slots = []
    for i in range(n):
        p = os.path.join(d, str(i))
        os.makedirs(p)
        for x in ("src", "include", "bin", "utils"):
            shutil.copytree(os.path.join(os.environ.get("SELF_REPO", "/repo"), x), os.path.join(p, x))
        slots.append(p)
    import queue
    q = queue.Queue()
    for s in slots:
        q.put(s)

    def work(t):
        s = q.get()
        try:
            return t, one(t, checks, s)
        finally:
            q.put(s)
    bad = 0
    with ThreadPoolExecutor(n) as ex:
        for t, (err, res) in ex.map(work, tests):
            if err:
                print("ERROR ", t["label"], err)
                bad += 1
                continue
            if t["kind"] == "bad":
                ok = all(r == 1 for r, _ in res.values())
            else:
                ok = all(r == 0 for r, _ in res.values())
            bad += not ok
            print("%s %-4s %s %s" % ("ok   " if ok else "WRONG", t["kind"], t["label"], "" if ok else {c: r for c, (r, _) in res.items()}))
            if not ok or verbose:
                for c, (r, o) in res.items():
                    if r or verbose:
                        print("      " + "\n      ".join(l[:260] for l in o.strip().split("\n")[-8:]))
    shutil.rmtree(d)
    print("%d of %d as expected" % (len(tests) - bad, len(tests)))
    return bad != 0


if __name__ == "__main__":
    sys.exit(main())
