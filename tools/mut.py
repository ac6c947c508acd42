#!/usr/bin/env python3
"""mut.py FILE [NAME...]: apply each edit of FILE to a scratch clone of /repo and run checks on it.
FILE is python: a list M of (name, file, old, new, "bug"|"same", [ids or None=all]).  Prints what each edit did."""
import json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
W = int(os.environ.get("W", "5"))
BASE = os.environ.get("MUTDIR", "/tmp/mut")
ns = {}
exec(open(sys.argv[1]).read(), ns)
muts = [m for m in ns["M"] if not sys.argv[2:] or m[0] in sys.argv[2:]]
allids = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
import queue
pool = queue.Queue()
for i in range(W):
    d = BASE + "/r%d" % i
    if not os.path.isdir(d):
        subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    subprocess.run("git checkout -q -- . && git pull -q", shell=True, cwd=d, stderr=subprocess.DEVNULL)
    pool.put(i)

def one(m):
    name, f, old, new, kind, ids = m
    i = pool.get()
    d = BASE + "/r%d" % i
    try:
        edits = [(f, old, new)] if not isinstance(old, list) else [(x if len(x) == 3 else (f,) + tuple(x)) for x in old]
        for f_, o, n in edits:
            p = os.path.join(d, f_)
            s = open(p).read()
            if s.count(o) < 1:
                return "%-28s NOT FOUND: %r" % (name, o[:50])
            open(p, "w").write(s.replace(o, n, 1))
        out = []
        env = dict(os.environ, JMT_REPO=d, JMT_BUILD=BASE + "/b%d" % i, JMT_EVIDENCE=BASE + "/ev%d" % i)
        for k in (allids if os.environ.get("ALLIDS") else ids or allids):
            r = subprocess.run(["python3", os.environ.get("CHK","/verif/sa/check.py"), k], env=env, capture_output=True, text=True, errors="replace")
            if r.returncode == 1:
                msg = [l for l in r.stdout.splitlines() if l and "VIOLATION" not in l and "KNOWN" not in l and not l.startswith("property")]
                out.append("%s: %s" % (k, (msg or ["?"])[0].strip()[:160]))
            elif r.returncode:
                out.append("%s: rc=%d %s" % (k, r.returncode, (r.stderr or r.stdout)[-250:]))
            elif os.environ.get("UND"):
                t = re.search(r"(\d+) undetermined", r.stdout)
                if t and t.group(1) != "0":
                    out.append("(%s: %s undetermined)" % (k, t.group(1)))
        hit = any(not o.startswith("(") for o in out)
        tag = "caught" if hit and kind == "bug" else "MISSED" if kind == "bug" else "quiet" if not hit else "FALSE ALARM"
        return "%-28s %-8s %s" % (name, tag, " | ".join(out)[:420])
    finally:
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d)
        pool.put(i)

with ThreadPoolExecutor(W) as ex:
    for r in ex.map(one, muts):
        print(r, flush=True)
