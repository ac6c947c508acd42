#!/usr/bin/env python3
"""body.py [FILES]: every function outside tests emptied, one at a time (its body replaced by a value of its type),
against the checks of its file, in scratch clones; prints the changes no check reports."""
import os, re, subprocess, sys, queue
from concurrent.futures import ThreadPoolExecutor
BASE = os.environ.get("MUTDIR", "/tmp/body")
W = int(os.environ.get("W", "3"))
CHK = os.environ.get("CHK", "/verif/sa/check.py")
IDS = {
    "src/types/proof/definition.rs": "C01 C02 C03 C04 C05 C12 C31", "src/types/proof.rs": "C06 C12 C03 C01 C31",
    "src/iterator.rs": "C26 C32", "src/bytes32ext.rs": "C11", "src/types/nibble.rs": "C11 C12 C31",
    "src/types/nibble/nibble_path.rs": "C11 C12 C31", "src/tree_cache.rs": "C22 C23 C32", "src/writer.rs": "C23 C25 C12 C24",
    "src/lib.rs": "C06 C31 C12 C17 C11", "src/node_type.rs": "C08 C09 C10 C07 C31 C12 C06 C16 C03", "src/types.rs": "C12 C06 C31",
    "src/restore.rs": "C28 C27 C29 C32", "src/tree/ics23_impl.rs": "C30 C32",
    "src/tree.rs": "C21 C18 C17 C19 C20 C13 C14 C15 C16 C32 C10", "src/mock.rs": "C24 C25 C32 C31", "src/storage.rs": "C24 C25 C32",
    "src/reader.rs": "C32 C13 C15 C24 C25"}
ALL = ["C%02d" % i for i in range(1, 35)]


def fns(src):
    """(start line, body span, header) of each function outside tests"""
    for m in re.finditer(r"^[ \t]*(?:pub(?:\([a-z]+\))? )?(?:const )?(?:async )?(?:unsafe )?fn (\w+)", src, re.M):
        i, d = m.end(), 0
        while i < len(src):
            ch = src[i]
            if ch in "([":
                d += 1
            elif ch in ")]":
                d -= 1
            elif ch == ";" and d == 0:
                i = None
                break
            elif ch == "{" and d == 0:
                break
            i += 1
        if i is None:
            continue
        j, d = i, 0
        while True:
            if src[j] == "{":
                d += 1
            elif src[j] == "}":
                d -= 1
                if d == 0:
                    break
            j += 1
        pre = src[:m.start()]
        attrs = pre[pre.rstrip().rfind("\n}") if False else max(pre.rfind("\n    }\n"), pre.rfind("\n}\n"), 0):]
        if "cfg(any(test" in attrs or "cfg(test" in attrs or "#[test]" in attrs:
            continue
        yield m.group(1), i, j, src[m.start():i]


def values(h):
    m = re.search(r"->\s*(.+?)\s*(?:where\b.*)?$", h.strip(), re.S)
    t = re.sub(r"\s+", " ", m.group(1)) if m else "()"
    self_ = "&self" in h or "self," in h or "(self" in h
    out = []
    if t == "()":
        out = [""]
    elif t == "bool":
        out = ["true", "false"]
    elif re.match(r"(usize|u8|u16|u32|u64)$", t):
        out = ["0", "1"]
    elif t.startswith("Option<") or re.match(r"Option", t):
        out = ["None"]
    elif re.match(r"(anyhow::)?Result<\(\)", t):
        out = ["Ok(())"]
    elif re.match(r"(anyhow::)?Result<Option", t):
        out = ["Ok(None)"]
    elif re.match(r"(anyhow::)?Result<bool", t):
        out = ["Ok(true)", "Ok(false)"]
    elif re.match(r"(anyhow::|std::)?Result<|io::Result", t):
        out = ["Ok(Default::default())", 'return Err(Default::default());', 'anyhow::bail!("no")']
    elif t.startswith("impl ") or t.startswith("Box<dyn"):
        out = ["std::iter::empty()", "Box::new(std::iter::empty())"]
    elif t == "Self" and self_:
        out = ["self.clone()", "Default::default()"]
    else:
        out = ["Default::default()"]
        if "[u8; 32]" in t or "Hash" in t or "NibblePath" in t or t == "Self":
            out.append("[0u8; 32].into()")
    return out


files = sys.argv[1:] or [f for f in IDS if os.path.exists("/repo/" + f)]
jobs = []
for F in files:
    src = open("/repo/" + F).read()
    cut = min([x.start() for x in re.finditer(r"^#\[cfg\((?:all\()?test", src, re.M) if re.match(r"[^\n]*\n(?:pub )?mod \w+ \{", src[x.start():])] or [len(src)])
    for name, i, j, h in fns(src):
        if src[i:j].count("\n") > int(os.environ.get("LINES", "1000")) or i > cut or "self.0.fmt" in src[i:j] or name == "fmt":
            continue
        for v in values(h):
            jobs.append((F, name, src[:i + 1].count("\n") + 1, src[:i] + "{ #![allow(unreachable_code)] " + v + " }" + src[j + 1:], v))
pool = queue.Queue()
for i in range(W):
    d = BASE + "/r%d" % i
    if not os.path.isdir(d):
        subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    subprocess.run("git checkout -q -- . && git pull -q", shell=True, cwd=d, stderr=subprocess.DEVNULL)
    pool.put(i)


def one(x):
    F, name, ln, text, v = x
    k = pool.get()
    d = BASE + "/r%d" % k
    try:
        open(os.path.join(d, F), "w").write(text)
        env = dict(os.environ, JMT_REPO=d, JMT_BUILD=BASE + "/b%d" % k, JMT_EVIDENCE=BASE + "/ev%d" % k)
        und = []
        mine = IDS.get(F, "").split()
        for n, p in enumerate(mine + [a for a in ALL if a not in mine]):
            r = subprocess.run(["python3", CHK, p], env=env, capture_output=True, text=True, errors="replace")
            if r.returncode == 1:
                return "caught", p
            if r.returncode:
                return "build", ""
            t = re.search(r"(\d+) undetermined", r.stdout)
            if t and t.group(1) != "0":
                und.append("%s:%s" % (p, t.group(1)))
        return "MISSED", " ".join(und)
    finally:
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d)
        pool.put(k)


c = {"caught": 0, "build": 0, "MISSED": 0}
with ThreadPoolExecutor(W) as ex:
    for x, (tag, w) in zip(jobs, ex.map(one, jobs)):
        c[tag] += 1
        if tag == "MISSED":
            print("MISSED %s:%d %s => %s   [%s]" % (x[0], x[2], x[1], x[4], w), flush=True)
print(len(jobs), c, flush=True)
