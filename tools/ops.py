#!/usr/bin/env python3
"""ops.py FILE IDS...: every one-token change of a source file (operators, literals, dropped statements) against the
checks IDS, in scratch clones.  A change that does not compile is passed over; prints the changes no check reports."""
import json, os, re, subprocess, sys, queue, random
from concurrent.futures import ThreadPoolExecutor
BASE = os.environ.get("MUTDIR", "/tmp/ops")
W = int(os.environ.get("W", "4"))
CHK = os.environ.get("CHK", "/verif/sa/check.py")
F, IDS = sys.argv[1], sys.argv[2:]

SWAPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
         (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", " + 2"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\btrue\b", "false"),
         (r"\bfalse\b", "true"), (r"\bif !", "if "), (r"\.rev\(\)", ""), (r"\.is_some\(\)", ".is_none()"),
         (r"\.is_none\(\)", ".is_some()"), (r" & ", " | "), (r" \| ", " & "), (r"<<", ">>"), (r" >> ", " << "), (r" \+ ", " - "),
         (r" - ", " + "), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"),
         (r"\.\.=", ".."), (r"(?<=[\w)])\.\.(?=[\w(])", "..="), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"),
         (r"trailing_zeros", "leading_zeros"), (r"leading_zeros", "trailing_zeros"), (r"\.skip\([^()]*\)", ""), (r"\.take\([^()]*\)", ""),
         (r" \+= ", " -= "), (r" -= ", " += "), (r" \|= ", " &= "), (r" \^ ", " | "), (r"\bleft(\w*)\b", r"right\1"),
         (r"\bright(\w*)\b", r"left\1"), (r"\b(\d+)\b(?![.\w]| =>)", lambda m: str(int(m.group(1)) + 1)), (r" % ", " / "), (r" / ", " * "),
         (r" \* ", " + "), (r"\.pop\(\)", ".last().cloned()"), (r"\.is_empty\(\)", ".len() == 1"), (r"\.position\(", ".rposition("),
         (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"if ([^{}]*[^{} ]) \{$", r"if !(\1) {"), (r"Some\((\w+)\)([,;)])", r"None\2"),
         (r"\.saturating_sub\(", ".wrapping_sub("), (r"\.clone\(\)", ""), (r"\bstart\b", "end"), (r"Excluded", "Included"),
         (r"\.next\(\)", ".last()"), (r"old_version\b", "new_version"), (r"\bversion\b", "(version + 1)"), (r"u8::MAX", "0")]


def lines():
    s = open(os.path.join("/repo", F)).read()
    ls = s.split("\n")
    code, skip = [], None
    for i, l in enumerate(ls):
        t = l.strip()
        if re.match(r"#\[cfg\((any\()?(all\()?test", t) or t.startswith("#[cfg(any(test"):
            skip = i
        if skip is not None:
            # the item that follows
            ind = len(l) - len(l.lstrip())
            if i > skip and (l.rstrip().endswith("}") or l.rstrip().endswith(";") or l.rstrip().endswith(",")) and \
                    ind <= len(ls[skip]) - len(ls[skip].lstrip()):
                skip = None
            continue
        if t.startswith(("//", "#[", "use ", "pub use", "mod ", "///", "impl", "pub fn", "fn ", "struct", "pub struct", "where", "type ", "const fn", "pub(crate) fn", "\"")):
            continue
        code.append(i)
    return ls, code


def stmts(ls, code):
    for i in code:
        t = ls[i].strip()
        if not re.match(r"(ensure!|bail!|self\.|[a-z_]+\.|\*?[a-z_.]+ [+\-|&]?= |assert)", t) or t.startswith("return"):
            continue
        d, j = 0, i
        while j < len(ls):
            d += sum(ls[j].count(x) for x in "([{") - sum(ls[j].count(x) for x in ")]}")
            if d <= 0:
                break
            j += 1
        if d == 0 and ls[j].rstrip().endswith(";") and re.search(r"[;{}]\s*$|^\s*//", ls[i - 1] or ";"):
            yield i, j


def muts():
    ls, code = lines()
    out, seen = [], set()
    for i in code:
        body = ls[i].split("//")[0]
        for pat, rep in SWAPS:
            for m in re.finditer(pat, body):
                n = body[:m.start()] + (rep(m) if callable(rep) else m.expand(rep)) + body[m.end():]
                if n != body and (i, n) not in seen and body.count('"') == 0:
                    seen.add((i, n))
                    out.append((i, i, n))
    for i, j in stmts(ls, code):
        out.append((i, j, ""))
    return ls, out


ls, ms = muts()
random.seed(7)
random.shuffle(ms)
ms = ms[:int(os.environ.get("N", "10000"))]
pool = queue.Queue()
for i in range(W):
    d = BASE + "/r%d" % i
    if not os.path.isdir(d):
        subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    subprocess.run("git checkout -q -- . && git pull -q", shell=True, cwd=d, stderr=subprocess.DEVNULL)
    pool.put(i)


def one(m):
    a, b, n = m
    k = pool.get()
    d = BASE + "/r%d" % k
    try:
        open(os.path.join(d, F), "w").write("\n".join(ls[:a] + [n] + ls[b + 1:]))
        env = dict(os.environ, JMT_REPO=d, JMT_BUILD=BASE + "/b%d" % k, JMT_EVIDENCE=BASE + "/ev%d" % k)
        und = []
        for x in IDS:
            r = subprocess.run(["python3", CHK, x], env=env, capture_output=True, text=True, errors="replace")
            if r.returncode == 1:
                return "caught", x
            if r.returncode:
                return "build", ""
            t = re.search(r"(\d+) undetermined", r.stdout)
            if t and t.group(1) != "0":
                und.append("%s:%s" % (x, t.group(1)))
        return "MISSED", " ".join(und)
    finally:
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d)
        pool.put(k)


c = {"caught": 0, "build": 0, "MISSED": 0}
with ThreadPoolExecutor(W) as ex:
    for m, (tag, w) in zip(ms, ex.map(one, ms)):
        c[tag] += 1
        if tag == "MISSED":
            print("MISSED %s:%d  %s  ==>  %s   [%s]" % (F, m[0] + 1, " ".join(x.strip() for x in ls[m[0]:m[1] + 1])[:110], m[2].strip()[:110], w), flush=True)
print(F, len(ms), c, flush=True)
