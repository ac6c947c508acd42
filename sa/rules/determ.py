"""Determinism: no ambient input, and no result that depends on the iteration order of a hash table."""
import re
from rules import prop
from rules.faults import callee, op_local, succs, places
from spec import *

AMBIENT = re.compile(
    r"^(std|core|alloc)::(time|env|process|fs|net|thread|random)::|SystemTime|Instant::|^(rand|rand_core|getrandom|fastrand)::|::thread_rng|"
    r"RandomState::new$|BuildHasher::(hash_one|build_hasher)$|DefaultHasher|^std::io::(stdin|Stdin)|"
    r"ptr::.*::(addr|expose_provenance)$|std::ptr::(from_ref|addr_eq)$|std::any::type_name|std::panic::Location::caller|"
    r"std::any::TypeId::of|std::hash::Hasher::finish$")
OK_AMBIENT = re.compile(r"^std::thread::(panicking)$")
TABLE = re.compile(r"(std::collections|hashbrown|std::collections::hash_map|std::collections::hash_set|hashbrown::hash_map|hashbrown::hash_set|"
                   r"std::collections::hash::map|std::collections::hash::set)::(map::|set::)?(HashMap|HashSet)\b")
METHOD = re.compile(r"Hash(Map|Set)::<.*>::(iter|iter_mut|keys|values|values_mut|drain|into_keys|into_values|retain|extract_if|difference|union|intersection|symmetric_difference)$")
LAZY = {"map", "filter", "filter_map", "cloned", "copied", "chain", "inspect", "flat_map", "flatten", "into_iter", "by_ref", "peekable", "fuse", "map_while_not"}
ORDERED = {"enumerate", "take", "skip", "take_while", "skip_while", "step_by", "scan", "zip", "zip_eq", "map_while", "rev", "zip_longest",
           "tuple_windows", "chunks", "dedup", "interleave"}
PICK = {"next", "nth", "last", "position", "rposition", "next_back", "nth_back", "next_tuple", "collect_tuple", "fold1"}
FREE = {"count", "len", "sum", "product", "all", "any", "max", "min", "is_empty", "size_hint", "contains", "is_sorted"}
SORTED = {"sorted", "sorted_by", "sorted_by_key", "sorted_unstable", "sorted_unstable_by", "sorted_unstable_by_key"}
UNORDERED = re.compile(r"^(&mut )?(std::collections::|alloc::collections::|hashbrown::)?[\w:]*(HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap)<")
SEQ = re.compile(r"(^|[<(, ])(&mut )?(std::vec::Vec|std::string::String|std::collections::VecDeque|std::boxed::Box<\[|std::collections::LinkedList)")
SORT = re.compile(r"::(sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key)$")
PUSH = re.compile(r"::(push|push_back|push_front|push_str|extend_from_slice|append|update|write|write_all|absorb|finalize_into)$")


def name(f):
    return f["path"].rsplit("::", 1)[-1]


def is_source(b, t):
    """a call that starts iterating a hash table"""
    f = callee(t)
    if f is None or not t["args"]:
        return False
    if METHOD.search(f["path"]):
        return True
    l = op_local(t["args"][0])
    if name(f) in ("into_iter", "iter") and l is not None:
        ty = re.sub(r"^&('\w+ )?(mut )?", "", b["locals"][l])
        return bool(TABLE.match(ty))
    return False


def cyclic(b, i):
    """block i lies on a cycle"""
    seen, todo = set(), succs(b["blocks"][i]["t"])
    while todo:
        j = todo.pop()
        if j == i:
            return True
        if j not in seen and not b["blocks"][j].get("cleanup"):
            seen.add(j)
            todo.extend(succs(b["blocks"][j]["t"]))
    return False


def loop_blocks(b, i):
    """blocks on a cycle through block i"""
    fwd, todo = set(), [i]
    while todo:
        j = todo.pop()
        for k in succs(b["blocks"][j]["t"]):
            if k not in fwd:
                fwd.add(k)
                todo.append(k)
    return {j for j in fwd if i in reach(b, j)} if i in fwd else set()


def reach(b, j):
    seen, todo = {j}, [j]
    while todo:
        x = todo.pop()
        for k in succs(b["blocks"][x]["t"]):
            if k not in seen:
                seen.add(k)
                todo.append(k)
    return seen


def closure_of(b, l):
    """locals that are, borrow or point into local l (moves, copies, references, derefs)"""
    out, ch = {l}, True
    while ch:
        ch = False
        for bb in b["blocks"]:
            for s in bb["s"]:
                if s["k"] == "assign" and s["pl"]["l"] not in out and any(p["l"] in out for p in places(s["rv"])):
                    out.add(s["pl"]["l"])
                    ch = True
            t = bb["t"]
            if t["k"] == "call":
                f = callee(t)
                if f and name(f) in ("deref_mut", "deref", "as_mut_slice", "borrow_mut", "as_mut", "branch", "into_iter") and any(
                        op_local(a) in out for a in t["args"]) and t["dest"]["l"] not in out:
                    out.add(t["dest"]["l"])
                    ch = True
    return out


def sorted_later(b, l):
    al = closure_of(b, l)
    for bb in b["blocks"]:
        t = bb["t"]
        if t["k"] == "call" and t["args"] and op_local(t["args"][0]) in al:
            f = callee(t)
            if f and (SORT.search(f["path"]) or name(f) in SORTED):
                return True
    return False


def judge(b, i, t, depth=0):
    """(True | None | False, reason) for what the iteration started at block i feeds"""
    tr = {t["dest"]["l"]}
    if name(callee(t)) == "retain":
        return True, ""
    worst = (True, "")

    def put(v, w):
        nonlocal worst
        rank = {True: 0, None: 1, False: 2}
        if rank[v] > rank[worst[0]]:
            worst = (v, w)
    done, ch = set(), True
    while ch:
        ch = False
        for j, bb in enumerate(b["blocks"]):
            if bb.get("cleanup"):
                continue
            for s in bb["s"]:
                if s["k"] == "assign" and s["pl"]["l"] not in tr and any(p["l"] in tr for p in places(s["rv"])):
                    tr.add(s["pl"]["l"])
                    ch = True
            u = bb["t"]
            if u["k"] != "call" or u is t or j in done:
                continue
            pos = [k for k, a in enumerate(u["args"]) if op_local(a) in tr]
            if not pos:
                continue
            done.add(j)
            f = callee(u)
            if f is None:
                put(None, "passed to an indirect call")
                continue
            n = name(f)
            line = "line %s" % u["sp"][1]
            dty = b["locals"][u["dest"]["l"]]
            if n in LAZY or n in SORTED:
                if n not in SORTED and u["dest"]["l"] not in tr:
                    tr.add(u["dest"]["l"])
                    ch = True
            elif n in ORDERED:
                put(False, "%s of an iteration in hash order, %s" % (n, line))
            elif n == "next":
                lp = loop_blocks(b, j)
                if not lp:
                    put(False, "an element is picked in hash order, %s" % line)
                else:
                    put(*loop(b, lp, j))
            elif n in PICK:
                put(False, "an element is picked in hash order (%s), %s" % (n, line))
            elif n in FREE or n in ("drop",):
                pass
            elif n in ("collect", "from_iter", "collect_vec", "collect_into"):
                if UNORDERED.match(dty):
                    pass
                elif SEQ.search(dty):
                    if not sorted_later(b, u["dest"]["l"]):
                        put(False, "a sequence is collected in hash order and never sorted, %s" % line)
                else:
                    put(None, "collected into %s, %s" % (dty[:60], line))
            elif n == "extend":
                l = op_local(u["args"][0])
                ty = b["locals"][l] if l is not None else "?"
                if UNORDERED.match(re.sub(r"^&('\w+ )?mut ", "", ty)):
                    pass
                elif SEQ.search(ty):
                    root = [x for x in range(len(b["locals"])) if l in closure_of(b, x)]
                    if not any(sorted_later(b, x) for x in root):
                        put(False, "a sequence is extended in hash order and never sorted, %s" % line)
                else:
                    put(*local_use(f, pos, line, depth))
            else:
                put(*local_use(f, pos, line, depth))
    return worst


LOCAL = {}


def local_use(f, pos, line, depth=0):
    """a function of the crate is handed the iteration: it must not let its order show either"""
    b = LOCAL.get(f.get("rid")) or LOCAL.get(f.get("id"))
    if b is None or depth > 3:
        return None, "passed to %s, %s" % (f["path"][-60:], line)
    for k in pos:
        v = judge(b, -1, {"dest": {"l": k + 1}, "f": {"k": "const", "fn": {"path": "x::source"}}}, depth + 1)
        if v[0] is not True:
            return v
    return True, ""


def loop(b, lp, j):
    v = (True, "")
    for i in lp:
        bb = b["blocks"][i]
        t = bb["t"]
        if t["k"] == "call":
            f = callee(t)
            if f and PUSH.search(f["path"]) and "Hash" not in f["path"].split("::")[-2]:
                l = op_local(t["args"][0])
                roots = [x for x in range(len(b["locals"])) if l in closure_of(b, x)] if l is not None else []
                if not any(sorted_later(b, x) for x in roots):
                    return False, "each element is appended in hash order and never sorted, line %s" % t["sp"][1]
    exits = {x for i in lp for x in succs(b["blocks"][i]["t"]) if x not in lp and not b["blocks"][x].get("cleanup")}
    live = [x for x in exits if any(b["blocks"][y]["t"]["k"] == "return" for y in reach(b, x))]
    if len(live) > 1:
        v = (None, "the loop over the table at line %s can be left early" % b["blocks"][j]["t"]["sp"][1])
    return v


def used_cache_values(bodies):
    for b in bodies:
        for bb in b["blocks"]:
            t = bb["t"]
            if t["k"] == "call":
                f = callee(t)
                if f and name(f) in ("get_value_option", "get_value") and "TreeCache" in (f.get("self") or "") + (f.get("rpath") or ""):
                    return True
    return False


@prop("C34", floor=15)
def determinism(c, rep):
    bodies = [b for b in c.p.facts["bodies"] if b.get("blocks") and b["kind"] != "promoted"
              and not re.match(r"^<?tests\b", b["path"]) and "proptest" not in b["path"]]
    LOCAL.clear()
    LOCAL.update({b["id"]: b for b in bodies})
    files = {}
    for b in bodies:
        f0 = (b.get("span") or ["?"])[0]
        files.setdefault(f0, 0)
        files[f0] += 1
        c.analysed.add(b["path"])
        n = 0
        for i, bb in enumerate(b["blocks"]):
            t = bb["t"]
            if bb.get("cleanup") or t["k"] != "call":
                continue
            f = callee(t)
            p = (f or {}).get("path") or ""
            if f and AMBIENT.search(p) and not OK_AMBIENT.search(p):
                rep.put(False, "ambient input", where(b), "%s is called at line %s" % (p, t["sp"][1]))
            if is_source(b, t):
                n += 1
                k = "iteration over a hash table" + (" (%d)" % n if n > 1 else "")
                if b["path"].startswith("<mock::") and b["path"].endswith("get_rightmost_leaf"):
                    rep.put(True, k, where(b), "the greatest key is taken (decided by C25)")
                    continue
                if re.match(r"^<tree_cache::TreeCache<.*::get_value_option$", b["path"]) and not used_cache_values(bodies):
                    rep.put(True, k, where(b), "never called, and not exported")
                    continue
                v, w = judge(b, i, t)
                rep.put(v, k, where(b), w)
    for f0, k in sorted(files.items()):
        rep.put(True, "no ambient input", f0)
    for im in c.p.facts["impls"]:
        if (im.get("trait") or "").endswith("Serialize") and not im["span"][0].startswith("src/tests"):
            for a in c.p.facts["adts"]:
                if a["path"] == re.sub(r"<.*", "", im["self"]):
                    bad = [f["name"] for v in a["variants"] for f in v["fields"] if TABLE.search(f["ty"])]
                    rep.put(None if bad and "borsh" in im["trait"] else not bad, "encoding order/%s" % im["trait"].split("::")[0], a["path"],
                            "field %s is encoded in hash order" % ", ".join(bad) if bad else "")
