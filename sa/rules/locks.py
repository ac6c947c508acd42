"""The lock of the in-memory store: how often each operation takes it, and never while it holds it."""
import re
from rules import prop
from rules.faults import callee, op_local, succs
from spec import *

ACQ = re.compile(r"(RwLock|Mutex|ReentrantMutex|FairMutex)(::<.*>)?::((try_)?(read|write|lock|upgradable_read)\w*)$")
GUARD = re.compile(r"(RwLock\w*|Mutex)Guard<")
LEAK = re.compile(r"::(forget|leak|force_unlock\w*|make_guard_unchecked|raw)$|ManuallyDrop.*::new$")
ONCE = re.compile(r"^std::(option::Option|result::Result)(::<.*>)?::\w+$|bool::(then|then_some)$")
MANY = 2


class Locks:
    def __init__(self, c):
        self.bodies = [b for b in c.p.facts["bodies"] if b.get("blocks") and b["kind"] != "promoted"]
        self.byid = {b["id"]: b for b in self.bodies}
        self.sums = {}

    def closures(self, b):
        out = {}
        for bb in b["blocks"]:
            for s in bb["s"]:
                if s["k"] == "assign" and s["rv"]["k"] == "agg" and "closure" in s["rv"] and not s["pl"]["p"]:
                    x = self.byid.get(s["rv"]["closure"])
                    if x is not None:
                        out[s["pl"]["l"]] = x
        return out

    def taken(self, b, cl, t):
        """how often the call takes a lock (0, 1, MANY)"""
        f = callee(t)
        if f is None:
            return 0
        if ACQ.search(f["path"]) or ACQ.search(f.get("rpath") or ""):
            return 1
        for k in ("rid", "id"):
            x = self.byid.get(f.get(k))
            if x is not None and not x["path"].startswith(("tests", "<tests")):
                n = self.summary(x)
                return n
        n = 0
        for a in t["args"]:
            x = cl.get(op_local(a))
            if x is not None and self.summary(x):
                n = max(n, self.summary(x) if ONCE.search(f["path"]) else MANY)
        return n

    def summary(self, b):
        i = b["id"]
        if i not in self.sums:
            self.sums[i] = 0
            self.sums[i] = self.flow(b)[0]
        return self.sums[i]

    def flow(self, b):
        """(most acquisitions on a path, acquisitions while a guard is held, leaked guards)"""
        cl, tys = self.closures(b), b["locals"]
        st = {0: (frozenset(), 0)}
        todo, most, nested, leaks = [0], 0, {}, {}
        while todo:
            i = todo.pop()
            held, n = st[i]
            held = set(held)
            bb = b["blocks"][i]
            if bb.get("cleanup"):
                continue
            for s in bb["s"]:
                if s["k"] != "assign":
                    continue
                for o in [s["rv"].get("o")] + list(s["rv"].get("ops", [])):
                    if isinstance(o, dict) and o.get("k") == "move" and o["pl"]["l"] in held:
                        held.discard(o["pl"]["l"])
                        held.add(s["pl"]["l"])
            t = bb["t"]
            if t["k"] == "drop":
                held.discard(t["pl"]["l"])
            elif t["k"] == "call":
                f = callee(t)
                k = self.taken(b, cl, t)
                for a in t["args"]:
                    if a.get("k") == "move" and a["pl"]["l"] in held and not a["pl"]["p"]:
                        if f and LEAK.search(f["path"]):
                            leaks[i] = t
                        held.discard(a["pl"]["l"])
                if k and held:
                    nested[i] = t
                n = min(MANY, n + k)
                if GUARD.search(tys[t["dest"]["l"]]) and not tys[t["dest"]["l"]].startswith("&"):
                    held.add(t["dest"]["l"])
            if t["k"] == "return":
                most = max(most, n)
            for x in succs(t):
                h0, n0 = st.get(x, (frozenset(), -1))
                h1, n1 = h0 | held, max(n0, n)
                if (h1, n1) != (h0, n0):
                    st[x] = (frozenset(h1), n1)
                    todo.append(x)
        return most, nested, leaks


WHOLE = {"write_tree_update_batch"}


@prop("C33", floor=20)
def locks(c, rep):
    L = Locks(c)
    for b in L.bodies:
        if not re.match(r"^<?mock::", b["path"]):
            continue
        c.analysed.add(b["path"])
        most, nested, leaks = L.flow(b)
        last = b["path"].rsplit("::", 1)[-1]
        site = where(b)
        ln = lambda d: ", ".join(str(t["sp"][1]) for t in d.values())
        rep.put(not nested, "%s: no lock is requested while one is held" % last, site,
                "the lock is requested at line %s while a guard is still alive" % ln(nested) if nested else "")
        if leaks:
            rep.put(False, "%s: guards are released" % last, site, "a guard is leaked at line %s" % ln(leaks))
        trait = b["path"].startswith("<mock::MockTreeStore as ")
        if b["kind"] == "closure" or last in WHOLE or not (trait or b["path"].startswith("mock::MockTreeStore::")):
            continue
        if not (trait or b.get("pub") or last == "put_stale_node_index"):
            continue  # a private helper is a part of the operations that call it: counted there
        rep.put(most < MANY, "%s: one critical section" % last, site,
                "the lock is taken more than once on a path: another operation can come in between" if most >= MANY else "")
