"""What becomes of a failed storage access: MIR lint over every call site."""
import re
from rules import prop
from spec import *

STORE = re.compile(r"^(reader::(TreeReader|HasPreimage)|writer::TreeWriter)::\w+$")
PANIC = re.compile(r"^std::result::Result::<.*>::(unwrap|expect|unwrap_unchecked)$")
SWALLOW = re.compile(r"^std::result::Result::<.*>::(ok|unwrap_or|unwrap_or_else|unwrap_or_default|is_ok_and)$")
ASKS = re.compile(r"^std::result::Result::<.*>::(is_ok|is_err|as_ref|err)$")


def strip_g(p):
    """path without generic arguments"""
    out, d = [], 0
    for ch in p:
        if ch == "<":
            d += 1
        elif ch == ">" and not (out and out[-1] == "-"):
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out).replace("::::", "::")


def callee(t):
    f = t["f"]
    return f.get("fn") if f.get("k") == "const" else None


def op_local(o):
    return o["pl"]["l"] if o.get("k") in ("copy", "move") else None


class Faults:
    def __init__(self, c):
        self.c = c
        self.bodies = [b for b in c.p.facts["bodies"] if b.get("blocks")]
        self.byid = {b["id"]: b for b in self.bodies}
        self.bypath = {}
        for b in self.bodies:
            self.bypath.setdefault(b["path"], b)
        self.fallible = {}          # body id -> example storage call
        self.fix()

    def target(self, f):
        """the local body called, if any"""
        for k in ("rid", "id"):
            b = self.byid.get(f.get(k))
            if b is not None:
                return b
        for k in ("rpath", "path"):
            b = self.bypath.get(f.get(k))
            if b is not None:
                return b
        return None

    def source(self, f):
        """a call whose result may be a storage failure"""
        if f is None:
            return None
        if STORE.match(strip_g(f["path"])):
            return f["path"]
        b = self.target(f)
        if b is not None and b["id"] in self.fallible:
            return f["path"]
        return None

    def closures_of(self, b):
        """local -> closure body for closure values built in b"""
        out = {}
        for bb in b["blocks"]:
            for s in bb["s"]:
                if s["k"] == "assign" and s["rv"]["k"] == "agg" and "closure" in s["rv"]:
                    x = self.byid.get(s["rv"]["closure"])
                    if x is not None and not s["pl"]["p"]:
                        out[s["pl"]["l"]] = x
        return out

    def sites(self, b):
        """(block, terminator, what) of the calls of b whose result may carry a storage failure"""
        cl = self.closures_of(b)
        out = []
        for i, bb in enumerate(b["blocks"]):
            t = bb["t"]
            if bb.get("cleanup") or t["k"] != "call":
                continue
            w = self.source(callee(t))
            if w is None:
                for a in t["args"]:
                    l = op_local(a)
                    if l in cl and cl[l]["id"] in self.fallible and "Result<" in b["locals"][t["dest"]["l"]]:
                        w = "closure of " + cl[l]["path"].rsplit("::", 1)[0]
            if w is not None:
                out.append((i, t, w))
        return out

    def fix(self):
        changed = True
        while changed:
            changed = False
            for b in self.bodies:
                if b["id"] in self.fallible or b["kind"] == "promoted":
                    continue
                if "Result<" not in b["locals"][0]:
                    continue
                s = self.sites(b)
                if s:
                    self.fallible[b["id"]] = s[0][2]
                    changed = True

    def tracked(self, b, t):
        """locals that hold the result of call t (or something made of it that still carries the failure)"""
        tys = b["locals"]
        tr, sinks = set(), []
        carries = lambda l: "Result<" in tys[l] or "ControlFlow<" in tys[l]
        if t["dest"]["p"]:
            return tr, sinks
        tr.add(t["dest"]["l"])
        ch = True
        seen = set()
        while ch:
            ch = False
            for i, bb in enumerate(b["blocks"]):
                if bb.get("cleanup"):
                    continue
                for s in bb["s"]:
                    if s["k"] != "assign":
                        continue
                    ps = [p for p in places(s["rv"]) if p["l"] in tr]
                    if ps and s["rv"]["k"] != "discr":
                        l = s["pl"]["l"]
                        # what a success carries is not the failure, unless it has a failure of its own
                        if all(payload(p) for p in ps) and "anyhow::Error" not in tys[l]:
                            continue
                        if l not in tr and carries(l):
                            tr.add(l)
                            ch = True
                u = bb["t"]
                if u["k"] == "call" and u is not t:
                    if any(op_local(a) in tr for a in u["args"]):
                        f = callee(u)
                        key = (i, "call")
                        if key not in seen:
                            seen.add(key)
                            sinks.append((i, u, f))
                        l = u["dest"]["l"]
                        if l not in tr and carries(l) and not (f and PANIC.match(f["path"])):
                            tr.add(l)
                            ch = True
        return tr, sinks


def payload(p):
    return any(e[0] == "variant" and e[2] in ("Ok", "Continue") for e in p["p"])


def places(rv):
    out = []
    if "pl" in rv:
        out.append(rv["pl"])
    for k in ("o", "a", "b"):
        if isinstance(rv.get(k), dict) and "pl" in rv[k]:
            out.append(rv[k]["pl"])
    for o in rv.get("ops", []):
        if "pl" in o:
            out.append(o["pl"])
    return out


def succs(t):
    k = t["k"]
    if k == "switch":
        return [x for _, x in t["targets"]] + ([t["otherwise"]] if t["otherwise"] is not None else [])
    return [t["t"]] if t.get("t") is not None else []


def diverges(b, start):
    """no path from this block returns"""
    seen, todo = set(), [start]
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        t = b["blocks"][i]["t"]
        if t["k"] == "return":
            return False
        todo.extend(succs(t))
    return True


def err_arms(b, tr):
    """blocks entered when a tracked result is an error"""
    out = []
    for i, bb in enumerate(b["blocks"]):
        if bb.get("cleanup") or bb["t"]["k"] != "switch":
            continue
        o = op_local(bb["t"]["o"])
        for s in bb["s"]:
            if s["k"] == "assign" and s["pl"]["l"] == o and s["rv"]["k"] == "discr":
                p = s["rv"]["pl"]
                if p["l"] in tr and not p["p"] and b["locals"][p["l"]].startswith(("std::result::Result<", "&std::result::Result<")):
                    a = [x for v, x in bb["t"]["targets"] if v == 1]
                    if not a and bb["t"]["otherwise"] is not None:
                        a = [bb["t"]["otherwise"]]
                    out += [(i, x) for x in a]
    return out


def reach(b, start, stop):
    seen, todo = set(), [start]
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            if i != stop:
                todo.extend(succs(b["blocks"][i]["t"]))
    return seen


def all_places(bb):
    for s in bb["s"]:
        if s["k"] == "assign":
            for p in places(s["rv"]):
                yield p
    t = bb["t"]
    if t["k"] == "call":
        for a in t["args"]:
            if "pl" in a:
                yield a["pl"]
    elif t["k"] == "switch" and "pl" in t["o"]:
        yield t["o"]["pl"]


def drop_check(b, bb, l):
    """the block only asks which variant is left to drop"""
    t = bb["t"]
    if t["k"] != "switch":
        return False
    for x in succs(t):
        y = b["blocks"][x]
        if not y["s"] and y["t"]["k"] == "drop" and y["t"]["pl"]["l"] == l:
            return True
    return False


def forgotten(b, tr, arm, call):
    """after this Err arm the failure is not looked at any more and the function can return a success"""
    r = reach(b, arm, call)
    for i in r:
        for p in all_places(b["blocks"][i]):
            if p["l"] in tr and not drop_check(b, b["blocks"][i], p["l"]):
                return False
    if not b["locals"][0].startswith(("std::result::Result<", "std::option::Option<std::result::Result<")):
        return False
    for i in r:
        for s in b["blocks"][i]["s"]:
            if s["k"] == "assign" and s["pl"]["l"] == 0 and not s["pl"]["p"] and s["rv"]["k"] == "agg":
                if s["rv"].get("variant") in ("Ok", "None") or s["rv"].get("vi") == 0:
                    return True
    return False


SKIP = re.compile(r"^(mock::|<mock::)")


@prop("C32", floor=40)
def storage_failures(c, rep):
    F = Faults(c)
    n, sib = {}, None
    for b in F.bodies:
        if b["kind"] == "promoted" or SKIP.match(b["path"]):
            continue
        for i, t, w in F.sites(b):
            c.analysed.add(b["path"])
            short_w = w.rsplit("::", 1)[-1] if not w.startswith("closure") else w
            key = "result of %s" % short_w
            k = n[(b["id"], key)] = n.get((b["id"], key), 0) + 1
            name = key if k == 1 else "%s (%d)" % (key, k)
            tr, sinks = F.tracked(b, t)
            verdict, why = True, ""
            for j, u, f in sinks:
                p = f["path"] if f else ""
                if PANIC.match(p):
                    verdict, why = False, "a storage failure panics: %s at line %s" % (p.rsplit("::", 1)[-1], u["sp"][1])
                    break
                if SWALLOW.match(p):
                    verdict, why = False, "a storage failure is dropped: %s at line %s" % (p.rsplit("::", 1)[-1], u["sp"][1])
                    break
            if verdict is False and any(f and ASKS.match(f["path"]) for _, _, f in sinks):
                verdict, why = None, "the result is examined before: " + why
            d = t["dest"]["l"]
            if verdict and d != 0 and not t["dest"]["p"] and not used(b, d):
                verdict, why = False, "a storage failure is ignored"
            if verdict:
                for j, x in err_arms(b, tr):
                    if forgotten(b, tr, x, i):
                        verdict, why = False, "a storage failure is dropped and a success returned at line %s" % b["blocks"][x]["t"].get("sp", [0, 0])[1]
                    if diverges(b, x):
                        verdict, why = False, "a storage failure panics at line %s" % b["blocks"][x]["t"].get("sp", [0, 0])[1]
            site = where(b)
            if b["path"].startswith(("node_type::", "<node_type::")):
                name, site = "sibling node read for a proof", "node_type::InternalNode"
                worst = {True: 0, None: 1, False: 2}
                if sib is None or worst[verdict] > worst[sib[0]]:
                    sib = (verdict, why)
                continue
            rep.put(verdict, name, site, why)
    if sib is not None:
        rep.put(sib[0], "sibling node read for a proof", "node_type::InternalNode", sib[1])


def used(b, l):
    """the local is read somewhere (other than being dropped)"""
    for bb in b["blocks"]:
        for s in bb["s"]:
            if s["k"] == "assign" and any(p["l"] == l for p in places(s["rv"])):
                return True
        t = bb["t"]
        if t["k"] == "call" and any(op_local(a) == l for a in t["args"]):
            return True
        if t["k"] == "switch" and op_local(t["o"]) == l:
            return True
    return False
