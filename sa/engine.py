"""Path-sensitive provenance dataflow over MIR (property-simulation style).

Abstract state = memory (location -> provenance term), branch facts (atom -> bool), and the set of
effects that must already have happened.  States are kept apart at joins up to a bound, then merged
(differing values become phi, facts are intersected).  Loops are abstracted: every location the loop
changes becomes a loop-carried unknown whose entry value and per-iteration values are recorded.
Nothing is executed, no input is chosen and no solver is called.
"""
import re
import sys
from terms import *
import terms as TM
from index import lengths, rng, mention

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class State:
    __slots__ = ("env", "facts", "did")

    def __init__(self, env=None, facts=None, did=frozenset()):
        self.env = env if env is not None else {}
        self.facts = facts if facts is not None else {}
        self.did = did

    def clone(self):
        return State(dict(self.env), dict(self.facts), self.did)


class Event:
    __slots__ = ("name", "args", "facts", "did", "site", "stack", "res", "callee", "pre", "tys")

    def __init__(self, **k):
        for x, v in k.items():
            setattr(self, x, v)


class Panic:
    __slots__ = ("kind", "ops", "facts", "site", "stack", "did")

    def __init__(self, **k):
        for x, v in k.items():
            setattr(self, x, v)


class Loop:
    __slots__ = ("uid", "vars", "exits", "site", "stack", "entry_facts", "kind", "skips", "stops")

    def __init__(self, **k):
        for x, v in k.items():
            setattr(self, x, v)


class Frame:
    __slots__ = ("body", "fid", "subst", "parent", "site", "depth")

    def __init__(self, body, fid, subst, parent, site, depth):
        self.body, self.fid, self.subst, self.parent, self.site, self.depth = \
            body, fid, subst, parent, site, depth

    def stack(self):
        out = []
        f = self
        while f is not None:
            out.append((f.body["id"], f.site))
            f = f.parent
        return tuple(out)


class Program:
    """resolved program facts, indexed"""

    def __init__(self, facts):
        self.facts = facts
        self.bodies = {b["id"]: b for b in facts["bodies"]}
        self.by_path = {}
        for b in facts["bodies"]:
            if b["kind"] == "fn":
                self.by_path.setdefault(b["path"], []).append(b)
        self.adts = {a["path"]: a for a in facts["adts"]}
        self.consts = {c["id"]: c for c in facts["consts"]}
        self.impls = facts["impls"]
        self.traits = {t["path"]: t for t in facts["traits"]}
        self.ctors = {}
        TM.NEWTYPES.clear()
        for a in facts["adts"]:
            for v in a["variants"]:
                p = a["path"] if not a["enum"] else a["path"] + "::" + v["name"]
                self.ctors[p] = (a["path"], v["name"], [f["name"] for f in v["fields"]])
            if not a["enum"]:
                fs = [f for f in a["variants"][0]["fields"] if "PhantomData" not in f["ty"]]
                if len(fs) == 1 and len(a["variants"][0]["fields"]) == 1:
                    TM.NEWTYPES[a["path"]] = fs[0]["name"]
        # structs recognised by their field names alone: replacing every field makes a new value
        shapes = {}
        for a in facts["adts"]:
            for v in a["variants"]:
                fs = frozenset(f["name"] for f in v["fields"])
                if len(fs) > 1 and "0" not in fs:
                    shapes.setdefault(fs, []).append((a["path"], v["name"], tuple(f["name"] for f in v["fields"])))
        TM.SHAPES.clear()
        for fs, owners in shapes.items():
            if len(owners) == 1 and not any(fs < o for o in shapes):
                TM.SHAPES[fs] = owners[0]
        self.cfg = {}

    def fn(self, pred):
        return [b for b in self.facts["bodies"] if b["kind"] == "fn" and pred(b)]

    def method(self, self_head, name, trait=None):
        """functions named `name` in an (inherent or `trait`) impl whose self type is self_head"""
        out = []
        for b in self.facts["bodies"]:
            if b["kind"] != "fn" or b.get("name") != name:
                continue
            s = b.get("impl_self")
            if s is None or head(s) != self_head:
                continue
            t = b.get("impl_trait")
            if trait is None and t is None:
                out.append(b)
            elif trait is not None and t is not None and (t == trait or t.split("::")[-1] == trait):
                out.append(b)
        return out

    def info(self, b):
        i = self.cfg.get(b["id"])
        if i is None:
            i = self.cfg[b["id"]] = CFG(b)
        return i


def head(ty):
    """outermost type path without references and generic arguments"""
    ty = ty.strip()
    while True:
        if ty.startswith("&"):
            ty = re.sub(r"^&('\w+ |'\{erased\} )?(mut )?", "", ty)
        else:
            break
    i = ty.find("<")
    return ty if i < 0 or ty.startswith("<") else ty[:i]


class CFG:
    def __init__(self, b):
        self.n = len(b["blocks"])
        self.succ = []
        for bb in b["blocks"]:
            t = bb["t"]
            k = t["k"]
            if k == "switch":
                s = [x[1] for x in t["targets"]] + [t["otherwise"]]
            elif k in ("goto", "drop", "assert", "call"):
                s = [t["t"]] if t.get("t") is not None else []
            else:
                s = []
            self.succ.append(list(dict.fromkeys(s)))
        order, seen = [], set()

        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(self.succ[y])))
                    break
            else:
                order.append(x)
                st.pop()
        self.rpo = order[::-1]
        self.rpon = {x: i for i, x in enumerate(self.rpo)}
        self.pred = {x: [] for x in self.rpo}
        for x in self.rpo:
            for y in self.succ[x]:
                self.pred[y].append(x)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for x in self.rpo[1:]:
                new = None
                for p in self.pred[x]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while self.rpon[a] > self.rpon[c]:
                                    a = idom[a]
                                while self.rpon[c] > self.rpon[a]:
                                    c = idom[c]
                            new = a
                if idom.get(x) != new:
                    idom[x] = new
                    ch = True
        self.idom = idom
        self.loops = {}
        for x in self.rpo:
            for y in self.succ[x]:
                if self.dom(y, x):
                    body = {y}
                    st = [x]
                    while st:
                        z = st.pop()
                        if z in body:
                            continue
                        body.add(z)
                        st.extend(self.pred[z])
                    self.loops.setdefault(y, set()).update(body)
        self._live(b)

    def dom(self, a, x):
        while True:
            if x == a:
                return True
            if x == self.idom[x]:
                return False
            x = self.idom[x]

    def _live(self, b):
        nloc = len(b["locals"])
        use = [set() for _ in range(self.n)]
        dfn = [set() for _ in range(self.n)]
        taken = set()

        def rd(i, p):
            if p["l"] not in dfn[i]:
                use[i].add(p["l"])
            for e in p["p"]:
                if e[0] == "index" and e[1] not in dfn[i]:
                    use[i].add(e[1])

        def op(i, o):
            if o["k"] in ("copy", "move"):
                rd(i, o["pl"])

        def wr(i, p):
            if p["p"]:
                rd(i, p)
            else:
                dfn[i].add(p["l"])

        for i in self.rpo:
            bb = b["blocks"][i]
            for s in bb["s"]:
                if s["k"] == "assign":
                    r = s["rv"]
                    for k in ("o", "a", "b"):
                        if isinstance(r.get(k), dict):
                            op(i, r[k])
                    for o in r.get("ops", []):
                        op(i, o)
                    if "pl" in r:
                        rd(i, r["pl"])
                        if r["k"] == "ref" and r["mut"] or r["k"] == "rawptr":
                            taken.add(r["pl"]["l"])
                    wr(i, s["pl"])
                elif s["k"] == "setdiscr":
                    rd(i, s["pl"])
            t = bb["t"]
            if t["k"] == "switch" or t["k"] == "assert":
                op(i, t["o"])
                for o in t.get("mops", []):
                    op(i, o)
            elif t["k"] == "call":
                op(i, t["f"])
                for o in t["args"]:
                    op(i, o)
                wr(i, t["dest"])
        use_ret = {0}
        live = {i: set() for i in self.rpo}
        ch = True
        while ch:
            ch = False
            for i in reversed(self.rpo):
                out = set()
                if b["blocks"][i]["t"]["k"] == "return":
                    out |= use_ret
                for s in self.succ[i]:
                    out |= live[s]
                n = use[i] | (out - dfn[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        self.live = live
        self.taken = taken


# --------------------------------------------------------------------------------------------
def implied(facts, c):
    """truth of atom c (no `not`) under facts, or None"""
    v = facts.get(c)
    if v is not None:
        return v
    if c.op == "bool":
        return c.a[0]
    if c.op == "hasnext":
        o = facts.get(("twin", c))
        return None if o is None else facts.get(o)
    if c.op == "is":
        t, var = c.a
        pos = facts.get(("pos", t))
        if pos is not None:
            return pos == var
        neg = facts.get(("neg", t))
        if neg and var in neg:
            return False
        return None
    if c.op == "bin" and c.a[0] == "Lt" and c.a[1].op == "int":
        lo, hi = bounds(facts, c.a[2])
        k = c.a[1].a[0]
        if lo is not None and lo > k:
            return True
        if hi is not None and hi <= k:
            return False
    if c.op == "bin" and c.a[0] == "Eq":
        x, y = c.a[1], c.a[2]
        if x.op == "int":
            x, y = y, x
        if y.op == "int":
            lo, hi = bounds(facts, x)
            if lo is not None and y.a[0] < lo or hi is not None and y.a[0] > hi:
                return False
            if lo is not None and lo == hi == y.a[0]:
                return True
        elif x.op == "bytes" or y.op == "bytes":
            # compared byte by byte
            if x.op == "bytes":
                x, y = y, x
            s = bytes.fromhex(y.a[0])
            if x.op == "bytes" or not s or facts.get(TM.Eq(TM.T("idx", x, TM.Int(0)), TM.Int(s[0]))) is None:
                return None
            vs = [facts.get(TM.Eq(TM.T("idx", x, TM.Int(i)), TM.Int(b))) for i, b in enumerate(s)]
            if False in vs:
                return False
            if None not in vs:
                return True
        else:
            b = facts.get(("bnd", gap(x, y)))
            if b is not None:
                lo, hi = b
                if lo is not None and lo > 0 or hi is not None and hi < 0:
                    return False
                if lo == hi == 0:
                    return True
    return None


def gap(x, y):
    """the difference of two numbers, as `Lt` spells it"""
    t = TM.Lt(x, y)
    while t.op == "not":
        t = t.a[0]
    return t.a[2] if t.op == "bin" else t


def bounds(facts, x, depth=0):
    """integer interval of x under the facts (None = unbounded)"""
    if x.op == "int":
        return x.a[0], x.a[0]
    lo = hi = None
    b = facts.get(("bnd", x))
    if b:
        lo, hi = b
    if x.op == "len":
        lo = max(lo or 0, 0)
        b = x.a[0]
        while b.op in ("itpos", "adv", "skip", "take", "filter", "takewhile", "rev", "iter", "map", "enum"):
            b = b.a[1] if b.op == "adv" else b.a[0]
        if b is not x.a[0] and depth < 4:
            h2 = bounds(facts, TM.Len(b), depth + 1)[1]
            if h2 is not None:
                hi = h2 if hi is None else min(hi, h2)
    elif x.op == "more":
        lo = max(lo or 0, 0)
    elif x.op == "num" and x.a[0] in ("trailing_zeros", "leading_zeros", "count_ones", "count_zeros") \
            and x.a[1] in TM.INTS:
        lo, hi = max(lo or 0, 0), TM.INTS[x.a[1]] if hi is None else min(hi, TM.INTS[x.a[1]])
    elif x.op == "ipos" and TM.Len(x.a[0]).op == "int":
        lo, hi = max(lo or 0, 0), TM.Len(x.a[0]).a[0] - 1
    elif x.op == "bin" and x.a[0] == "Rem" and x.a[2].op == "int":
        lo = max(lo or 0, 0)
        k = x.a[2].a[0] - 1
        hi = k if hi is None else min(hi, k)
    elif x.op == "bin" and x.a[0] == "Div" and x.a[2].op == "int" and x.a[2].a[0] > 0 and depth < 4:
        l2, h2 = bounds(facts, x.a[1], depth + 1)
        if l2 is not None:
            lo = l2 // x.a[2].a[0] if lo is None else max(lo, l2 // x.a[2].a[0])
        if h2 is not None:
            h = h2 // x.a[2].a[0]
            hi = h if hi is None else min(hi, h)
    elif x.op == "lin" and depth < 4:
        l2, h2 = x.a[0], x.a[0]
        for k, y in x.a[1]:
            yl, yh = bounds(facts, y, depth + 1)
            if k < 0:
                yl, yh = yh, yl
            l2 = None if l2 is None or yl is None else l2 + k * yl
            h2 = None if h2 is None or yh is None else h2 + k * yh
        if depth < 2:
            # use a known linear relation y with x = s*y + rest
            mine = {y for _, y in x.a[1]}
            for f, (fl, fh) in [(k[1], v) for k, v in facts.items()
                                if isinstance(k, tuple) and k[0] == "bnd" and k[1].op == "lin"]:
                if f is x or not {y for _, y in f.a[1]} <= mine:
                    continue
                for sg in (1, -1):
                    rest = Add(x, f, -sg)
                    if len(TM.lin_parts(rest)[1]) >= len(x.a[1]):
                        continue
                    rl, rh = bounds(facts, rest, depth + 2)
                    yl, yh = (fl, fh) if sg > 0 else (None if fh is None else -fh, None if fl is None else -fl)
                    if rl is not None and yl is not None and (l2 is None or rl + yl > l2):
                        l2 = rl + yl
                    if rh is not None and yh is not None and (h2 is None or rh + yh < h2):
                        h2 = rh + yh
        if l2 is not None:
            lo = l2 if lo is None else max(lo, l2)
        if h2 is not None:
            hi = h2 if hi is None else min(hi, h2)
    if lo is None:
        lo = facts.get(("uns", x))
    return lo, hi


def learn(facts, c, v, variants=None):
    """add atom c (no `not`) = v; False if contradictory"""
    cur = implied(facts, c)
    if cur is not None:
        if cur == v:
            facts[c] = v
        return cur == v
    facts[c] = v
    if c.op == "is":
        t, var = c.a
        if v:
            facts[("pos", t)] = var
        else:
            neg = facts.get(("neg", t), frozenset()) | {var}
            facts[("neg", t)] = neg
            vs = variants or {"Some": ("Some", "None"), "None": ("Some", "None"),
                              "Ok": ("Ok", "Err"), "Err": ("Ok", "Err")}.get(var)
            if vs:
                rest = [x for x in vs if x not in neg]
                if not rest:
                    return False
                if len(rest) == 1:
                    facts[("pos", t)] = rest[0]
                    facts[Is(t, rest[0])] = True
    elif c.op == "bin" and c.a[0] == "Lt" and c.a[1].op == "int":
        k, x = c.a[1].a[0], c.a[2]
        lo, hi = facts.get(("bnd", x), (None, None))
        if v:
            lo = k + 1 if lo is None else max(lo, k + 1)
        else:
            hi = k if hi is None else min(hi, k)
        facts[("bnd", x)] = (lo, hi)
    elif c.op == "bin" and c.a[0] == "Eq" and not v:
        # different keys agree on at most 255 leading bits
        t = T("cpl", *sorted((c.a[1], c.a[2])))
        facts[("bnd", t)] = (0, 255)
        for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
            if y is TM.Int(0) and (("uns", x) in facts or x.op == "len"):
                lo, hi = facts.get(("bnd", x), (None, None))
                facts[("bnd", x)] = (max(1, lo or 1), hi)
    elif c.op == "bin" and c.a[0] == "Eq" and v:
        x, y = c.a[1], c.a[2]
        if x.op == "int":
            x, y = y, x
        if y.op == "int":
            facts[("bnd", x)] = (y.a[0], y.a[0])
            # a sum of sizes is at its least only if each of them is
            if x.op == "lin" and all(k > 0 for k, _ in x.a[1]) and len(x.a[1]) > 1:
                lows = [bounds(facts, z)[0] for _, z in x.a[1]]
                if None not in lows and x.a[0] + sum(k * l for (k, _), l in zip(x.a[1], lows)) == y.a[0]:
                    for (_, z), l in zip(x.a[1], lows):
                        if not learn(facts, TM.Eq(z, TM.Int(l)), True):
                            return False
        elif ("uns", x) in facts or ("uns", y) in facts or ("bnd", gap(x, y)) in facts:
            facts[("bnd", gap(x, y))] = (0, 0)
    return True


def truth(facts, c):
    if c.op == "not":
        r = truth(facts, c.a[0])
        return None if r is None else not r
    return implied(facts, c)


def holds(facts, c):
    return truth(facts, c) is True


def assume(facts, c, v, variants=None):
    if c.op == "not":
        return assume(facts, c.a[0], not v, variants)
    if c.op == "bin" and c.a[0] == "BitAnd" and v and c.a[1].op in ("bin", "not", "is"):
        return assume(facts, c.a[1], True) and assume(facts, c.a[2], True)
    if c.op == "bin" and c.a[0] == "BitOr" and not v and c.a[1].op in ("bin", "not", "is"):
        return assume(facts, c.a[1], False) and assume(facts, c.a[2], False)
    return learn(facts, c, v, variants)


def meet(fs):
    out = dict(fs[0])
    for f in fs[1:]:
        for k in list(out):
            if k not in f or f[k] != out[k]:
                v = implied(f, k) if isinstance(k, Term) else None
                if v is None or v != out[k]:
                    del out[k]
    # what distinguishes the merged states is kept as a disjunction (see worlds)
    def own(f, k, v):
        return implied(out, k) != v if isinstance(k, Term) else k[0] == "alts" and k not in out
    alts = frozenset(frozenset((k, v) for k, v in f.items() if own(f, k, v)) for f in fs)
    if frozenset() not in alts:
        out[("alts", alts)] = True
    return out


def worlds(facts, cap=96):
    """the states a merged path stands for"""
    todo, out = [dict(facts)], []
    while todo:
        f = todo.pop()
        k = next((k for k in f if not isinstance(k, Term) and k[0] == "alts"), None)
        if k is None:
            out.append(f)
            continue
        del f[k]
        for alt in k[1]:
            g = dict(f)
            ok = True
            for kk, vv in sorted(alt, key=lambda x: repr(x[0])):
                if isinstance(kk, Term):
                    if not learn(g, kk, vv):
                        ok = False
                        break
                else:
                    g[kk] = vv
            if ok:
                todo.append(g)
        if len(todo) + len(out) > cap:
            f = dict(facts)
            for k in [k for k in f if not isinstance(k, Term) and k[0] == "alts"]:
                del f[k]
            f[("lossy",)] = True
            return [f]
    return out


def zero_sum(c):
    """lengths whose sum is compared with zero"""
    if c.op == "bin" and c.a[0] == "Eq":
        for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
            if x.op == "int" and x.a[0] == 0 and y.op == "lin" and y.a[0] == 0 and len(y.a[1]) > 1 \
                    and all(k > 0 and t.op == "len" for k, t in y.a[1]):
                return [t for _, t in y.a[1]]
    return None


class Engine:
    def __init__(self, prog, opaque=(), intrinsics=None, kmax=48, max_depth=14, budget=400000,
                 inline=None, loop_k=8, trips=0):
        self.p = prog
        self.kmax = kmax
        self.loop_k = loop_k
        self.max_depth = max_depth
        self.opaque = opaque if callable(opaque) else (lambda b, s=set(opaque): b["id"] in s)
        self.intrinsics = intrinsics or {}
        self.inline = inline
        self.events = []
        self.panics = []
        self.loops = {}
        self.passes = {}
        self.calls = set()
        self.inlined = set()
        self.fids = {}
        self.fnitems = {}
        self.steps = 0
        self.uctx = ()
        self.trips = trips
        self.budget = budget
        self.unknown = set()
        self.notes = []
        import models
        self.models = models.MODELS
        self.mod = models

    # ------------------------------------------------------------ memory
    def load(self, st, root, proj):
        t = st.env.get(root)
        if t is None:
            t = root[1] if root[0] == "O" else T("uninit", root)
        for e in proj:
            if e[0] == "f":
                t = Fld(t, e[1])
            elif e[0] == "v":
                t = As(t, e[1])
            elif e[0] == "i":
                t = Idx(t, e[1])
            elif e[0] == "m":
                t = t.a[2] if t.op == "mapset" and t.a[1] is e[1] else Fld(As(TM.Call("get", t, e[1]), "Some"), "0")
            else:
                t = T("sub", t, e)
        return t

    def upd(self, t, proj, v):
        if not proj:
            return v
        e = proj[0]
        if e[0] == "f":
            return Upd(t, e[1], self.upd(Fld(t, e[1]), proj[1:], v))
        if e[0] == "v":
            r = self.upd(As(t, e[1]), proj[1:], v)
            if e[1] == "Some" and r.op == "upd" and r.a[1] == "0":
                return Some(r.a[2])
            return r
        if e[0] == "i":
            return Store(t, e[1], self.upd(Idx(t, e[1]), proj[1:], v))
        if e[0] == "m":
            old = t.a[2] if t.op == "mapset" and t.a[1] is e[1] else Fld(As(TM.Call("get", t, e[1]), "Some"), "0")
            return T("mapset", t.a[0] if t.op == "mapset" and t.a[1] is e[1] else t, e[1], self.upd(old, proj[1:], v))
        return T("updsub", t, e, v)

    def store(self, st, root, proj, v):
        if not proj:
            st.env[root] = v
            return
        t = st.env.get(root)
        if t is None:
            t = root[1] if root[0] == "O" else T("uninit", root)
        st.env[root] = self.upd(t, proj, v)

    def loc(self, st, fr, pl, write=False):
        root, proj = ("L", fr.fid, pl["l"]), ()
        for e in pl["p"]:
            k = e[0]
            if k == "deref":
                v = self.load(st, root, proj)
                if v.op == "ref":
                    root, proj = v.a
                elif ("O", v) in st.env or write:
                    root, proj = ("O", v), ()
            elif k == "field":
                if e[3] in ("std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull",
                            "std::ptr::Unique", "std::ptr::NonNull"):
                    continue
                proj = proj + (("f", e[2]),)
            elif k == "variant":
                proj = proj + (("v", e[2]),)
            elif k == "index":
                proj = proj + (("i", self.load(st, ("L", fr.fid, e[1]), ())),)
            elif k == "cindex":
                proj = proj + (("i", Int(e[1]) if not e[3] else T("fromend", e[1])),)
            else:
                proj = proj + (("s",) + tuple(str(x) for x in e),)
        return root, proj

    def read(self, st, fr, pl):
        return self.load(st, *self.loc(st, fr, pl))

    def deref(self, st, v):
        """value behind a reference value"""
        n = 0
        while v.op == "ref" and n < 8:
            v = self.load(st, *v.a)
            n += 1
        if ("O", v) in st.env:
            return st.env[("O", v)]
        return v

    def snap(self, st, v, depth=0):
        """copy of v with mutable references replaced by what they point to"""
        if v.op == "ref":
            return self.snap(st, self.load(st, *v.a), depth + 1) if depth < 8 else v
        if depth < 5 and v.op in ("tuple", "agg", "clos"):
            if v.op == "tuple" and any(True for _ in v.a[0]):
                return T("tuple", tuple(self.snap(st, x, depth + 1) for x in v.a[0]))
            if v.op == "agg":
                return T("agg", v.a[0], v.a[1], v.a[2], tuple(self.snap(st, x, depth + 1) for x in v.a[3]))
            if v.op == "clos":
                return T("clos", v.a[0], v.a[1], tuple(self.snap(st, x, depth + 1) for x in v.a[2]))
        return v

    # ------------------------------------------------------------ operands
    def subst(self, fr, s):
        for k, v in fr.subst:
            if k == s:
                return v
        if fr.subst and any(k in s for k, _ in fr.subst):
            m = dict(fr.subst)
            return re.sub(r"[A-Za-z_']\w*", lambda x: m.get(x.group(0), x.group(0)), s)
        return s

    def operand(self, st, fr, o):
        k = o["k"]
        if k in ("copy", "move"):
            return self.read(st, fr, o["pl"])
        if k == "const":
            return self.const(st, fr, o)
        return T("rtcheck")

    def const(self, st, fr, o):
        if "fn" in o:
            return self.fnitem(fr, o["fn"])
        if "bool" in o:
            return Bool(o["bool"])
        if "int" in o:
            return Int(o["int"])
        if "str" in o:
            return T("str", o["str"])
        if "bytes" in o:
            return T("bytes", o["bytes"])
        if "promoted" in o:
            bid = "%s#p%d" % (o["owner"], o["promoted"])
            b = self.p.bodies.get(bid)
            if b:
                try:
                    rs = self.call_body(State(), fr, b, [], fr.subst, None)
                    if len(rs) == 1:
                        return rs[0][1]
                except Unsupported:
                    pass
            return T("konst", bid)
        if "zst" in o and o["ty"] == "()":
            return UNIT
        if o["ty"].startswith("std::option::Option") and "cpath" not in o and "indirect" in o:
            return T("konst", o["ty"])
        if "tyconst" in o:
            return T("konst", self.subst(fr, o["tyconst"]))
        if "cpath" in o:
            return T("konst", o["cpath"])
        if "zst" in o:
            t = self.subst(fr, o["ty"])
            p = head(t)
            if p in self.p.ctors and not self.p.ctors[p][2]:
                c = self.p.ctors[p]
                return Agg(c[0], c[1], (), ())
            if "PhantomData" in t:
                return T("konst", "PhantomData")
            return T("konst", t)
        return T("konst", o["ty"])

    def fnitem(self, fr, f):
        key = (f.get("rid", f["id"]), tuple(self.subst(fr, a) for a in f.get("rargs", f["args"])),
               f["path"], tuple(self.subst(fr, a) for a in f["args"]))
        key = repr(key)
        self.fnitems[key] = (f, fr.subst)
        return T("fn", f["path"], key)

    def rvalue(self, st, fr, r):
        k = r["k"]
        if k == "use":
            return self.operand(st, fr, r["o"])
        if k == "ref":
            if r["mut"]:
                root, proj = self.loc(st, fr, r["pl"], write=True)
                return T("ref", root, proj)
            return self.read(st, fr, r["pl"])
        if k == "rawptr":
            return self.read(st, fr, r["pl"])
        if k == "bin":
            a, b = self.operand(st, fr, r["a"]), self.operand(st, fr, r["b"])
            a, b = self.deref(st, a), self.deref(st, b)
            op = r["op"]
            ty = r["ty"]
            self.intty(st, a, ty)
            self.intty(st, b, ty)
            if op.endswith("WithOverflow"):
                op = op[:-12]
                v = Bin(op, a, b, ty)
                o = T("ovf", op, a, b, ty)
                if a.op == "int" and b.op == "int":
                    o = FALSE
                return Tup(v, o)
            v = Bin(op, a, b, ty)
            if op in ("Lt", "Le", "Gt", "Ge") and ty.startswith("u"):
                # an unsigned x: 0 < x is x != 0
                w = v.a[0] if v.op == "not" else v
                if w.op == "bin" and w.a[0] == "Lt" and w.a[1] is Int(0) and w.a[2] in (a, b):
                    w = Eq(w.a[2], Int(0))
                    v = w if v.op == "not" else Not(w)
            return v
        if k == "un":
            a = self.deref(st, self.operand(st, fr, r["a"]))
            if r["op"] == "Not":
                if r["ty"] == "bool":
                    return Not(a)
                if a.op == "int" and r["ty"] in INTS:
                    return Int(((1 << INTS[r["ty"]]) - 1) & ~a.a[0])
                return T("un", "Not", a)
            if r["op"] == "PtrMetadata":
                return Len(a)
            return T("un", r["op"], a)
        if k == "cast":
            a = self.operand(st, fr, r["o"])
            ck = r["ck"]
            if "Unsize" in ck:
                m = re.search(r"\[[^\[\]]*; (\d+)\]>?$", r["from"])
                if m:
                    d = self.deref(st, a)
                    if d.op not in ("array", "bytes", "repeat", "ref"):
                        TM.KNOWN_LEN[d] = int(m.group(1))
            if ck.startswith("IntToInt"):
                f, t = INTS.get(r["from"]), INTS.get(r["ty"])
                if r["from"] == "bool":
                    return T("b2i", a) if a.op != "bool" else Int(int(a.a[0]))
                if f is None and r["from"] not in INTS:
                    if a.op == "discr":
                        return a
                    return T("cast", r["ty"], a)
                if t is not None and f is not None and t < f:
                    if a.op == "int":
                        return Int(a.a[0] & ((1 << t) - 1))
                    lo, hi = bounds(st.facts, a)
                    if lo is not None and lo >= 0 and hi is not None and hi < (1 << t):
                        return a
                    return T("trunc", t, a)
                return a
            return a
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r["ops"]]
            ak = r["ak"]
            if ak == "adt":
                return Agg(r["adt"], r["variant"], r["fields"], ops)
            if ak == "tuple":
                return T("tuple", tuple(ops))
            if ak == "array":
                if r.get("ty") == "u8" and all(o.op == "int" for o in ops):
                    return T("bytes", bytes(o.a[0] for o in ops).hex())
                return T("array", tuple(ops))
            if ak == "closure":
                return T("clos", r["closure"], fr.subst, tuple(ops))
            return T("aggother", tuple(ops))
        if k == "discr":
            v = self.deref(st, self.read(st, fr, r["pl"]))
            return self.discr(v, r)
        if k == "repeat":
            a = self.operand(st, fr, r["o"])
            n = r["n"]
            m = re.match(r"^(\d+)(_usize)?$", n)
            n = int(m.group(1)) if m else n
            if a.op == "int" and isinstance(n, int) and n <= 4096 and a.a[0] < 256:
                return T("bytes", ("%02x" % a.a[0]) * n)
            return T("repeat", a, n)
        return T("rv", r.get("d", k))

    def intty(self, st, x, ty):
        if ty.startswith("u") and ty in INTS and x.op not in ("int",):
            st.facts.setdefault(("uns", x), 0)

    def discr(self, v, r):
        vs = tuple((x[0], x[1]) for x in r["variants"]) if r.get("variants") else None
        if v.op == "agg" and vs:
            for d, n in vs:
                if n == v.a[1]:
                    return Int(d)
        return T("discr", v, vs)

    # ------------------------------------------------------------ blocks
    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()

    def stmts(self, st, fr, bb):
        for s in bb["s"]:
            if s["k"] == "assign":
                v = self.rvalue(st, fr, s["rv"])
                if s["pl"]["p"]:
                    root, proj = self.loc(st, fr, s["pl"], write=True)
                    self.store(st, root, proj, v)
                else:
                    st.env[("L", fr.fid, s["pl"]["l"])] = v
            elif s["k"] == "setdiscr":
                pass

    def assign(self, st, fr, pl, v):
        if pl["p"]:
            root, proj = self.loc(st, fr, pl, write=True)
            self.store(st, root, proj, v)
        else:
            st.env[("L", fr.fid, pl["l"])] = v

    def branch(self, st, c):
        """-> [(state, bool)] for boolean term c"""
        t = truth(st.facts, c)
        if t is not None:
            return [(st, t)]
        z = zero_sum(c)
        if z:
            # lengths add up to nothing when each is nothing
            out, todo = [], [st]
            for x in z:
                nxt = []
                for s in todo:
                    for s2, b in self.branch(s, Eq(Int(0), x)):
                        (nxt if b else out).append(s2)
                todo = nxt
            return [(s, True) for s in todo] + [(s, False) for s in out]
        out = []
        s2 = st.clone()
        if assume(s2.facts, c, True):
            out.append((s2, True))
        if assume(st.facts, c, False):
            out.append((st, False))
        return out

    def cases(self, st, v, variants):
        """-> [(state, variant)] splitting on the variant of v"""
        v = self.deref(st, v)
        if v.op == "agg":
            return [(st, v.a[1])]
        if v.op == "upd":
            b = v
            while b.op == "upd":
                b = b.a[0]
            if b.op == "as":
                return [(st, b.a[1])]
        if v.op == "phi":
            out = []
            for x in v.a[0]:
                s2 = st.clone()
                for s3, var in self.cases(s2, x, variants):
                    out.append((s3, var))
            # group by variant: merge facts
            g = {}
            for s, var in out:
                g.setdefault(var, []).append(s)
            res = []
            for var, ss in g.items():
                s = ss[0]
                if len(ss) > 1:
                    s = State(ss[0].env, meet([x.facts for x in ss]), ss[0].did)
                learn(s.facts, Is(v, var), True, variants)
                res.append((s, var))
            return res
        out = []
        for i, var in enumerate(variants):
            s2 = st.clone()
            c = Is(v, var)
            if c.op == "bool":
                if c.a[0]:
                    out.append((s2, var))
                continue
            if c.op == "is":
                if learn(s2.facts, c, True, tuple(variants)):
                    out.append((s2, var))
            elif assume(s2.facts, c, True):
                out.append((s2, var))
        return out

    def term(self, st, fr, bi):
        """execute terminator: -> ([(target, state)], [(state, retval)])"""
        bb = fr.body["blocks"][bi]
        t = bb["t"]
        k = t["k"]
        if k == "goto" or k == "drop":
            return [(t["t"], st)], []
        if k == "return":
            v = st.env.get(("L", fr.fid, 0), UNIT)
            return [], [(st, v)]
        if k == "switch":
            v = self.deref(st, self.operand(st, fr, t["o"]))
            return self.switch(st, fr, t, v), []
        if k == "assert":
            if t["mk"] == "other":
                return [(t["t"], st)], []      # rustc's own pointer checks on references / boxes
            c = self.operand(st, fr, t["o"])
            want = Bool(t["exp"])
            ops = [self.deref(st, self.operand(st, fr, o)) for o in t["mops"]]
            cond = c if t["exp"] else Not(c)
            r = truth(st.facts, cond)
            if r is True:
                return [(t["t"], st)], []
            if c.op == "ovf" and self.no_ovf(st, c):
                return [(t["t"], st)], []
            self.panics.append(Panic(kind=t["mk"], ops=ops, facts=dict(st.facts), site=t["sp"],
                                     stack=fr.stack(), did=st.did))
            if r is False:
                return [], []
            if c.op != "ovf":
                assume(st.facts, cond, True)
            else:
                self.learn_ovf(st, c)
            return [(t["t"], st)], []
        if k == "call":
            outs = self.call(st, fr, t)
            res = []
            for s, v in outs:
                if t["t"] is None:
                    continue
                self.assign(s, fr, t["dest"], v)
                res.append((t["t"], s))
            return res, []
        return [], []

    def no_ovf(self, st, c):
        op, a, b, ty = c.a
        n = INTS.get(ty)
        if n is None:
            return False
        la, ha = bounds(st.facts, a)
        lb, hb = bounds(st.facts, b)
        r = Bin(op, a, b, ty)
        lr, hr = bounds(st.facts, r)
        if ty.startswith("u"):
            if op == "Sub":
                if truth(st.facts, Le(b, a)) is True:
                    return True
                return lr is not None and lr >= 0
            if op in ("Add", "Mul"):
                return hr is not None and hr < (1 << n)
            if op == "Shl" or op == "Shr":
                return hb is not None and hb < n
        return False

    def learn_ovf(self, st, c):
        op, a, b, ty = c.a
        if ty.startswith("u") and op == "Sub":
            assume(st.facts, Le(b, a), True)

    def switch(self, st, fr, t, v):
        targets = t["targets"]
        if v.op == "int":
            for x, b in targets:
                if x == v.a[0]:
                    return [(b, st)]
            return [(t["otherwise"], st)]
        if v.op == "bool":
            n = int(v.a[0])
            for x, b in targets:
                if x == n:
                    return [(b, st)]
            return [(t["otherwise"], st)]
        if v.op == "discr":
            base, vs = v.a
            if vs is None:
                vs = tuple((x, str(x)) for x, _ in targets)
            names = [n for _, n in vs]
            out = []
            tmap = {x: b for x, b in targets}
            byname = {n: d for d, n in vs}
            for s, var in self.cases(st, base, names):
                d = byname.get(var)
                b = tmap.get(d, t["otherwise"])
                if fr.body["blocks"][b]["t"]["k"] == "unreachable" and not fr.body["blocks"][b]["s"]:
                    continue
                out.append((b, s))
            return out
        if t["ty"] == "bool":
            out = []
            tmap = {x: b for x, b in targets}
            for s, val in self.branch(st, v):
                out.append((tmap.get(int(val), t["otherwise"]), s))
            return out
        out = []
        cur = st
        for x, b in targets:
            s2 = cur.clone()
            if assume(s2.facts, Eq(v, Int(x)), True):
                out.append((b, s2))
            cur = cur.clone()
            if not assume(cur.facts, Eq(v, Int(x)), False):
                cur = None
                break
        if cur is not None:
            out.append((t["otherwise"], cur))
        return out

    # ------------------------------------------------------------ merging
    def prune(self, st, fr, b):
        info = self.p.info(fr.body)
        live = info.live[b]
        dead = [r for r in st.env if r[0] == "L" and r[1] == fr.fid and r[2] not in live
                and r[2] not in info.taken]
        for r in dead:
            del st.env[r]

    def merge(self, sts, kmax=None):
        kmax = kmax or self.kmax
        if len(sts) <= 1:
            return sts
        # exact duplicates
        g = {}
        for s in sts:
            k = (frozenset(s.env.items()), frozenset(x for x in s.facts.items() if isinstance(x[0], Term) or x[0][0] == "alts"), s.did)
            g.setdefault(k, s)
        sts = list(g.values())
        if len(sts) <= kmax:
            return sts
        g = {}
        for s in sts:
            g.setdefault(frozenset(s.env.items()), []).append(s)
        sts = [ss[0] if len(ss) == 1 else
               State(ss[0].env, meet([x.facts for x in ss]), frozenset.intersection(*[x.did for x in ss]))
               for ss in g.values()]
        if len(sts) <= kmax:
            return sts
        g = {}
        for s in sts:
            k = tuple(sorted(((r, v.a[1]) for r, v in s.env.items() if v.op == "agg" and v.a[1]), key=repr))
            g.setdefault(k, []).append(s)
        if len(g) > kmax:
            g = {0: sts}
        self.notes.append(("merged", len(sts), len(g)))
        return [self.join(ss) for ss in g.values()]

    def join(self, ss):
        if len(ss) == 1:
            return ss[0]
        env = {}
        for r in set().union(*[s.env.keys() for s in ss]):
            vs = []
            for s in ss:
                if r in s.env:
                    vs.append(s.env[r])
                elif r[0] == "O":
                    vs.append(r[1])
            env[r] = Phi(vs)
        return State(env, meet([x.facts for x in ss]), frozenset.intersection(*[x.did for x in ss]))

    # ------------------------------------------------------------ regions & loops
    def region(self, fr, blocks, entry, sts, loop_head=None):
        info = self.p.info(fr.body)
        pending = {entry: list(sts)}
        exits, backs, rets = {}, [], []
        first = True
        for b in info.rpo:
            if b not in blocks or b not in pending:
                continue
            ss = pending.pop(b)
            for s in ss:
                self.prune(s, fr, b)
            ss = self.merge(ss)
            if b in info.loops and b != loop_head:
                ss = self.merge(ss, self.loop_k)
                for s in ss:
                    ex, rt = self.loopfix(fr, info.loops[b], b, s)
                    rets += rt
                    for tb, xs in ex.items():
                        if tb == loop_head:
                            backs += xs
                        elif tb in blocks:
                            pending.setdefault(tb, []).extend(xs)
                        else:
                            exits.setdefault(tb, []).extend(xs)
                continue
            for s in ss:
                self.tick()
                self.stmts(s, fr, fr.body["blocks"][b])
                nx, rt = self.term(s, fr, b)
                rets += rt
                for tb, s2 in nx:
                    if tb == loop_head:
                        backs.append(s2)
                    elif tb in blocks:
                        pending.setdefault(tb, []).append(s2)
                    else:
                        exits.setdefault(tb, []).append(s2)
        return exits, backs, rets

    def gen(self, a, b, path, uid, V):
        """generalise entry value a against back-edge value b: positions that change"""
        if a is b:
            return
        it, n = unadv(b)
        if a.op == "itpos" and it is a:
            return
        if a.op == "itpos" and unadv(it)[0] is a:
            return
        if it is a and n and a.op != "loopvar":
            V[path] = "it"
            return
        ia, na = unadv(a)
        if na and it is ia and n > na:
            V[path] = "it"
            return
        if a.op == "itpos" and unadv(it)[0] is unadv(a.a[0])[0] and n > unadv(a.a[0])[1] and it.op != "itpos":
            return
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(path) < 5:
            for nme, x, y in zip(a.a[2], a.a[3], b.a[3]):
                self.gen(x, y, path + (("f", nme),), uid, V)
            return
        if a.op == "tuple" and b.op == "tuple" and len(a.a[0]) == len(b.a[0]) and len(path) < 5:
            for i, (x, y) in enumerate(zip(a.a[0], b.a[0])):
                self.gen(x, y, path + (("f", str(i)),), uid, V)
            return
        if (b.op == "upd" or a.op == "upd") and len(path) < 5:
            # object with some fields changed
            names, ba, bb = set(), a, b
            while bb.op == "upd":
                names.add(bb.a[1])
                bb = bb.a[0]
            while ba.op == "upd":
                names.add(ba.a[1])
                ba = ba.a[0]
            if ba is not bb and "agg" in (a.op, b.op):
                names |= set((a if a.op == "agg" else b).a[2])
                ba = bb
            if ba is bb:
                for nme in sorted(names):
                    self.gen(Fld(a, nme), Fld(b, nme), path + (("f", nme),), uid, V)
                return
        V[path] = "v"

    def loop_run(self, S, key, run, site=None, stack=(), kind="loop"):
        """generic loop abstraction.  run(head_state) -> (backs, exits) where exits is any object.
        Returns (exits, uid, backs); uid None when the loop had a constant trip count and was unrolled."""
        r = self.unroll(S, run)
        if r is not None:
            return r, None, []
        key = key + self.uctx
        V = {}
        mark = (len(self.events), len(self.panics), set(self.loops))
        base = S
        twins = {}
        for rnd in range(8):
            head = base.clone()
            head.facts.update(twins)
            uid = T("loopid", key, tuple(sorted(((repr(r), self.load(base, r, p)) for r, p in V),
                                                key=lambda z: (z[0], z[1].id))))
            hv = {}
            for (root, path), kind_ in sorted(V.items(), key=lambda z: (repr(z[0][0]), len(z[0][1]), repr(z[0][1]))):
                init = self.load(base, root, path)
                if kind_ == "it":
                    val = T("itpos", init, uid)
                else:
                    val = T("loopvar", uid, repr((self.rootname(root), path)))
                hv[(root, path)] = val
                self.store(head, root, path, val)
            del self.events[mark[0]:]
            del self.panics[mark[1]:]
            hsnap = head.clone()
            self.passes.pop(uid, None)
            backs, exits = run(head)
            newV = {}
            for bs in backs:
                for root in list(bs.env):
                    if root not in hsnap.env:
                        if root[0] != "O" or root[1].op == "boxobj":
                            continue
                        # object not named before the loop
                        if any(mentions_loop(root[1], uid) for _ in (0,)):
                            continue
                        a = root[1]
                    else:
                        a = hsnap.env[root]
                    b = bs.env[root]
                    vv = {}
                    self.gen(a, b, (), uid, vv)
                    for p, kd in vv.items():
                        newV[(root, p)] = kd
            add = False
            for (root, p), kd in newV.items():
                if (root, p) in V:
                    if V[(root, p)] == "it" and kd == "v":
                        V[(root, p)] = "v"
                        add = True
                    continue
                # covered by a shorter path?
                cov = [q for (r, q) in V if r == root and p[:len(q)] == q and V[(r, q)] == "v"]
                if cov:
                    continue
                for (r, q) in list(V):
                    if r == root and q[:len(p)] == p:
                        del V[(r, q)]
                V[(root, p)] = kd
                add = True
            if not add and not twins:
                twins = self.lockstep(S, hv, backs)
                if twins:
                    continue
            if not add:
                for s in states_of((backs, exits)):
                    for k in twins:
                        s.facts.pop(k, None)
                vars_ = {}
                for (root, p), val in hv.items():
                    nx = []
                    for bs in backs:
                        nx.append((self.delta(S.facts, bs.facts), self.load(bs, root, p)))
                    vars_[val] = dict(init=self.load(base, root, p), next=nx, root=root, path=p,
                                      name=self.rootname(root))
                self.loops[uid] = Loop(uid=uid, vars=vars_, exits=None, site=site, stack=stack,
                                       entry_facts=dict(S.facts), kind=kind,
                                       skips=[self.delta(S.facts, f) for o, f in self.passes.get(uid, ())
                                              if o in ("filter", "filter_map")],
                                       stops=[self.delta(S.facts, f) for o, f in self.passes.get(uid, ())
                                              if o in ("takewhile", "map_while")])
                m = self.count_prefix(S, vars_, backs, exits) or self.const_push(vars_, exits)
                # counters bounded by the length of a sequence the loop consumes
                adv = any(v.op == "itpos" and all(unadv(n)[0] is v and unadv(n)[1] for _, n in d["next"])
                          for v, d in vars_.items())
                if m or adv:
                    cnt = {v for v, d in vars_.items() if v.op == "loopvar" and all(
                        n is v or TM.Sub(n, v).op == "int" and 0 <= TM.Sub(n, v).a[0] <= 16 for _, n in d["next"])}
                    self.panics[mark[1]:] = [q for q in self.panics[mark[1]:] if not (
                        q.kind == "overflow:Add" and any(o in cnt for o in q.ops))]
                self.panics[mark[1]:] = [q for q in self.panics[mark[1]:] if not self.outrun(vars_, q)]
                if m:
                    exits = self.subst_exits(exits, m)
                return exits, uid, backs
        raise Unsupported("loop did not stabilise at %s" % (site,))

    def const_push(self, vars_, exits):
        """loop that appends the same element once per element of a space it exhausts: closed form"""
        its = [(v, d) for v, d in vars_.items() if v.op == "itpos"]
        seqs = [(v, d) for v, d in vars_.items() if v.op == "loopvar"]
        if len(its) != 1 or not seqs:
            return None
        (A, dA), m = its[0], {}
        r = rng(dA["init"])
        n = lengths(dA["init"])
        if n is None or len(n) != 1 or r is not None and r[0] is not Int(0):
            return None
        if any(unadv(x) != (A, 1) for _, x in dA["next"]):
            return None
        h = T("hasnext", dA["init"], 0, A.a[1])
        if any(implied(s.facts, h) is not False for s in states_of(exits)):
            return None
        for v, d in seqs:
            xs = {x for _, x in d["next"]}
            x = xs.pop() if len(xs) == 1 else None
            if x is None or x.op != "pushed" or x.a[0] is not v or mention(x.a[1], A.a[1]):
                return None
            m[v] = T("vecop", "resize", (d["init"], Add(TM.Len(d["init"]), n[0]), x.a[1]))
        return m

    def outrun(self, vars_, q):
        """whether a path needs an iterator to end earlier or later than a counter stepped along with it says"""
        for A, dA in vars_.items():
            if A.op != "itpos" or not dA["next"] or any(unadv(n) != (A, 1) for _, n in dA["next"]):
                continue
            more = q.facts.get(T("hasnext", A.a[0], 0, A.a[1]))
            n = lengths(A.a[0])
            if more is None or n is None or len(n) != 1:
                continue
            for K, d in vars_.items():
                if K.op == "loopvar" and d["init"].op == "int" and all(TM.Sub(x, K) is TM.Int(1) for _, x in d["next"]):
                    f = dict(q.facts)
                    if not assume(f, TM.Lt(TM.Sub(K, d["init"]), n[0]), more):
                        return True
        return False

    def lockstep(self, S, hv, backs):
        """iterators over as many elements each, all advanced once per round, end together"""
        groups = {}
        for (root, p), v in sorted(hv.items(), key=lambda z: z[1].id):
            if v.op != "itpos" or not backs or any(unadv(self.load(b, root, p)) != (v, 1) for b in backs):
                continue
            n = lengths(v.a[0])
            if n is None or len(n) != 1:
                continue
            h = T("hasnext", v.a[0], 0, v.a[1])
            for m, o in groups.items():
                if truth(S.facts, Eq(m, n[0])) is True:
                    o.append(h)
                    break
            else:
                groups[n[0]] = [h]
        return {("twin", x): y for hs in groups.values() for x, y in zip(hs, hs[1:] + hs[:1]) if len(hs) > 1}

    def passed(self, gen, op, st):
        """an element the iterator adaptor does not hand out"""
        if isinstance(gen, Term) and gen.op == "loopid":
            self.passes.setdefault(gen, []).append((op, dict(st.facts)))

    def unroll(self, S, run):
        """loop over a constant range / literal array: one pass per element, until no path goes on"""
        n, none = self.trips, False
        if n < 0:
            return None
        for r, v in S.env.items():
            if r[0] != "L":
                continue
            for x in ([v] + [y for y in v.a[3]] if v.op == "agg" else list(v.a[0]) if v.op == "tuple" else [v]):
                b, k = unadv(x)
                cs = self.mod.const_base(b)
                if cs is not None and cs[0] - k <= 20:
                    n = max(n, cs[0] - k)
                    none |= cs[0] == k
        if not n and not none:
            return None
        mark = (len(self.events), len(self.panics), dict(self.loops), self.steps, self.uctx)
        heads, out = [S.clone()], None
        for i in range(n + 1):
            self.uctx = mark[4] + (i,)
            nxt = []
            for h in heads:
                was = dict(h.env), dict(h.facts)
                backs, exits = run(h)
                # a round that changes nothing never ends
                nxt += [b for b in backs if (b.env, b.facts) != was]
                out = exits if out is None else join_exits(out, exits)
            heads = self.merge(nxt)
            if self.trips:
                from spec import bits_ok
                heads = [h for h in heads if bits_ok(h.facts)]
            if len(heads) > 64 or self.steps - mark[3] > 60000:
                break
            if not heads:
                self.uctx = mark[4]
                return out
        del self.events[mark[0]:]
        del self.panics[mark[1]:]
        self.loops, self.steps, self.uctx = mark[2], mark[3], mark[4]
        return None

    def count_prefix(self, S, vars_, backs, exits):
        """loop that advances two iterators while their elements agree, counting: closed form"""
        its = [(v, d) for v, d in vars_.items() if v.op == "itpos"]
        if len(its) == 1 and backs and its[0][1]["init"].op == "zip":
            return self.count_zip(its[0], vars_, backs, exits)
        if len(its) != 2 or not backs:
            return None
        (A, dA), (B, dB) = its
        n = cpn(dA["init"], dB["init"])
        if n is None:
            return None
        ea, eb = T("elem", dA["init"], 0, A.a[1]), T("elem", dB["init"], 0, B.a[1])
        eq = Eq(ea, eb)
        ha, hb = T("hasnext", dA["init"], 0, A.a[1]), T("hasnext", dB["init"], 0, B.a[1])
        live = []
        for i, b in enumerate(backs):
            if implied(b.facts, ha) is False and implied(b.facts, hb) is False:
                continue  # both exhausted: only for equal keys
            if implied(b.facts, eq) is not True or unadv(dA["next"][i][1]) != (A, 1) or unadv(dB["next"][i][1]) != (B, 1):
                return None
            live.append(i)
        if not live:
            return None
        for s in states_of(exits):
            if implied(s.facts, eq) is False or implied(s.facts, ha) is False or implied(s.facts, hb) is False:
                continue
            return None
        m = {}
        # the exit test may have consumed the first differing pair
        m[T("adv", 1, A)] = advance(dA["init"], Add(n, Int(1)))
        m[T("adv", 1, B)] = advance(dB["init"], Add(n, Int(1)))
        m[A], m[B] = advance(dA["init"], n), advance(dB["init"], n)
        for v, d in vars_.items():
            if v.op == "loopvar" and all(d["next"][i][1] is Add(v, Int(1)) for i in live):
                m[v] = Add(d["init"], n)
        return m

    def count_zip(self, it, vars_, backs, exits):
        """the same over the two iterators zipped"""
        A, dA = it
        z = dA["init"].a[:2]
        n = cpn(*z)
        if n is None:
            return None
        eq = Eq(T("elem", z[0], 0, A.a[1]), T("elem", z[1], 0, A.a[1]))
        h = T("hasnext", dA["init"], 0, A.a[1])
        if any(implied(b.facts, eq) is not True or unadv(x) != (A, 1) for b, (_, x) in zip(backs, dA["next"])):
            return None
        if any(implied(s.facts, eq) is not False and implied(s.facts, h) is not False for s in states_of(exits)):
            return None
        return {v: Add(d["init"], n) for v, d in vars_.items() if v.op == "loopvar" and all(
            x is Add(v, Int(1)) for _, x in d["next"])} or None

    def subst_exits(self, x, m):
        if isinstance(x, State):
            memo = {}
            x.env = {r if r[0] != "O" else ("O", substm(r[1], m, memo)): substm(v, m, memo) for r, v in x.env.items()}
            f = {}
            for k, v in x.facts.items():
                if isinstance(k, Term):
                    # conjuncts about the loop's own stepping are dropped, the rest renamed
                    k2 = substm(k, m, memo)
                    if k2 is not k and k.op in ("hasnext",):
                        continue
                    if k2.op == "not":
                        k2, v = k2.a[0], not v
                    if k2.op == "bool":
                        continue
                    f[k2] = v
                elif k[0] == "alts":
                    alts = self.subst_exits([dict(a) for a in k[1]], m)
                    f[("alts", frozenset(frozenset(a.items()) for a in alts))] = True
                else:
                    f[(k[0], substm(k[1], m, memo))] = v
            x.facts = f
            return x
        if isinstance(x, Term):
            return substm(x, m)
        if isinstance(x, dict):
            return {self.subst_exits(k, m): self.subst_exits(v, m) for k, v in x.items()}
        if isinstance(x, frozenset):
            return frozenset(self.subst_exits(v, m) for v in x)
        if isinstance(x, (list, tuple)):
            return type(x)(self.subst_exits(v, m) for v in x)
        return x

    def rootname(self, root):
        if root[0] == "L":
            return "L%s_%s" % (root[1], root[2])
        return show(root[1])

    def delta(self, old, new):
        return {k: v for k, v in new.items() if (isinstance(k, Term) or k[0] == "alts") and old.get(k) != v}

    def loopfix(self, fr, blocks, h, S):
        def run(head):
            ex, backs, rets = self.region(fr, blocks, h, [head], loop_head=h)
            return backs, (ex, rets)
        site = fr.body["blocks"][h]["t"].get("sp")
        (ex, rets), uid, backs = self.loop_run(S, ("bb", fr.fid, h), run, site=site, stack=fr.stack())
        if uid is None:
            return ex, rets
        self.loops[uid].exits = [(tb, [self.delta(S.facts, s.facts) for s in xs]) for tb, xs in ex.items()]
        return ex, rets

    # ------------------------------------------------------------ functions
    def fid(self, parent, site):
        k = (parent, site)
        if k not in self.fids:
            self.fids[k] = len(self.fids) + 1
        return self.fids[k]

    def call_body(self, st, fr, body, args, subst, site):
        key = (fr.fid if fr else 0, repr(site), body["id"])
        fid = self.fid(*key[:1], key[1:])
        nf = Frame(body, fid, tuple(subst), fr, site, (fr.depth + 1) if fr else 0)
        self.inlined.add(body["id"])
        # a stale activation of the same frame (loop iteration) must not leak
        for r in [r for r in st.env if r[0] == "L" and r[1] == fid]:
            del st.env[r]
        for i, a in enumerate(args):
            st.env[("L", fid, i + 1)] = a
        blocks = set(self.p.info(body).rpo)
        ex, backs, rets = self.region(nf, blocks, 0, [st])
        out = []
        for s, v in rets:
            for r in [r for r in s.env if r[0] == "L" and r[1] == fid]:
                if not self.escapes(s, r, v):
                    del s.env[r]
            out.append((s, v))
        return self.merge_rets(out, 600 if fr is None else None)

    def escapes(self, s, r, v):
        return v.op == "ref" and v.a[0] == r

    def merge_rets(self, outs, kmax=None):
        if len(outs) <= 1:
            return outs
        tmp = ("L", -1, 0)
        sts = []
        for s, v in outs:
            s.env[tmp] = v
            sts.append(s)
        sts = self.merge(sts, kmax or max(12, self.kmax // 2))
        return [(s, s.env.pop(tmp)) for s in sts]

    def local_body(self, fr, f):
        """body for callee f if it is a function of this crate"""
        for k in ("rid", "id"):
            if k in f and f[k] in self.p.bodies:
                b = self.p.bodies[f[k]]
                if k == "id" and f.get("trait") and b.get("in_trait") and not self.default_ok(fr, f):
                    return None
                args = f.get("rargs") if k == "rid" else f["args"]
                return b, [self.subst(fr, a) for a in args]
        # trait method whose self type became concrete through substitution
        if f.get("trait") in self.p.traits and "self" in f:
            s = head(self.subst(fr, f["self"]))
            for im in self.p.impls:
                if im.get("trait") == f["trait"] and head(im["self"]) == s:
                    for it in im["items"]:
                        b = self.p.bodies.get(it)
                        if b and b.get("name") == f["name"]:
                            full = self.subst(fr, f["self"])
                            return b, self.match_generics(b, im["self"], full)
        return None

    def match_generics(self, b, pat, ty):
        def args(s):
            i = s.find("<")
            if i < 0:
                return []
            out, d, cur = [], 0, ""
            for c in s[i + 1:s.rfind(">")]:
                if c == "<":
                    d += 1
                if c == ">":
                    d -= 1
                if c == "," and d == 0:
                    out.append(cur.strip())
                    cur = ""
                else:
                    cur += c
            out.append(cur.strip())
            return out
        m = dict(zip(args(pat), args(ty)))
        return [m.get(g, g) for g in b.get("generics", [])]

    def default_ok(self, fr, f):
        # default method body of a trait: usable unless an impl overrides it for a known self type
        s = self.subst(fr, f.get("self", ""))
        for im in self.p.impls:
            if im.get("trait") == f["trait"]:
                for it in im["items"]:
                    b = self.p.bodies.get(it)
                    if b and b.get("name") == f["name"]:
                        return False
        return True

    def in_stack(self, fr, body):
        f = fr
        while f is not None:
            if f.body["id"] == body["id"]:
                return True
            f = f.parent
        return False

    def call(self, st, fr, t):
        f = t["f"]
        args = [self.operand(st, fr, a) for a in t["args"]]
        if f["k"] == "const" and "fn" in f:
            return self.invoke_fn(st, fr, f["fn"], args, t["argtys"], t["destty"], t["sp"])
        fv = self.operand(st, fr, f)
        return self.invoke(st, fr, fv, args, t["sp"])

    def invoke_fn(self, st, fr, f, args, argtys, destty, sp):
        self.tick()
        path = f["path"]
        self.calls.add((fr.body["id"], f.get("rpath", path)))
        c = Call_(self, st, fr, f, args, argtys, destty, sp)
        m = self.intrinsics.get(path)
        if m is None and "rpath" in f:
            m = self.intrinsics.get(f["rpath"])
        if m is None:
            m = self.models.get(path)
        if m is None:
            m = self.mod.generic(c)
        if m is not None:
            r = m(c)
            if r is not None:
                return r
        # constructor used as function
        ctor = self.p.ctors.get(strip_generics(path))
        if ctor is None and path.rsplit("::", 1)[0] in ("std::option::Option", "std::result::Result", "std::prelude::v1"):
            nm = path.rsplit("::", 1)[1]
            home = {"Some": "std::option::Option", "Ok": "std::result::Result", "Err": "std::result::Result"}.get(nm)
            ctor = home and (home, nm, ["0"])
        if ctor and f["id"] not in self.p.bodies and len(ctor[2]) == len(args):
            return [(st, Agg(ctor[0], ctor[1], ctor[2], args))]
        lb = self.local_body(fr, f)
        if lb:
            b, targs = lb
            if not self.opaque(b) and not self.in_stack(fr, b) and fr.depth < self.max_depth \
                    and (self.inline is None or self.inline(b)):
                subst = tuple((g, a) for g, a in zip(b.get("generics", []), targs) if not g.startswith("'"))
                return self.call_body(st, fr, b, args, subst, (sp, f["path"]))
        return self.opaque_call(c)

    def opaque_call(self, c, name=None, havoc=True):
        st = c.st
        name = name or opaque_name(c)
        if not c.args:
            name = name + "<" + self.subst(c.fr, c.f.get("self", "")) + ">" if c.f.get("self") else name
        snaps = tuple(self.snap(st, a) for a in c.args)
        res = Call(name, *snaps)
        ev = Event(name=name, args=snaps, facts=dict(st.facts), did=st.did, site=c.sp,
                   stack=c.fr.stack(), res=res, callee=c.f, pre=c.args, tys=c.argtys)
        self.events.append(ev)
        st.did = st.did | {res}
        if c.f.get("path") not in self.models:
            self.unknown.add(c.f.get("rpath", c.f["path"]))
        if havoc:
            for i, a in enumerate(c.args):
                if a.op == "ref":
                    self.store(st, a.a[0], a.a[1], T("mut", name, i, snaps))
                elif a.op in ("agg", "tuple", "clos"):
                    self.havoc_inner(st, a, name, i, snaps)
                elif c.argtys and i < len(c.argtys) and c.argtys[i].startswith("&mut"):
                    st.env[("O", a)] = T("mut", name, i, snaps)
        return [(st, res)]

    def havoc_inner(self, st, a, name, i, snaps, depth=0):
        if depth > 4:
            return
        for x in kids(a):
            if x.op == "ref":
                self.store(st, x.a[0], x.a[1], T("mut", name, i, snaps))
            elif x.op in ("agg", "tuple", "clos"):
                self.havoc_inner(st, x, name, i, snaps, depth + 1)

    def invoke(self, st, fr, fv, args, sp):
        """call a closure / fn item value"""
        fv = self.deref(st, fv)
        if fv.op == "clos":
            b = self.p.bodies.get(fv.a[0])
            if b is None or self.in_stack(fr, b) or fr.depth > self.max_depth + 4:
                return [(st, Call("closure:" + fv.a[0], *[self.snap(st, a) for a in args]))]
            n = b["argc"] - 1
            if n != len(args) and len(args) == 1 and args[0].op == "tuple":
                args = list(args[0].a[0])
            return self.call_body(st, fr, b, [fv] + list(args), fv.a[1], (sp, "clos"))
        if fv.op == "fn":
            f, subst = self.fnitems[fv.a[1]]
            fr2 = Frame(fr.body, fr.fid, tuple(subst), fr.parent, fr.site, fr.depth)
            tys = [""] * len(args)
            return self.invoke_fn(st, fr2, f, list(args), tys, "", sp)
        if fv.op == "phi":
            out = []
            for x in fv.a[0]:
                out += self.invoke(st.clone(), fr, x, args, sp)
            return out
        snaps = tuple(self.snap(st, a) for a in args)
        return [(st, T("apply", self.snap(st, fv), snaps))]

    # ------------------------------------------------------------ entry
    def run(self, body, args=None, facts=None):
        """analyse `body` as an entry point; -> [(state, retval)]"""
        st = State()
        vals = []
        names = {p["l"]: n for n, p in body["names"] if not p["p"]}
        for i in range(body["argc"]):
            ty = body["locals"][i + 1]
            nm = names.get(i + 1, "arg%d" % (i + 1))
            v = (args or {}).get(i, None)
            if v is None:
                v = Par("a%d" % i if i or not nm == "self" else "self")
                if ty.startswith("&") and re.match(r"^&('\w+ |'\{erased\} )?mut ", ty):
                    st.env[("O", v)] = v
                    v = T("ref", ("O", v), ())
            vals.append(v)
        if facts:
            for c, b in facts:
                assume(st.facts, c, b)
        subst = tuple((g, g) for g in body.get("generics", []) if not g.startswith("'"))
        return self.call_body(st, None, body, vals, subst, ("entry", body["id"]))


def join_exits(a, b):
    if isinstance(a, dict):
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, []) + v
        return out
    if isinstance(a, tuple):
        return tuple(join_exits(x, y) for x, y in zip(a, b))
    return a + b


def states_of(x):
    if isinstance(x, State):
        yield x
    elif isinstance(x, dict):
        for v in x.values():
            yield from states_of(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from states_of(v)


def mentions_loop(t, uid):
    return any(x.op == "loopvar" and x.a[0] is uid for x in subterms(t))


def unadv(t):
    if t.op == "adv":
        return t.a[1], t.a[0]
    return t, 0


def strip_generics(p):
    out, d = "", 0
    for c in p:
        if c == "<":
            d += 1
        if d == 0:
            out += c
        if c == ">":
            d -= 1
    return out.replace("::::", "::")


def opaque_name(c):
    f = c.f
    return strip_generics(f["path"]) if not f["path"].startswith("<") else f["path"]


class Call_:
    __slots__ = ("e", "st", "fr", "f", "args", "argtys", "destty", "sp")

    def __init__(self, e, st, fr, f, args, argtys, destty, sp):
        self.e, self.st, self.fr, self.f, self.args, self.argtys, self.destty, self.sp = \
            e, st, fr, f, args, argtys, destty, sp

    def val(self, i):
        return self.e.deref(self.st, self.args[i])

    def ret(self, v):
        return [(self.st, v)]

    def panic(self, st, kind, ops=()):
        self.e.panics.append(Panic(kind=kind, ops=list(ops), facts=dict(st.facts), site=self.sp,
                                   stack=self.fr.stack(), did=st.did))

    def inv(self, st, f, args):
        return self.e.invoke(st, self.fr, f, args, self.sp)

    def selfty(self):
        return self.e.subst(self.fr, self.f.get("self", ""))
