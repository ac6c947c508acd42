"""The iterator: where it starts, how it moves on, and what it yields."""
import index as IX
from rules import prop
from rules.cache import Key, state
from rules.domain import *
from rules.nodes import NN
from rules.read import EmptyPath, Walk, ended, guarded, put, verdict
from spec import *
from terms import *

VFIELDS = ("node_key", "node", "children_bitmap", "next_child_to_visit")
IFIELDS = ("reader", "version", "parent_stack", "done")


class IN:
    def __init__(self, c):
        self.v = {n: c.field("NodeVisitInfo", n, i) for i, n in enumerate(VFIELDS)}
        self.i = {n: c.field("JellyfishMerkleIterator", n, i) for i, n in enumerate(IFIELDS)}
        fs = {f["name"]: f["ty"] for f in c.adt("NodeVisitInfo")["variants"][0]["fields"]}
        for n in ("children_bitmap", "next_child_to_visit"):
            if fs[self.v[n]] != "u16":
                raise Undet("the bookkeeping of visited children was not recognised")


def visits(c):
    """the bookkeeping of one visited node, kept abstract (`visiting` analyses it)"""
    out = {}

    def m(ty, n, f):
        b = c.method(ty, n, opt=True)
        if b:
            out[b["path"]] = f

    def adv(k):
        setref(k, 0, T("advanced", k.e.snap(k.st, k.val(0))))
        return k.ret(UNIT)

    def clean(k):
        setref(k, 0, T("cleaned", k.e.snap(k.st, k.val(0))))
        return k.ret(UNIT)
    snap = lambda k, i: k.e.snap(k.st, k.val(i))
    m("NodeVisitInfo", "advance", adv)
    m("NodeVisitInfo", "is_rightmost", lambda k: k.ret(T("rightmost", snap(k, 0))))
    m("NodeVisitInfo", "new", lambda k: k.ret(T("visit", snap(k, 0), snap(k, 1), NONE)))
    m("NodeVisitInfo", "new_next_child_to_visit", lambda k: k.ret(T("visit", snap(k, 0), snap(k, 1), Some(k.val(2)))))
    m("JellyfishMerkleIterator", "cleanup_stack", clean)
    return out


def intr_of(c):
    return {**Dom(c).path(), **Dom(c).bitmaps(), **children(c), **storage(c), **visits(c)}


class Bit(M):
    """the number with only this bit set"""

    def __init__(self, j):
        self.j = j

    def m(self, X, st, v):
        if v.op == "int":
            return (True, "") if v.a[0] == 1 << self.j else (False, "points to %s, expected child %d" % (bin(v.a[0]), self.j))
        if v.op == "bin" and v.a[0].startswith("Shl") and v.a[1] is Int(1):
            k = v.a[2]
            f = dict(st.facts)
            assume(f, Eq(k, Int(self.j)), False)
            if implied(st.facts, Eq(k, Int(self.j))) is True or not bits_ok(f):
                return True, ""
            f = consistent(st.facts, [(Eq(k, Int(self.j)), False)])
            r = by_mask(st, v, self.j) if f is not None else (None, "")
            if r[0] is not None:
                return r
            return (True, "") if f is None else (False, "points to child %s, expected %d" % (short(k), self.j))
        if v.op == "bin" and v.a[0][:3] in ("Shl", "Shr") and v.a[1].op == "int":
            # another number shifted: by how far is known from which children there are
            got = set()
            for i in range(16):
                f = consistent(st.facts, [(Eq(v.a[2], Int(i)), True)])
                if f is not None and bits_ok(f):
                    got.add((v.a[1].a[0] << i if v.a[0][2] == "l" else v.a[1].a[0] >> i) & 0xffff)
            if got == {1 << self.j}:
                return True, ""
            if got and 1 << self.j not in got:
                return False, "points to %s, expected child %d" % (" or ".join(bin(x) for x in sorted(got)), self.j)
        return by_mask(st, v, self.j)


def by_mask(st, v, j):
    """the number as a function of the sixteen bits of one bitmap: worked out for each of its values"""
    es = {s for s in subterms(v) if s.op == "ebits"}
    if len(es) != 1:
        return None, "is %s" % short(v)
    e = es.pop()
    facts = [(t, b) for t, b in st.facts.items() if isinstance(t, Term) and isinstance(b, bool) and any(s is e for s in subterms(t))]
    n = 0
    try:
        for m in range(1, 1 << 16):
            if all(bool(at_mask(t, e, m)) is b for t, b in facts):
                n += 1
                x = at_mask(v, e, m) & 0xffff
                if x != 1 << j:
                    return False, "points to %s, expected child %d, for the children %s (%s)" % (bin(x), j, bin(m), WORKED_OUT)
    except (KeyError, ValueError, OverflowError):
        return None, "is %s" % short(v)
    return (True, "") if n else (None, "is %s" % short(v))


def at_mask(t, e, m):
    """the value of a term over one sixteen-bit bitmap"""
    if t is e:
        return m
    o = t.op
    if o in ("int", "bool"):
        return t.a[0]
    if o == "lin":
        k, parts = lin_parts(t)
        return k + sum(c * at_mask(x, e, m) for x, c in parts.items())
    if o == "bin":
        op = t.a[0]
        x, y = at_mask(t.a[1], e, m), at_mask(t.a[2], e, m)
        if op in ("Eq", "Lt", "BitAnd", "BitOr", "BitXor", "Shr", "Div", "Rem"):
            return {"Eq": x == y, "Lt": x < y, "BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y, "Shr": x >> y,
                    "Div": y and x // y, "Rem": y and x % y}[op]
        if op in ("Shl", "ShlUnchecked") and 0 <= y < 64:
            return x << y
        raise KeyError(op)
    if o in ("min", "max") and len(t.a) == 2:
        return (min if o == "min" else max)(at_mask(t.a[0], e, m), at_mask(t.a[1], e, m))
    if o == "un" and t.a[0] == "Not":
        return ~at_mask(t.a[1], e, m) & 0xffff
    if o == "not":
        return not at_mask(t.a[0], e, m)
    if o == "num" and t.a[1] == "u16":
        x = at_mask(t.a[2][0], e, m)
        if not 0 <= x < 1 << 16:
            raise KeyError(o)
        s = format(x, "016b")
        return {"leading_zeros": 16 - len(s.lstrip("0")), "trailing_zeros": 16 - len(s.rstrip("0")),
                "leading_ones": 16 - len(s.lstrip("1")), "trailing_ones": 16 - len(s.rstrip("1")),
                "reverse_bits": int(s[::-1], 2), "wrapping_neg": -x & 0xffff, "swap_bytes": int(s[8:] + s[:8], 2),
                "count_ones": s.count("1"), "count_zeros": s.count("0")}[t.a[0]]
    raise KeyError(o)


@prop("C26", floor=300, configs=("all",))
def visiting(c, rep):
    """which child of a node comes next"""
    n = IN(c)
    # a node entered from above: its first child
    bm = T("ebits", Par("a1"))
    first = lambda j, b, lo=0: [Eq(And(b, rangemask(lo, j - lo)), Int(0)) if j > lo else None, Not(Eq(And(b, 1 << j), Int(0)))]
    lowest = lambda j, b, lo=0: [g for g in first(j, b, lo) if g is not None]

    def made(j):
        return Fields(**{n.v["node_key"]: Par("a0"), n.v["node"]: Par("a1"), n.v["children_bitmap"]: bm, n.v["next_child_to_visit"]: Bit(j)})
    b = c.method("NodeVisitInfo", "new")
    X, rs = c.run(b, intr=dict(Dom(c).bitmaps()), trips=17)
    table(rep, X, "new", where(b), rs, [Row("first is %d" % j, lowest(j, bm), made(j)) for j in range(16)])
    # entered at a nibble: the child there, or the next one to its right
    b = c.method("NodeVisitInfo", "new_next_child_to_visit")
    for k in range(16):
        X, rs = c.run(b, args={2: nibble(k)}, intr=dict(Dom(c).bitmaps()), trips=17)
        rows = [Row("from %d, next is %d" % (k, j), lowest(j, bm, k), made(j)) for j in range(k, 16)]
        rows.append(Row("nothing from %d on" % k, [Eq(And(bm, rangemask(k, 16 - k)), Int(0))], Any(), optional=True))
        table(rep, X, "new_next_child_to_visit", where(b), rs, rows)
    # moving on
    bm = T("ebits", Par("n"))
    for k in range(16):
        me = Agg("iterator::NodeVisitInfo", "NodeVisitInfo", tuple(n.v[x] for x in VFIELDS), (Par("key"), Par("node"), bm, Int(1 << k)))
        here = Not(Eq(And(bm, 1 << k), Int(0)))
        above = Eq(And(bm, rangemask(k + 1, 15 - k)), Int(0)) if k < 15 else TRUE
        b = c.method("NodeVisitInfo", "is_rightmost")
        X, rs = c.run(b, args={0: me}, trips=17)
        rows = [Row("at %d, last" % k, [here] + ([above] if k < 15 else []), TRUE),
                Row("at %d, gone" % k, [Not(here)], Any(), optional=True)]
        if k < 15:
            rows.append(Row("at %d, more" % k, [here, Not(above)], FALSE))
        table(rep, X, "is_rightmost", where(b), rs, rows)
        if k == 15:
            continue
        b = c.method("NodeVisitInfo", "advance")
        X, rs = c.run(b, args={0: me}, trips=17)
        loc = ("O", me)
        keep = {n.v["node_key"]: Par("key"), n.v["node"]: Par("node"), n.v["children_bitmap"]: bm}
        rows = [Row("from %d to %d" % (k, j), [here] + lowest(j, bm, k + 1), Fields(**{**keep, n.v["next_child_to_visit"]: Bit(j)}))
                for j in range(k + 1, 16)]
        rows += [Row("from %d, none left" % k, [here, above], Any(), optional=True),
                 Row("at %d, gone" % k, [Not(here)], Any(), optional=True)]
        table(rep, X, "advance", where(b), rs, rows, value=lambda st, v: st.env.get(loc, me))


@prop("C26", floor=4, configs=("all",))
def cleanup(c, rep):
    """leaving every node whose last child has been visited"""
    b = c.method("JellyfishMerkleIterator", "cleanup_stack")
    intr = visits(c)
    intr.pop(b["path"])
    X, rs = c.run(b, intr=intr)
    name, site, a0 = "cleanup_stack", where(b), Par("a0")

    def go():
        ls = [(L, k, d) for L in X.loops.values() for k, d in L.vars.items() if d["init"] is a0]
        if len(ls) != 1:
            raise Undet("the loop over the stack was not recognised")
        L, S, d = ls[0]
        top = T("lastof", S)
        empty, last = Eq(Len(S), Int(0)), [T("rightmost", top)]*2

        class Top(M):
            """the stack with its top entry moved on"""

            def m(self, X, st, v):
                want = T("store", S, T("lastidx", S), T("advanced", top))
                if v is want:
                    return True, ""
                if v.op == "pushed" and v.a[0] is T("popped", S) and v.a[1] is T("advanced", T("lastof", S)):
                    return True, ""
                return (False if v in (S, T("popped", S), a0) or v.op in ("vec0", "popped") else None), \
                    "is %s, expected the top entry to move to its next child" % short(v)
        rows = [Row("nothing left", [empty], S), Row("a child is left", [Not(empty)] + [Not(x) for x in last], Top()),
                Row("done with the node", [Not(empty)] + last, Never(), optional=True)]
        table(rep, X, name, site, rs, rows, value=lambda st, v: st.env.get(("O", a0), a0))
        for f, nx in d["next"]:
            if consistent(f, [Not(empty), (last[0], False)]) is not None and consistent(f, [Not(empty), (last[1], False)]) is not None:
                rep.put(None if alien_path(X, State({}, f)) else False, name + "/round", site,
                        "goes on past a node that has children left (%s)" % describe(f))
                continue
            rep.put(True if nx is T("popped", S) else False if nx is S else None, name + "/round", site,
                    "goes on with %s, expected the node to be left" % short(nx))
    guarded(rep, name, site, go)


class It(M):
    """an iterator over this tree with this stack and end mark"""

    def __init__(self, n, reader, ver, stack, done):
        self.ms = {n.i["reader"]: reader, n.i["version"]: ver, n.i["parent_stack"]: stack, n.i["done"]: done}

    def m(self, X, st, v):
        return match(X, st, Fields(**self.ms), v)


class Cleaned(M):
    """what is left of a stack"""

    def __init__(self, s):
        self.s = s

    def m(self, X, st, v):
        if v is T("cleaned", self.s):
            return True, ""
        if v is self.s or v.op == "vec0":
            if implied(st.facts, Eq(Len(self.s), Int(0))) is True:
                return True, ""
            return False, "is %s, expected the finished nodes to be left" % short(v)
        return (False if v.op in ("pushed", "popped") else None), "is %s, expected the finished nodes to be left" % short(v)


class Done(M):
    """true when the stack that is left is empty: always, or (below the root) only if so"""

    def __init__(self, s, must=True):
        self.s, self.must = s, must

    def m(self, X, st, v):
        known = [implied(st.facts, Eq(Len(t), Int(0))) for t in (T("cleaned", self.s), self.s)]
        if v is TRUE:
            return (True, "") if True in known else (False, "is marked finished although entries are left")
        if v is FALSE:
            return (True, "") if not self.must or False in known else (False, "is not marked finished although nothing may be left")
        if v.op == "bin" and v.a[0] == "Eq" and v in (Eq(Len(T("cleaned", self.s)), Int(0)), Eq(Len(self.s), Int(0))):
            return True, ""
        return None, "is %s" % short(v)


@prop("C26", floor=20)
def start(c, rep):
    """the first position not before a key"""
    b = c.method("JellyfishMerkleIterator", "new")
    n, nn = IN(c), NN(c)
    rd, ver, key = Par("a0"), Par("a1"), Par("a2")
    X0, rs0 = c.run(b, intr=intr_of(c), canon=(key,))
    site, name = where(b), "JellyfishMerkleIterator::new"

    def go():
        w = Walk(c, X0, rs0, rd)
        X, rs = w.X, w.rs
        nib = w.key_nibbles(rep, name, site, Fld(key, "0"))
        w.long_enough(rep, name, site)
        w.start(rep, name, site, ver)
        for f, nx in w.nexts(w.K):
            r = match(X, State({}, f), Key(Fld(T("ichild", w.internal, nib), "version"), T("ppush", Fld(w.K, nn.kpath), nib)), nx)
            rep.put(r[0], name + "/next node", site, r[1])
        S = [k for k, d in w.loop.vars.items() if k.op == "loopvar" and d["init"].op == "vec0" and k not in w.kvars]
        if len(S) != 1:
            raise Undet("the stack built on the way was not recognised")
        S = S[0]
        has = T("haschild", w.internal, nib)
        entered = T("pushed", S, T("visit", w.K, w.internal, Some(nib)))
        for f, nx in w.loop.vars[S]["next"]:
            r = match(X, State({}, f), entered, nx)
            rep.put(r[0], name + "/nodes recorded", site, r[1])
        isl, isi, isn = (Is(w.node, k) for k in ("Leaf", "Internal", "Null"))
        more = T("hasnext", nib.a[0], 0, w.uid)
        lk = Fld(w.leaf, nn.lk)
        less, eq = Lt(Fld(lk, "0"), Fld(key, "0")), Eq(Fld(lk, "0"), Fld(key, "0"))
        there = [w.ok, w.here]
        bm, nv = T("ebits", w.internal), Fld(nib, "0")
        ok = lambda stack, done: Con("Ok", It(n, rd, ver, stack, done))
        rows = [
            Row("unreadable", [Not(w.ok)], IsErr()), Row("missing", [w.ok, Not(w.here)], IsErr()),
            Row("leaf before the key", there + [isl, less, Not(eq)], ok(Cleaned(S), Done(S))),
            Row("leaf at the key", there + [isl, eq, Not(less)], ok(S, FALSE)),
            Row("leaf after the key", there + [isl, Not(less), Not(eq)], ok(S, FALSE)),
            Row("empty tree", there + [isn] + w.zero, ok(Any(), TRUE)),
            Row("null below the root", there + [isn] + w.below(), Any(), optional=True),
            Row("child", there + [isi, more, has], Never(), optional=True),
            Row("no nibble left", there + [isi, Not(more)], Any(), optional=True),
        ]
        for i in range(16):
            gap = there + [isi, more, Not(has), Eq(nv, Int(i)), Eq(And(bm, 1 << i), Int(0)), Not(Eq(bm, Int(0)))]
            right = Eq(And(bm, rangemask(i + 1, 15 - i)), Int(0)) if i < 15 else TRUE
            if i < 15:
                rows.append(Row("no child at %d, one further right" % i, gap + [Not(right)], ok(entered, FALSE)))
            rows.append(Row("no child at %d or further right" % i, gap + ([right] if i < 15 else []), ok(Cleaned(S), Done(S, False))))
        ended(c, rep, X, rs, w, name, site)
        table(rep, X, name, site, [(st, v) for st, v in rs if w.ok in st.facts], rows, odd=w.odd({S}))
    guarded(rep, name, site, go)


def wrong_child(X, S, k, n, nn):
    """why this key is not that of the child the top of the stack points at (empty where it may be)"""
    top = T("lastof", S)
    for t in subterms(k):
        if t is T("idx", S, T("lastidx", S)):
            top = t
    nb = nibble(T("num", "trailing_zeros", "u16", (Fld(top, n.v["next_child_to_visit"]),)))
    want = Key(Fld(T("ichild", Fld(top, n.v["node"]), nb), "version"), T("ppush", Fld(Fld(top, n.v["node_key"]), nn.kpath), nb))
    r = match(X, State({}, {}), want, k)
    return r[1] or "reads %s" % short(k) if r[0] is False and alien(X, k) is None else ""


@prop("C26", floor=12)
def following(c, rep):
    """the next pair"""
    b = c.method("JellyfishMerkleIterator", "next", "Iterator")
    n, nn = IN(c), NN(c)
    me = Par("self")
    X, rs = c.run(b, intr=intr_of(c))
    site, name = where(b), "next"
    own = {k: Fld(me, f) for k, f in n.i.items()}
    rd, ver, stack, done = (own[k] for k in IFIELDS)

    class Self(M):
        def __init__(self, **ms):
            self.ms = {k: ms.get(k, v) for k, v in own.items()}

        def m(self, X, st, v):
            return match(X, st, Fields(**{n.i[k]: x for k, x in self.ms.items()}), v)

    def go():
        ls = [(L, k, d) for L in X.loops.values() for k, d in L.vars.items() if d["init"] is stack]
        keys = []
        for f in [st.facts for st, _ in rs] + [f for L in X.loops.values() for d in L.vars.values() for f, _ in d["next"]]:
            for t in f:
                if isinstance(t, Term) and t.op == "nodeok" and t.a[0] is rd and t.a[1] not in keys:
                    keys.append(t.a[1])
        rk = [k for k in keys if not any(s.op == "loopvar" for s in subterms(k))]
        ck = [k for k in keys if k not in rk]
        if len(ls) != 1 or not rk or not ck:
            raise Undet("the walk down from the stack was not recognised")
        L, S, d = ls[0]
        if len(ck) > 1:
            # more than one key below the stack: each has to be that of the child visited
            cs = [(c_, wrong_child(X, S, c_, n, nn)) for c_ in ck]
            for c_, msg in cs:
                if msg:
                    rep.put(False, name + "/child visited", site, msg)
            ck = [c_ for c_, msg in cs if not msg] if len(cs) > 1 else ck
            if len(ck) != 1:
                return
        if len(rk) != 1:
            raise Undet("the walk down from the stack was not recognised")
        root, K = rk[0], ck[0]
        r = match(X, State({}, {}), Key(ver, EmptyPath()), root)
        rep.put(r[0], name + "/root", site, r[1])
        top = T("lastof", S)
        for alt in (T("idx", S, T("lastidx", S)),):
            if alt in subterms(K):
                top = alt
        node, info = Fld(top, n.v["node"]), Fld(top, n.v["node_key"])
        nb = nibble(T("num", "trailing_zeros", "u16", (Fld(top, n.v["next_child_to_visit"]),)))
        ch = T("ichild", node, nb)
        r = match(X, State({}, {}), Key(Fld(ch, "version"), T("ppush", Fld(info, nn.kpath), nb)), K)
        rep.put(r[0], name + "/child visited", site, r[1])
        N = T("node", rd, K)
        for f, nx in d["next"]:
            r = match(X, State({}, f), T("pushed", S, T("visit", K, Fld(As(N, "Internal"), "0"), NONE)), nx)
            rep.put(r[0], name + "/node entered", site, r[1])
        E, E2 = Eq(Len(stack), Int(0)), Eq(Len(S), Int(0))
        rows = [Row("finished", [done], Tu(Con("None"), Self()))]

        def leaf(k, nd, extra, after, bad):
            lf = Fld(As(nd, "Leaf"), "0")
            # the value is read as of the version of the leaf's node, or of the tree
            out = []
            vs = []
            for f in [st.facts for st, _ in rs]:
                for t in f:
                    if isinstance(t, Term) and t.op == "valok" and nd in subterms(t) and t not in vs:
                        vs.append(t)
            lk = Fld(lf, nn.lk)
            for t in vs:
                ok = t.a[0] is rd and t.a[2] is lk and t.a[1] in (Fld(k, nn.kver), ver)
                rep.put(True if ok else (None if alien(X, t) else False), name + "/value looked up", site,
                        "reads the value of %s at version %s" % (short(t.a[2]), short(t.a[1])))
                if not ok:
                    continue
                vh, vv = T("valhere", *t.a), T("val", *t.a)
                out += [Row("value unreadable", extra + [Is(nd, "Leaf"), Not(t)], Tu(Con("Some", IsErr()), bad)),
                        Row("value missing", extra + [Is(nd, "Leaf"), t, Not(vh)], Tu(Con("Some", IsErr()), bad)),
                        Row("pair", extra + [Is(nd, "Leaf"), t, vh], Tu(Con("Some", Con("Ok", Tu(lk, vv))), after))]
            return out
        nd = T("node", rd, root)
        ok, here = T("nodeok", rd, root), T("nodehere", rd, root)
        pre = [Not(done), E]
        rows += [Row("root unreadable", pre + [Not(ok)], Tu(Con("Some", IsErr()), Any())),
                 Row("root missing", pre + [ok, Not(here)], Tu(Con("Some", IsErr()), Any())),
                 Row("past the last pair", pre + [ok, here, Is(nd, "Internal")], Tu(Con("None"), Any())),
                 Row("empty tree", pre + [ok, here, Is(nd, "Null")], Tu(Con("None"), Any()), optional=True)]
        rows += leaf(root, nd, pre + [ok, here], Self(done=TRUE), Any())
        pre = [Not(done), Not(E), Not(E2), T("haschild", node, nb)]
        ok, here = T("nodeok", rd, K), T("nodehere", rd, K)
        kept = Self(parent_stack=S)
        rows += [Row("node unreadable", pre + [Not(ok)], Tu(Con("Some", IsErr()), Any())),
                 Row("node missing", pre + [ok, Not(here)], Tu(Con("Some", IsErr()), Any())),
                 Row("node", pre + [ok, here, Is(N, "Internal")], Never(), optional=True),
                 Row("null node", pre + [ok, here, Is(N, "Null")], Tu(Con("Some", IsErr()), Any()))]
        rows += leaf(K, N, pre + [ok, here], Self(parent_stack=T("cleaned", S)), Any())
        table(rep, X, name, site, rs, rows, value=state(rs)[1])
    guarded(rep, name, site, go)


# ------------------------------------------------------------------ starting at the n-th pair
def skipping(c):
    """the choice of the child that holds the n-th leaf, kept abstract (`skip` analyses it)"""
    b = sized(c.method("JellyfishMerkleIterator", "skip_leaves"), 3)

    def f(k):
        node, cur, want = k.e.snap(k.st, k.val(0)), k.e.snap(k.st, k.val(1)), k.val(2)
        out = []
        for s, yes in k.e.branch(k.st, T("reaches", node, cur, want)):
            if yes:
                setref(k, 1, T("skipto", node, cur, want), s)
            out.append((s, Ok(T("reached", node, cur, want)) if yes else Err(T("err", "msg"))))
        return out
    return {b["path"]: f}


@prop("C26", floor=6)
def skip(c, rep):
    """children are passed over in order while all their leaves come before the one wanted"""
    b = sized(c.method("JellyfishMerkleIterator", "skip_leaves"), 3)
    nn = NN(c)
    a0, a1, a2 = Par("a0"), Par("a1"), Par("a2")
    X, rs = c.run(b, intr=children(c))
    site, name = where(b), "skip_leaves"

    def go():
        it = T("iter", T("present", Fld(a0, nn.children)))
        base = Over(Fld(a0, nn.children)).base
        ls = [L for L in X.loops.values() if any(base(d["init"]) is it for d in L.vars.values())]
        if len(ls) != 1:
            raise Undet("the loop over the children was not recognised")
        L = ls[0]
        acc = [k for k, d in L.vars.items() if d["init"] is a1]
        pos = [k for k, d in L.vars.items() if base(d["init"]) is it]
        if len(acc) != 1 or len(pos) != 1 or L.stops:
            raise Undet("the loop over the children was not recognised")
        for f in L.skips or ():
            rep.put(None if alien_path(X, State({}, f)) else False, name + "/order", site, "leaves out a child when %s" % describe(f))
        acc, pos = acc[0], pos[0]
        e = T("elem", it, 0, L.uid)
        more = T("hasnext", it, 0, L.uid)
        ty = Fld(Fld(e, "1"), "node_type")
        kinds = [("a leaf", [Is(ty, "Leaf")], Int(1)), ("a node", [Is(ty, "Internal")], Fld(As(ty, "Internal"), "leaf_count"))]
        before = lambda n: Le(Add(acc, n), a2)
        for (f, p2), (_, c2) in zip(L.vars[pos]["next"], L.vars[acc]["next"]):
            rep.put(unadv(p2) == (pos, 1), name + "/order", site, "moves on by %s" % short(p2))
            known = {}
            for kk, vv in f.items():
                known[kk] = vv
                learnd(known, kk, vv)
            for w in worlds(known):
                for kind, g, n in kinds:
                    f2 = consistent(w, g)
                    if f2 is None:
                        continue
                    if consistent(f2, [(before(n), False)]) is not None:
                        rep.put(None if alien_path(X, State({}, f2)) else False, name + "/" + kind + " passed over", site,
                                "passed over although the leaf wanted may be in it: %s" % describe(f))
                        continue
                    r = match(X, State({}, f2), Add(acc, n), c2)
                    rep.put(r[0], name + "/" + kind + " passed over", site, "leaves passed over: " + r[1])
        rows = [Row("%s holds it" % kind, [more] + g + [(before(n), False)], Tu(Con("Ok", Tu(Fld(e, "0"), Fld(e, "1"))), acc))
                for kind, g, n in kinds]
        rows += [Row("%s before it" % kind, [more] + g + [before(n)], Never(), optional=True) for kind, g, n in kinds]
        rows.append(Row("too few leaves", [Not(more)], Tu(IsErr(), Any())))
        table(rep, X, name, site, rs, rows, value=lambda st, v: Tup(v, st.env.get(("O", a1), a1)))
    guarded(rep, name, site, go)


@prop("C26", floor=14)
def at_index(c, rep):
    """the position of the n-th pair"""
    b = c.method("JellyfishMerkleIterator", "new_by_index")
    n, nn = IN(c), NN(c)
    rd, ver, idx = Par("a0"), Par("a1"), Par("a2")
    X, rs = c.run(b, intr={**intr_of(c), **skipping(c)})
    site, name = where(b), "new_by_index"

    def go():
        ls = []
        for L in X.loops.values():
            for k, d in L.vars.items():
                for _, nx in d["next"]:
                    if nx.op == "pushed" and nx.a[0] is k and nx.a[1].op == "visit" and (L, k) not in ls:
                        ls.append((L, k))
        if len(ls) != 1:
            raise Undet("the walk down was not recognised")
        L, S = ls[0]
        visit = L.vars[S]["next"][0][1].a[1]
        K, inner, nb = visit.a
        Rs = {t for t in subterms(nb) if t.op == "reached"}
        if nb.op != "agg" or nb.a[1] != "Some" or len(Rs) != 1:
            raise Undet("the nibble followed was not recognised")
        R = Rs.pop()
        if nb.a[3][0] is not Fld(R, "0") and alien(X, nb) is not None:
            raise Undet("the nibble followed was not recognised")
        N, C = R.a[0], R.a[1]
        if N.op != "fld" or N.a[0].op != "as" or C.op != "loopvar":
            raise Undet("the nodes walked were not recognised")
        N = N.a[0].a[0]
        inits = {k: d["init"] for k, d in L.vars.items()}
        sub0 = lambda t: substm(t, inits)
        internal = Fld(As(N, "Internal"), "0")
        rep.put(inner is internal, name + "/node recorded", site, "records %s" % short(inner))
        rep.put(nb.a[3][0] is Fld(R, "0"), name + "/nibble recorded", site, "records %s" % short(nb))
        rep.put(R.a[2] is idx, name + "/leaf wanted", site, "looks for leaf %s" % short(R.a[2]))
        rep.put(sub0(S) is T("vec0"), name + "/stack", site, "starts with %s" % short(sub0(S)))
        rep.put(sub0(C) is Int(0), name + "/count", site, "starts counting at %s" % short(sub0(C)))
        r = match(X, State({}, {}), Key(ver, EmptyPath()), sub0(K))
        rep.put(r[0], name + "/start", site, r[1])
        root = sub0(K)
        nxt = {k: d["next"] for k, d in L.vars.items()}
        cnt = {len(v) for v in nxt.values()}
        if len(cnt) != 1:
            raise Undet("the ways round the walk were not recognised")
        key2 = Key(Fld(Fld(R, "1"), "version"), T("ppush", Fld(K, nn.kpath), Fld(R, "0")))
        for j in range(cnt.pop()):
            f = nxt[S][j][0]
            m = {k: v[j][1] for k, v in nxt.items()}
            st = State({}, f)
            r = match(X, st, key2, substm(K, m))
            rep.put(r[0], name + "/next node", site, r[1])
            r = match(X, st, T("skipto", *R.a), substm(C, m))
            rep.put(r[0], name + "/count", site, r[1])
            r = match(X, st, T("pushed", S, visit), m[S])
            rep.put(r[0], name + "/stack", site, r[1])
            if N.op == "loopvar":
                rep.put(True if m[N] is T("node", rd, substm(K, m)) else None, name + "/node read", site, "goes on with %s" % short(m[N]))
        if N.op == "loopvar":
            rep.put(True if sub0(N) is T("node", rd, root) else None, name + "/node read", site, "starts with %s" % short(sub0(N)))
        elif N is not T("node", rd, K):
            raise Undet("the nodes walked were not recognised")
        drive = [d["init"] for k, d in L.vars.items() if k.op == "itpos"]
        for d in drive:
            s, e = Fld(d, "start"), Fld(d, "end")
            if s.op == "int" and e.op == "int":
                k = e.a[0] - s.a[0] + (1 if "Inclusive" in d.a[0] else 0)
                rep.put(k >= 65, name + "/depth", site, "gives up after %d nodes; a path has up to 65" % k)
            else:
                rep.put(None, name + "/depth", site, "walk bounded by %s" % short(d))
        gone = [T("hasnext", d, 0, L.uid) for d in drive]
        counts = {k: d["init"].a[0] for k, d in L.vars.items() if k.op == "loopvar" and k is not C and d["init"].op == "int"
                  and all(nx is Add(k, Int(1)) for _, nx in d["next"])}
        out = []
        for st, v in rs:
            # left because nodes were counted, how many
            cs = [(x.a[1].a[0] + 1 if x.a[2] is k else IX.bound(x, b, k, None).a[0]) - a for k, a in counts.items()
                  for x, b in st.facts.items() if isinstance(x, Term) and x.op == "bin" and x.a[0] == "Lt" and x.a[1].op == "int" and (
                      b and x.a[2] is k or not b and getattr(IX.bound(x, b, k, None), "op", "") == "int")]
            if cs:
                rep.put(max(cs) >= 65, name + "/depth", site, "gives up after %d nodes; a path has up to 65" % max(cs))
            if cs or any(st.facts.get(g) is False for g in gone):
                r = match(X, st, IsErr(), v)
                rep.put(r[0], name + "/gave up", site, r[1])
            else:
                out.append((st, v))
        ok0, here0, nd = T("nodeok", rd, root), T("nodehere", rd, root), T("node", rd, root)
        there = [ok0, here0]
        it = lambda s, d: Con("Ok", It(n, rd, ver, s, d))
        total = Fld(Fld(As(nd, "Internal"), "0"), nn.count)
        zero, empty = Eq(idx, Int(0)), T("vec0")
        rows = [Row("root unreadable", [Not(ok0)], IsErr()), Row("root missing", [ok0, Not(here0)], IsErr()),
                Row("empty tree", there + [Is(nd, "Null")], it(empty, TRUE)),
                Row("one leaf", there + [Is(nd, "Leaf"), zero], it(OneOf(empty, S), FALSE)),
                Row("one leaf, past it", there + [Is(nd, "Leaf"), Not(zero)], it(empty, TRUE)),
                Row("past the last leaf", there + [Is(nd, "Internal"), Le(total, idx)], it(empty, TRUE))]
        deep = there + [Is(nd, "Internal"), Lt(idx, total)]
        reach = T("reaches", *R.a)
        rows += [Row("leaf reached", deep + [Is(N, "Leaf"), Eq(C, idx)], it(S, FALSE)),
                 Row("another leaf", deep + [Is(N, "Leaf"), Not(Eq(C, idx))], IsErr()),
                 Row("null node", deep + [Is(N, "Null")], IsErr(), optional=True),
                 Row("too few leaves", deep + [Is(N, "Internal"), Not(reach)], IsErr()),
                 Row("unreadable", deep + [Is(N, "Internal"), reach], IsErr())]
        table(rep, X, name, site, out, rows)
    guarded(rep, name, site, go)
