"""Storage: the batch handed to it, the reading defaults, and the in-memory store."""
from rules import prop
from rules.domain import *
from rules.nodes import *
from rules.cache import With, Without, Same, Empty, From, Plus, LenOf, shape, here, state, LABEL
from spec import *
from terms import *


def run(c, b):
    return c.run(b, kmax=400)


class After(M):
    """a struct with these fields, the others as they were"""

    def __init__(self, base, names, **ms):
        self.base, self.names, self.ms = base, names, ms

    def m(self, X, st, v):
        und = None
        for k, n in self.names.items():
            r = match(X, st, self.ms.get(k, Fld(self.base, n)), Fld(v, n))
            if r[0] is False:
                return False, "%s: %s" % (k, r[1])
            if r[0] is None:
                und = und or (None, "%s: %s" % (k, r[1]))
        return und or (True, "")


def got(m, k):
    return Fld(As(Call("get", m, k), "Some"), "0")


# ------------------------------------------------------------------ the batch and the reading defaults
@prop("C24", floor=14)
def batches(c, rep):
    names = {n: c.field("NodeBatch", n, i) for i, n in enumerate(("nodes", "values"))}
    me = Par("self")
    nodes, values = Fld(me, names["nodes"]), Fld(me, names["values"])
    A = lambda **m: After(me, names, **m)
    a1, a2, a3 = Par("a1"), Par("a2"), Par("a3")

    def t(name, rows):
        b = c.method("NodeBatch", name)
        X, rs = run(c, b)
        rs, val = state(rs)
        table(rep, X, "NodeBatch::" + name, where(b), rs, rows, value=val)
    b = c.method("NodeBatch", "new")
    X, rs = run(c, b)
    table(rep, X, "NodeBatch::new", where(b), rs, [Row("made", [], Fields(**{names["nodes"]: Par("a0"), names["values"]: a1}))])
    t("clear", [Row("emptied", [], Tu(Any(), A(nodes=Empty(), values=Empty())))])
    t("get_node", [Row("held", [here(nodes, a1)], Tu(Con("Some", got(nodes, a1)), A())),
                   Row("not held", [here(nodes, a1, False)], Tu(Con("None"), A()))])
    t("nodes", [Row("all", [], Tu(nodes, A()))])
    t("values", [Row("all", [], Tu(values, A()))])
    t("insert_node", [Row("new", [here(nodes, a1, False)], Tu(Con("None"), A(nodes=With(nodes, a1, a2)))),
                      Row("replaced", [here(nodes, a1)], Tu(Con("Some", got(nodes, a1)), A(nodes=With(nodes, a1, a2))))])
    t("insert_value", [Row("set", [], Tu(Any(), A(values=With(values, Tup(a1, a2), Con("Some", a3)))))])
    t("extend", [Row("added", [], Tu(Any(), A(nodes=Plus(nodes, a1), values=Plus(values, a2))))])
    t("merge", [Row("added", [], Tu(Any(), A(nodes=Plus(nodes, Fld(a1, names["nodes"])), values=Plus(values, Fld(a1, names["values"])))))])
    n0, v0 = Eq(Len(nodes), Int(0)), Eq(Len(values), Int(0))
    t("is_empty", [Row("empty", [n0, v0], Tu(TRUE, A())), Row("nodes", [(n0, False)], Tu(FALSE, A())),
                   Row("values", [n0, (v0, False)], Tu(FALSE, A()))])
    for n, opt, k in (("get_node", "get_node_option", [a1]), ("get_value", "get_value_option", [a1, a2])):
        impls = [b for b in c.p.facts["bodies"] if b["kind"] == "fn" and b.get("name") == n and b.get("in_trait")
                 and strip(b["in_trait"]).split("::")[-1] == "TreeReader"]
        if not impls:
            raise Anchor("default method TreeReader::%s not found" % n)
        for b in impls:
            X, rs = run(c, b)
            call = Call("reader::TreeReader::" + opt, me, *k)
            ok, hit = Is(call, "Ok"), Is(Fld(As(call, "Ok"), "0"), "Some")
            table(rep, X, "TreeReader::" + n, where(b), rs, [
                Row("found", [ok, hit], Con("Ok", Fld(As(Fld(As(call, "Ok"), "0"), "Some"), "0"))),
                Row("missing", [ok, (hit, False)], IsErr()),
                Row("storage error", [(ok, False)], IsErr())])


# ------------------------------------------------------------------ the in-memory store
INNER = ("nodes", "stale_nodes", "value_history", "preimages")


class First(M):
    """the first element of an iteration that satisfies a condition: Ok(Some(view)) or, if none does, Ok(None)"""

    def __init__(self, space, cond, view):
        self.space, self.cond, self.view = space, cond, view

    def m(self, X, st, v):
        uids = [k.a[2] for k in st.facts if isinstance(k, Term) and k.op == "hasnext"]
        if len(uids) != 1 or uids[0] not in X.loops:
            return None, "is %s" % short(v)
        uid = uids[0]
        L = X.loops[uid]
        its = [(k, d) for k, d in L.vars.items() if k.op == "itpos"]
        if len(its) != 1 or L.skips or L.stops:
            return None, "is %s" % short(v)
        k, d = its[0]
        if d["init"] is not self.space:
            return (False if known_space(d["init"], X) else None), "searches %s, expected %s" % (short(d["init"], 90), short(self.space, 90))
        el = T("elem", self.space, 0, uid)
        for delta, nx in d["next"]:
            if unadv(nx)[1] != 1:
                return None, "iterator moved in a way not understood"
            f = forget(st.facts, uid)
            for kk, vv in delta.items():
                f[kk] = vv
                learnd(f, kk, vv)
            if consistent(f, [self.cond(el)]) is not None:
                return False, "may pass over an element that qualifies (%s)" % describe(delta)
        more = [x for kk, x in st.facts.items() if isinstance(kk, Term) and kk.op == "hasnext" and kk.a[2] is uid]
        if more == [False]:
            return match(X, st, Con("Ok", Con("None")), v)
        if consistent(st.facts, [(self.cond(el), False)]) is not None:
            return False, "may stop at an element that does not qualify"
        return match(X, st, Con("Ok", self.view(el)), v)


class Newest(M):
    """the last entry of an ascending history that qualifies: searched for from the far end, or the last one met from the near end"""

    def __init__(self, h, cond, view):
        it = T("iter", h)
        self.back = First(T("rev", it), cond, view)

        def step(el, cel, acc):
            return [([cond(el[0])], view(el[0])), ([(cond(el[0]), False)], acc, (), True)]
        self.forth = Con("Ok", Ends([From(h)], NONE, step, lambda e: Not(cond(e))))

    def m(self, X, st, v):
        w = Fld(As(v, "Ok"), "0")
        return (self.forth if w.op == "loopvar" else self.back).m(X, st, v)


class Ends(Fold):
    """a fold that may end early where every later element is known to change nothing"""

    def __init__(self, its, init, step, end):
        super().__init__(its, init, step)
        self.end = end

    def m(self, X, st, v):
        L = loop_of(X, v)
        if L is None:
            return super().m(X, st, v)
        el = None
        for k, d in L.vars.items():
            if k.op == "itpos":
                el = self.its[0].elem(d["init"], v.a[0])
        ended = any(isinstance(k, Term) and k.op == "hasnext" and x is False and k.a[2] is v.a[0] for k, x in st.facts.items())
        if L.stops and any(d["init"].op == "takewhile" and self.its[0].base(d["init"]).op == "rev" for k, d in L.vars.items() if k.op == "itpos"):
            return False, "ends early, from the far end"
        early = [] if ended else [dl for _, dls in L.exits or [] for dl in dls if not any(
            isinstance(k, Term) and k.op == "hasnext" and x is False for k, x in dl.items())]
        for delta in list(L.stops or ()) + early:
            f = {}
            for kk, vv in delta.items():
                f[kk] = vv
                learnd(f, kk, vv)
            if el is None or consistent(f, [(self.end(el), False)]) is not None:
                return False, "ends early when %s" % describe(delta)
        keep = L.stops, L.exits
        L.stops, L.exits = (), [(tb, [d for d in dls if d not in early]) for tb, dls in L.exits or []]
        try:
            return super().m(X, st, v)
        finally:
            L.stops, L.exits = keep


class ErrIf(M):
    """an error, on a path where one of the conditions holds: `why(facts, uids)` yields guard lists"""

    def __init__(self, why):
        self.why = why

    def m(self, X, st, v):
        if not is_err(v):
            return None, "is %s" % short(v)
        for g in self.why(st.facts):
            if all(consistent(st.facts, [(x, False)]) is None for x in g):
                return True, ""
        return False, "fails although nothing is wrong"


def gets(facts):
    """maps and keys looked up on a path"""
    seen = []
    for k in facts:
        if isinstance(k, Term) and k.op == "is" and k.a[0].op == "call" and k.a[0].a[0] == "get" and k.a[0].a[1] not in seen:
            seen.append(k.a[0].a[1])
    return seen


class Store:
    def __init__(self, c):
        self.c = c
        self.data, self.allow = c.field("MockTreeStore", "data", 0), c.field("MockTreeStore", "allow_overwrite", 1)
        self.names = {n: c.field("MockTreeStoreInner", n, i) for i, n in enumerate(INNER)}
        self.me = Fld(Par("self"), self.data)
        self.f = {n: Fld(self.me, x) for n, x in self.names.items()}
        self.over = Fld(Par("self"), self.allow)

    def after(self, **m):
        return After(self.me, self.names, **m)

    def table(self, rep, b, rows, ok=lambda st, v: True):
        X, rs = run(self.c, b)
        key = ("O", self.me)
        table(rep, X, b["name"], where(b), [(st, v) for st, v in rs if ok(st, v)], rows,
              value=lambda st, v: Tup(v, st.env.get(key, self.me)))
        return X, rs


def version(h):
    """the version of the last entry of a history"""
    return Fld(T("lastof", h), "0")


class LastEntry(M):
    """a history whose last entry has a new value"""

    def __init__(self, h, ver, val):
        self.h, self.ver, self.val = h, ver, val

    def m(self, X, st, t):
        if t.op == "store" and t.a[0] is self.h and t.a[1] is T("lastidx", self.h):
            return match(X, st, Tu(OneOf(self.ver, version(self.h)), self.val), t.a[2])
        if t.op == "pushed" and t.a[0] is T("popped", self.h):
            return match(X, st, Tu(OneOf(self.ver, version(self.h)), self.val), t.a[1])
        if t.op in ("pushed", "fld") or t is self.h:
            return False, "is %s" % short(t, 120)
        return None, "is %s" % short(t, 120)


class One(M):
    """a list of exactly one item"""

    def __init__(self, item):
        self.item = item

    def m(self, X, st, t):
        p = seq_parts(t)
        if p is None:
            return None, "is %s" % short(t, 120)
        if len(p) != 1 or p[0][0] != "one":
            return False, "is %s" % short(t, 120)
        return match(X, st, self.item, p[0][1])


class Push(M):
    def __init__(self, base, item):
        self.base, self.item = base, item

    def m(self, X, st, t):
        if t.op != "pushed":
            return (False if t is self.base or t.op in ("store", "array", "vec0") else None), "is %s, expected one item to be added" % short(t, 120)
        r = match(X, st, self.base, t.a[0])
        return r if r[0] is not True else match(X, st, self.item, t.a[1])


def put(vh, ver, key, val):
    """what recording a value does to the histories: (guards, after) per case; the last case is refused"""
    h = got(vh, key)
    no, empty = here(vh, key, False), Eq(Len(h), Int(0))
    item, last = Tu(ver, val), version(h)
    yes, some = here(vh, key), (empty, False)
    return [("first value", [no], With(vh, key, One(item))),
            ("emptied history", [yes, empty], With(vh, key, OneOf(Push(h, item), One(item)))),
            ("later value", [yes, some, Lt(last, ver)], With(vh, key, Push(h, item))),
            ("same version", [yes, some, Eq(last, ver)], With(vh, key, LastEntry(h, ver, val)))], \
        [yes, some, Lt(ver, last)]


def out_of_order(vh_of=None):
    """a path recording a value older than the last"""
    def why(facts):
        for m, k in gets(facts):
            h = got(m, k)
            for f in [t for t in facts if isinstance(t, Term)]:
                for s in subterms(f):
                    if s is version(h):
                        for q in versions_in(f, s):
                            yield [here(m, k)[0], Lt(q, version(h))]
                        break
    return why


def versions_in(f, last):
    """what the version of a history's last entry is compared with"""
    out = []
    for s in subterms(f):
        if s.op == "lin":
            out += [t for t in subterms(s) if t is not last and t.op in ("par", "fld")]
        if s.op == "bin" and s.a[0] == "Eq" and last in s.a[1:]:
            out.append(s.a[2] if s.a[1] is last else s.a[1])
    return out


@prop("C25", floor=20, configs=("all",))
def store(c, rep):
    s = Store(c)
    f, a0, a1, a2, a3 = s.f, *[Par("a%d" % i) for i in range(4)]
    # reading
    b = c.method("MockTreeStore", "get_node_option", "TreeReader")
    s.table(rep, b, [Row("held", [here(f["nodes"], a1)], Tu(Con("Ok", Con("Some", got(f["nodes"], a1))), s.after())),
                     Row("not held", [here(f["nodes"], a1, False)], Tu(Con("Ok", Con("None")), s.after()))])
    b = c.method("MockTreeStore", "preimage", "HasPreimage")
    s.table(rep, b, [Row("held", [here(f["preimages"], a1)], Tu(Con("Ok", Con("Some", got(f["preimages"], a1))), s.after())),
                     Row("not held", [here(f["preimages"], a1, False)], Tu(Con("Ok", Con("None")), s.after()))])
    h = got(f["value_history"], a2)
    b = c.method("MockTreeStore", "get_value_option", "TreeReader")
    s.table(rep, b, [Row("no history", [here(f["value_history"], a2, False)], Tu(Con("Ok", Con("None")), s.after())),
                     Row("newest not after the version", [here(f["value_history"], a2)], Tu(Newest(
                         h, lambda e: Le(Fld(e, "0"), a1), lambda e: Fld(e, "1")), s.after()))])
    b = c.method("MockTreeStore", "get_rightmost_leaf", "TreeReader")

    def greatest(el, cel, acc):
        e = el[0]
        leaf = Is(Fld(e, "1"), "Leaf")
        node = Fld(As(Fld(e, "1"), "Leaf"), "0")
        best = Fld(As(acc, "Some"), "0")
        mine, its = Fld(Fld(node, "key_hash"), "0"), Fld(Fld(Fld(best, "1"), "key_hash"), "0")
        take = Con("Some", Tu(Fld(e, "0"), node))
        return [([(leaf, False)], acc), ([leaf, Is(acc, "None")], take), ([leaf, Is(acc, "Some"), Lt(its, mine)], take),
                ([leaf, Is(acc, "Some"), Lt(mine, its)], acc), ([leaf, Is(acc, "Some"), Eq(mine, its)], OneOf(acc, take), (), True)]
    s.table(rep, b, [Row("greatest key", [], Tu(Con("Ok", Fold([From(f["nodes"])], Con("None"), greatest)), s.after()))])
    b = c.method("MockTreeStore", "num_nodes")
    s.table(rep, b, [Row("count", [], Tu(Len(f["nodes"]), s.after()))])
    # making
    nothing = Fields(**{x: Empty() for x in s.names.values()})
    b = c.method("MockTreeStore", "new")
    X, rs = run(c, b)
    table(rep, X, "new", where(b), rs, [Row("empty", [], Fields(**{s.data: nothing, s.allow: a0}))])
    b = c.method("MockTreeStore", "default", "Default")
    X, rs = run(c, b)
    table(rep, X, "default", where(b), rs, [Row("empty", [], Fields(**{s.data: nothing, s.allow: FALSE}))])
    # recording
    b = c.func("put_value")
    X, rs = run(c, b)
    cases, refused = put(a0, a1, a2, a3)
    arg = ("O", a0)
    table(rep, X, "put_value", where(b), rs, [Row(n, g, Tu(Con("Ok"), m)) for n, g, m in cases]
          + [Row("out of order", refused, Tu(IsErr(), Same(a0)))], value=lambda st, v: Tup(v, st.env.get(arg, a0)))
    b = c.method("MockTreeStore", "put_leaf")
    ver, key = Fld(a1, "version"), Fld(a2, "key_hash")
    cases, refused = put(f["value_history"], ver, key, Con("Some", a3))
    free = here(f["nodes"], a1, False)
    s.table(rep, b, [Row(n, [free] + g, Tu(Con("Ok"), s.after(nodes=With(f["nodes"], a1, Con("Leaf", a2)), value_history=m)))
                     for n, g, m in cases] + [Row("out of order", [free] + refused, Tu(IsErr(), Any())),
                                              Row("taken", [here(f["nodes"], a1)], Tu(IsErr(), s.after()))])
    b = c.method("MockTreeStore", "put_key_preimage")
    s.table(rep, b, [Row("recorded", [], Tu(Any(), s.after(preimages=With(f["preimages"], a1, a2))))])
    b = c.method("MockTreeStore", "write_node_batch", "TreeWriter")
    s.table(rep, b, [Row("written", [], Written(s, a1))])
    b = c.method("MockTreeStore", "write_tree_update_batch")
    s.table(rep, b, [Row("written", [], Written(s, Fld(a1, "node_batch"), Fld(a1, "stale_node_index_batch")))])
    purge(c, rep, s)


class Written(M):
    """the outcome and the store after a batch is written: every node, every value, every stale index; an error only
    for what cannot be written"""

    def __init__(self, s, batch, stale=None):
        nn, nv = [s.c.field("NodeBatch", n, i) for i, n in enumerate(("nodes", "values"))]
        f = s.f

        def node(el, cel, acc):
            k, v = Fld(el[0], "0"), Fld(el[0], "1")
            w = With(acc, k, v)
            return [([s.over], w), ([(s.over, False), here(acc, k, False)], w), ([(s.over, False), here(acc, k)], Never(), (), True)]

        def value(el, cel, acc):
            ver, key = Fld(Fld(el[0], "0"), "0"), Fld(Fld(el[0], "0"), "1")
            cases, refused = put(acc, ver, key, Fld(el[0], "1"))
            return [(g, m) for _, g, m in cases] + [(refused, Never(), (), True)]

        def gone(el, cel, acc):
            return [([here(acc, el[0], False)], With(acc, el[0], UNIT)), ([here(acc, el[0])], Never(), (), True)]
        ms = dict(nodes=Fold([From(Fld(batch, nn))], f["nodes"], node), value_history=Fold([From(Fld(batch, nv))], f["value_history"], value))
        if stale is not None:
            ms["stale_nodes"] = Fold([From(stale)], f["stale_nodes"], gone)
        self.good = Tu(Con("Ok"), s.after(**ms))
        old = out_of_order()

        def why(facts):
            yield from old(facts)
            for m, k in gets(facts):
                b = loopbase(m)
                if b is f["stale_nodes"] or b is f["nodes"]:
                    yield [here(m, k)[0]]
        self.bad = ErrIf(lambda facts: [g for g in why(facts)])
        self.s = s

    def m(self, X, st, v):
        global XL
        XL = X
        r = Fld(v, "0")
        return self.bad.m(X, st, r) if is_err(r) else self.good.m(X, st, v)


XL = None


def loopbase(m):
    """the map a loop started from"""
    while m.op in ("loopvar", "mapset", "mapdel"):
        m = XL.loops[m.a[0]].vars[m]["init"] if m.op == "loopvar" else m.a[0]
    return m


class Either(M):
    """by two loops, the first of which collects, or by one"""

    def __init__(self, two, one):
        self.two, self.one = two, one

    def m(self, X, st, v):
        L = loop_of(X, v)
        two = L is not None and any(Picked.base(None, d["init"]).op == "iter" and Picked.base(None, d["init"]).a[0].op == "loopvar"
                                    for k, d in L.vars.items() if k.op == "itpos")
        return (self.two if two else self.one).m(X, st, v)


class Picked(From):
    """iteration over the entries a loop has collected"""
    name = "the indices that are due"
    strict = True

    def __call__(self, X, st, t):
        b = self.base(t)
        return super().__call__(X, st, t) if b.op == "iter" and b.a[0].op == "loopvar" else None


def purge(c, rep, s):
    f, a1 = s.f, Par("a1")
    order = [x["name"] for x in c.adt("StaleNodeIndex")["variants"][0]["fields"]]
    rep.put(order[0] == "stale_since_version", "purge_stale_nodes/order", "StaleNodeIndex", "stale indices sort by %s first" % order[0])
    b = c.method("MockTreeStore", "purge_stale_nodes")
    due = lambda e: Le(Fld(e, "stale_since_version"), a1)

    def pick(el, cel, acc):
        return [([due(el[0])], Push(acc, el[0])), ([(due(el[0]), False)], acc, (), True)]
    chosen = Ends([From(f["stale_nodes"])], T("vec0"), pick, lambda e: Not(due(e)))

    def node(el, cel, acc):
        k = Fld(el[0], "node_key")
        return [([here(acc, k)], Without(acc, k)), ([here(acc, k, False)], Never(), (), True)]

    def log(el, cel, acc):
        return [([], Without(acc, el[0]))]
    direct = lambda el, step, acc: [([due(el[0])] + g, m, *r) for g, m, *r in step(el, (), acc)] + [([(due(el[0]), False)], acc, (), True)]
    stale = From(f["stale_nodes"])
    one = lambda n, step: Either(Fold([Picked(chosen)], f[n], step), Ends([stale], f[n], lambda el, cel, acc: direct(el, step, acc), lambda e: Not(due(e))))
    good = Tu(Con("Ok"), s.after(nodes=one("nodes", node), stale_nodes=one("stale_nodes", log)))

    class Purged(M):
        def m(self, X, st, v):
            global XL
            XL = X
            if not is_err(Fld(v, "0")):
                return good.m(X, st, v)
            for m, k in gets(st.facts):
                if loopbase(m) is f["nodes"] and implied(st.facts, Is(Call("get", m, k), "None")) is True and k.op == "fld" and k.a[1] == "node_key":
                    return True, ""
            return False, "fails although every node is there"
    s.table(rep, b, [Row("purged", [], Purged())])
