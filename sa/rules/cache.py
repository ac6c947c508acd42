"""The tree cache: what it answers from, what each write records, and what closing a version does."""
from rules import prop
from rules.domain import *
from rules.nodes import *
from rules.read import EmptyPath
from spec import *
from terms import *

CFIELDS = ("root_node_key", "next_version", "node_cache", "value_cache", "num_new_leaves", "stale_node_index_cache",
           "num_stale_leaves", "frozen_cache", "reader")
FFIELDS = ("node_cache", "stale_node_index_cache", "node_stats", "root_hashes")


class Shape:
    """the cache's fields, by their current names"""

    def __init__(self, c):
        f = {n: c.field("TreeCache", n, i) for i, n in enumerate(CFIELDS)}
        z = {n: c.field("FrozenTreeCache", n, i) for i, n in enumerate(FFIELDS)}
        self.f, self.z = f, z
        self.nodes, self.values = c.field("NodeBatch", "nodes", 0), c.field("NodeBatch", "values", 1)
        self.own = self.of(Par("self"))

    def of(self, v):
        """the parts of a cache"""
        fz = Fld(v, self.f["frozen_cache"])
        d = {n: Fld(v, self.f[n]) for n in CFIELDS if n != "frozen_cache"}
        nb = Fld(fz, self.z["node_cache"])
        d.update(fnodes=Fld(nb, self.nodes), fvalues=Fld(nb, self.values),
                 fstale=Fld(fz, self.z["stale_node_index_cache"]), fstats=Fld(fz, self.z["node_stats"]),
                 froots=Fld(fz, self.z["root_hashes"]))
        return d


LABEL = dict(root_node_key="the current root", next_version="the version being written", node_cache="the version's new nodes",
             value_cache="the version's values", num_new_leaves="the count of new leaves", stale_node_index_cache="the version's stale nodes",
             num_stale_leaves="the count of stale leaves", reader="the storage", fnodes="the closed versions' nodes",
             fvalues="the closed versions' values", fstale="the closed versions' stale indices", fstats="the closed versions' statistics",
             froots="the closed versions' root hashes")


class Parts(M):
    """a cache with these parts, the others as they were"""

    def __init__(self, sh, base=None, **ms):
        self.sh, self.base, self.ms = sh, base, ms

    def m(self, X, st, v):
        got, und = self.sh.of(v), None
        for n, x in got.items():
            w = self.ms.get(n, self.base[n] if self.base else None)
            r = match(X, st, w, x)
            if r[0] is False:
                return False, "%s %s" % (LABEL[n], r[1])
            if r[0] is None:
                und = und or (None, "%s %s" % (LABEL[n], r[1]))
        return und or (True, "")


class Key(M):
    """node key: version and path"""

    def __init__(self, version, path):
        self.version, self.path = version, path

    def __str__(self):
        p = self.path
        return "of %s" % (" ".join(short(Fld(x, "0"), 9) for x in p.nibs) or "the root" if hasattr(p, "nibs") else p)

    def m(self, X, st, v):
        for n, w in (("version", self.version), ("nibble_path", self.path)):
            r = match(X, st, w, Fld(v, n))
            if r[0] is not True:
                return r[0], "%s %s" % (n, r[1])
        return True, ""


class Root(M):
    """the path of every root: the empty one"""

    def __init__(self, own):
        self.own = own

    def m(self, X, st, v):
        if v is self.own:
            return True, ""
        if v.op == "fld" and v.a[1] == "nibble_path":
            return None, "path is %s" % short(v)
        return EmptyPath().m(X, st, v)


class With(M):
    """a map or set and one more entry"""

    def __init__(self, base, k, v):
        self.base, self.k, self.v = base, k, v

    def m(self, X, st, t):
        if t.op != "mapset":
            return False if t is self.base else shape(t), "is %s, expected one entry to be added" % short(t, 120)
        for n, w, x in (("key", self.k, t.a[1]), ("value", self.v, t.a[2])):
            r = match(X, st, w, x)
            if r[0] is not True:
                return r[0], "%s %s" % (n, r[1])
        return match(X, st, self.base, t.a[0])


def shape(t):
    return False if t.op in ("fld", "par", "map0", "vec0", "mapset", "mapdel", "extended", "pushed") else None


class Without(M):
    """a map or set with one key removed (as it was, where it is known not to hold the key)"""

    def __init__(self, base, k):
        self.base, self.k = base, k

    def m(self, X, st, t):
        absent = implied(st.facts, Is(Call("get", self.base, self.k), "None")) is True
        if t is self.base:
            return (True, "") if absent else (False, "still holds the key")
        if t.op == "mapdel" and t.a[0] is self.base and t.a[1] is self.k:
            return True, ""
        return shape(t), "is %s" % short(t, 120)


class Same(M):
    """unchanged; the removal of a key that is not there is no change"""

    def __init__(self, base):
        self.base = base

    def m(self, X, st, t):
        while t.op == "mapdel" and implied(st.facts, Is(Call("get", self.base, t.a[1]), "None")) is True:
            t = t.a[0]
        return (True, "") if t is self.base else (shape(t), "is %s, expected no change" % short(t, 120))


class Empty(M):
    def m(self, X, st, t):
        if t.op in ("map0", "vec0"):
            return True, ""
        return shape(t), "is %s, expected nothing in it" % short(t, 120)


class From:
    """iteration over every entry of a map or set that `m` describes"""
    name = "the version's entries"

    def __init__(self, m):
        self.want, self.msg = m, ""

    def base(self, t):
        while t.op in ("filter", "filter_map", "map", "inspect", "proj", "takewhile", "map_while"):
            t = t.a[0]
        return t

    def __call__(self, X, st, t):
        b = self.base(t)
        if b.op != "iter":
            return None
        r = match(X, st, self.want, b.a[0])
        self.msg = r[1]
        return r[0]

    def elem(self, t, uid):
        return T("elem", self.base(t), 0, uid)


class Plus(M):
    """base and every entry of another map or set; `entry` gives what is added for one"""

    def __init__(self, base, src, entry=None, kind="map"):
        self.base, self.src, self.entry, self.kind = base, src, entry, kind

    def m(self, X, st, t):
        if t.op == "extended":
            r = match(X, st, self.base, t.a[0])
            if r[0] is not True:
                return r
            s = t.a[1].a[0] if t.a[1].op == "iter" else t.a[1]
            r = match(X, st, self.src, s)
            if r[0] is True and self.entry is not None:
                return None, "is %s" % short(t, 120)
            return r
        if t.op == "loopvar":
            d = X.loops[t.a[0]].vars[t]
            r = match(X, st, self.base, d["init"])
            if r[0] is not True:
                return r
            sp = From(self.src)

            def step(el, cel, acc):
                e = el[0]
                k, v = self.entry(e) if self.entry else (e, UNIT) if self.kind == "set" else (Fld(e, "0"), Fld(e, "1"))
                return [([], With(acc, k, v))]
            return Fold([sp], d["init"], step).m(X, st, t)
        return shape(t), "is %s, expected the version's entries to be added" % short(t, 120)


class Last(M):
    """a list and one more item at its end"""

    def __init__(self, base, item):
        self.base, self.item = base, item

    def m(self, X, st, t):
        if t.op != "pushed":
            return shape(t), "is %s, expected one item to be added" % short(t, 120)
        if t.a[0] is not self.base:
            return shape(t.a[0]), "added to %s" % short(t.a[0], 100)
        return match(X, st, self.item, t.a[1])


class LenOf(M):
    """the size of a map; `more` when it is that of `base` and one new entry"""

    def __init__(self, m, base, more):
        self.inner, self.base, self.more = m, base, more

    def m(self, X, st, t):
        if t is (Add(Len(self.base), Int(1)) if self.more else Len(self.base)):
            return True, ""
        if t.op == "len":
            return match(X, st, self.inner, t.a[0])
        if t.op == "int" and not self.more and implied(st.facts, Eq(Len(self.base), t)) is True:
            return True, ""
        if t.op == "int" and self.more and implied(st.facts, Eq(Len(self.base), Int(t.a[0] - 1))) is True:
            return True, ""
        k = all(s.op in PUREOPS | {"len", "mapset", "map0"} for s in subterms(t))
        return (False if k else None), "is %s" % short(t, 90)


def Count(base, n):
    return Add(base, Int(n)) if n else base


# ------------------------------------------------------------------ runs
def intrinsics(c):
    return {**children(c), **storage(c)}


def run(c, b):
    return c.run(b, intr=intrinsics(c), kmax=400)


def params(b):
    return ["self" if i == 0 else "a%d" % i for i in range(b["argc"])]


def state(results):
    me = ("O", Par("self"))
    return results, lambda st, v: Tup(v, st.env.get(me, Par("self")))


def here(m, k, yes=True):
    return (Is(Call("get", m, k), "Some"), yes)


def looked(own, key):
    """guards of each way a node can be found, and the node"""
    nc, fz, rd = own["node_cache"], own["fnodes"], own["reader"]
    a = (rd, key)
    miss = [here(nc, key, False), here(fz, key, False)]
    val = lambda m: Fld(As(Call("get", m, key), "Some"), "0")
    return [("newest", [here(nc, key)], val(nc)),
            ("earlier version", [here(nc, key, False), here(fz, key)], val(fz)),
            ("storage", miss + [T("nodeok", *a), T("nodehere", *a)], T("node", *a))], \
        miss + [T("nodeok", *a), (T("nodehere", *a), False)], miss + [(T("nodeok", *a), False)]


def tables(c, rep, b, rows, name=None):
    X, rs = run(c, b)
    rs, val = state(rs)
    table(rep, X, name or b["name"], where(b), rs, rows, value=val)
    return X, rs


def lookup(c, rep, sh):
    own = sh.own
    key = Par("a1")
    found, none, err = looked(own, key)
    keep = Parts(sh, own)
    for n, opt in (("get_node", False), ("get_node_option", True)):
        for tr in (None, "TreeReader"):
            b = c.method("TreeCache", n, tr, opt=tr is not None)
            if b is None:
                continue
            rows = [Row(w, g, Tu(Con("Ok", Con("Some", x) if opt else x), keep)) for w, g, x in found]
            rows.append(Row("nowhere", none, Tu(Con("Ok", Con("None")) if opt else IsErr(), keep)))
            rows.append(Row("storage error", err, Tu(IsErr(), keep)))
            tables(c, rep, b, rows, n + (" (as storage)" if tr else ""))


def writes(c, rep, sh):
    own = sh.own
    k, n = Par("a1"), Par("a2")
    nc, leaf = own["node_cache"], Is(Par("a2"), "Leaf")
    b = c.method("TreeCache", "put_node")
    tables(c, rep, b, [
        Row("new leaf", [here(nc, k, False), leaf], Tu(Con("Ok"), Parts(sh, own, node_cache=With(nc, k, n), num_new_leaves=Count(own["num_new_leaves"], 1)))),
        Row("new node", [here(nc, k, False), (leaf, False)], Tu(Con("Ok"), Parts(sh, own, node_cache=With(nc, k, n)))),
        Row("taken", [here(nc, k)], Tu(IsErr(), Parts(sh, own)))])
    sc = own["stale_node_index_cache"]
    b = c.method("TreeCache", "delete_node")
    drop = Without(nc, k)
    tables(c, rep, b, [
        Row("leaf of this version", [here(nc, k), n], Tu(UNIT, Parts(sh, own, node_cache=drop, num_new_leaves=Count(own["num_new_leaves"], -1)))),
        Row("node of this version", [here(nc, k), (n, False)], Tu(UNIT, Parts(sh, own, node_cache=drop))),
        Row("earlier leaf", [here(nc, k, False), here(sc, k, False), n], Tu(UNIT, Parts(
            sh, own, node_cache=Same(nc), stale_node_index_cache=With(sc, k, UNIT), num_stale_leaves=Count(own["num_stale_leaves"], 1)))),
        Row("earlier node", [here(nc, k, False), here(sc, k, False), (n, False)], Tu(UNIT, Parts(
            sh, own, node_cache=Same(nc), stale_node_index_cache=With(sc, k, UNIT)))),
        Row("stale already", [here(nc, k, False), here(sc, k)], Any(), optional=True)])
    b = c.method("TreeCache", "put_value")
    tables(c, rep, b, [Row("recorded", [], Tu(UNIT, Parts(sh, own, value_cache=With(own["value_cache"], Tup(Par("a1"), Par("a2")), Par("a3")))))])
    b = c.method("TreeCache", "set_root_node_key")
    tables(c, rep, b, [Row("set", [], Tu(UNIT, Parts(sh, own, root_node_key=Par("a1"))))])
    b = c.method("TreeCache", "get_root_node_key")
    tables(c, rep, b, [Row("read", [], Tu(own["root_node_key"], Parts(sh, own)))])


def fresh(sh, reader, version, root, nodes=None):
    z = {n: Empty() for n in ("value_cache", "stale_node_index_cache", "fnodes", "fvalues", "fstale", "fstats", "froots")}
    return Parts(sh, None, root_node_key=root, next_version=version, node_cache=nodes or Empty(), num_new_leaves=Int(0),
                 num_stale_leaves=Int(0), reader=reader, **z)


def starts(c, rep, sh):
    b = c.method("TreeCache", "new")
    X, rs = run(c, b)
    rd, ver = Par("a0"), Par("a1")
    asked = {t.a for st, _ in rs for k in st.facts if isinstance(k, Term) for t in subterms(k) if t.op == "nodeok"}
    name, site = "new", where(b)
    v0, good = Eq(ver, Int(0)), []
    for a in asked:
        r, k = a
        num = Fld(Fld(k, "nibble_path"), "num_nibbles")
        ok = r is rd and Fld(k, "version") is Int((1 << 64) - 1) and num is Int(0)
        rep.put(ok or (False if r is rd and num.op == "int" and Fld(k, "version").op in ("int", "par", "lin") else None),
                name + "/pre-genesis root", site, "reads node %s" % short(k))
        if ok:
            good.append(a)
    if len(good) != 1:
        rep.put(None if asked else False, name + "/pre-genesis root", site, "the pre-genesis root is not looked up")
        return
    a = good[0]
    nil = Key(Int(0), EmptyPath())
    table(rep, X, name, site, rs, [
        Row("pre-genesis tree", [v0, T("nodeok", *a), T("nodehere", *a)], Con("Ok", fresh(sh, rd, ver, Key(Int((1 << 64) - 1), EmptyPath())))),
        Row("first version", [v0, T("nodeok", *a), (T("nodehere", *a), False)], Con("Ok", fresh(
            sh, rd, ver, nil, With(Empty(), nil, Con("Null"))))),
        Row("storage error", [v0, (T("nodeok", *a), False)], IsErr()),
        Row("later version", [(v0, False)], Con("Ok", fresh(sh, rd, ver, Key(Sub(ver, Int(1)), EmptyPath()))))])
    b = c.method("TreeCache", "new_overwrite", opt=True)
    if b is None:
        return
    X, rs = run(c, b)
    call = Call("reader::TreeReader::get_rightmost_leaf", rd)
    opt = Fld(As(call, "Ok"), "0")
    some = Is(opt, "Some")
    at = Eq(Fld(Fld(Fld(As(opt, "Some"), "0"), "0"), "version"), ver)
    table(rep, X, "new_overwrite", where(b), rs, [
        Row("latest version", [Is(call, "Ok"), some, at], Con("Ok", fresh(sh, rd, ver, Key(ver, EmptyPath())))),
        Row("not the latest", [Is(call, "Ok"), some, (at, False)], IsErr()),
        Row("no tree", [Is(call, "Ok"), (some, False)], IsErr()),
        Row("storage error", [Is(call, "Err")], IsErr())])


@prop("C22", floor=20)
def overlay(c, rep):
    sh = Shape(c)
    lookup(c, rep, sh)
    writes(c, rep, sh)
    starts(c, rep, sh)


# ------------------------------------------------------------------ closing a version
@prop("C23", floor=12)
def closing(c, rep):
    sh = Shape(c)
    own = sh.own
    b = c.method("TreeCache", "freeze")
    X, rs = run(c, b)
    root, nxt, nc, sc = own["root_node_key"], own["next_version"], own["node_cache"], own["stale_node_index_cache"]
    place = Key(nxt, Root(Fld(root, "nibble_path")))
    rv = Fld(root, "version")

    def taken(st, v):
        """the place of the root is occupied already, which is an error"""
        if not is_err(v):
            return False
        for k, x in st.facts.items():
            if isinstance(k, Term) and k.op == "is" and k.a[0].op == "call" and k.a[0].a[0] == "get" and (k.a[1] == "Some") == x:
                m, key = k.a[0].a[1]
                if m is nc and place.m(X, st, key)[0] is True and key is not root:
                    return True
        return False
    rs = [(st, v) for st, v in rs if not taken(st, v)]
    found, none, err = looked(own, root)

    def closed(node, put, leaf):
        """the cache after closing: `node` is the version's root, stored if `put`"""
        nodes = With(nc, place, node) if put else nc
        st = Fields(new_nodes=LenOf(nodes, nc, put), new_leaves=Count(own["num_new_leaves"], 1 if leaf else 0),
                    stale_nodes=LenOf(sc, sc, False), stale_leaves=own["num_stale_leaves"])
        stale = lambda e: (Fields(stale_since_version=nxt, node_key=e), UNIT)
        return Parts(sh, own, next_version=Add(nxt, Int(1)), node_cache=Empty(), value_cache=Empty(), stale_node_index_cache=Empty(),
                     num_new_leaves=Int(0), num_stale_leaves=Int(0), froots=Last(own["froots"], Hash(node)), fstats=Last(own["fstats"], st),
                     fnodes=Plus(own["fnodes"], nodes), fvalues=Plus(own["fvalues"], own["value_cache"]),
                     fstale=Plus(own["fstale"], sc, stale))

    class Hash(M):
        def __init__(self, node):
            self.node = node

        def m(self, X, st, v):
            h = Fld(v, "0")
            if h.op == "nhash":
                return match(X, st, self.node, h.a[0])
            if h.op in ("konst", "bytes", "hash"):
                null = Con("Null").m(X, st, self.node)[0] is True if isinstance(self.node, Term) else True
                nh = nullhash(c)
                return (True if null and nh is not None and h is nh else False if h.op == "konst" and not null else None), "is %s" % short(h, 90)
            return shape(h), "is %s, expected the root's hash" % short(h, 90)
    rows = []
    null = Con("Null")
    same, none_new, none_old = Eq(rv, nxt), Eq(Len(nc), Int(0)), Eq(Len(sc), Int(0))
    for w, g, x in found:
        leaf = Is(x, "Leaf")
        rows += [Row("unchanged, leaf root (%s)" % w, g + [(same, False), none_new, none_old, leaf], Tu(Con("Ok"), closed(x, True, True))),
                 Row("unchanged (%s)" % w, g + [(same, False), none_new, none_old, (leaf, False)], Tu(Con("Ok"), closed(x, True, False))),
                 Row("new root (%s)" % w, g + [same], Tu(Con("Ok"), closed(x, False, False))),
                 Row("new nodes (%s)" % w, g + [(same, False), (none_new, False)], Tu(Con("Ok"), closed(x, False, False))),
                 Row("stale nodes (%s)" % w, g + [(same, False), none_new, (none_old, False)], Tu(Con("Ok"), closed(x, False, False)))]
        if w == "newest":
            for r in rows:
                if none_new in r.guards:
                    r.optional = True
    rows.append(Row("no root", none, Tu(Con("Ok"), closed(null, True, False))))
    rows.append(Row("storage error", err, Tu(IsErr(), Any())))
    _, val = state(rs)
    table(rep, X, "freeze", where(b), rs, rows, value=val)
    parts(c, rep, sh)


def nullhash(c):
    return None


def parts(c, rep, sh):
    """what the finished cache hands over"""
    bs = [b for b in c.p.facts["bodies"] if b["kind"] == "fn" and b.get("name") in ("from", "into")
          and b.get("impl_trait") and [strip(i).split("::")[-1] for i in b["inputs"]] == ["TreeCache"]]
    if not bs:
        raise Anchor("conversion of TreeCache not found")
    own = sh.of(Par("a0"))
    for b in bs:
        X, rs = run(c, b)
        nb = Fields(**{sh.nodes: own["fnodes"], sh.values: own["fvalues"]})
        table(rep, X, "finished cache", where(b), rs, [Row("handed over", [], Tu(own["froots"], Fields(
            node_batch=nb, stale_node_index_batch=own["fstale"], node_stats=own["fstats"])))])
