"""Vocabulary shared by the rules about tree nodes: intrinsics that keep the crate's own data structures
abstract while the code that uses them is analysed.  Each abstraction is justified by the rules that
analyse the abstracted function itself (PRIM, NODE)."""
from spec import *
from terms import *
from models import do_next


def ref_of(c, i=0):
    a = c.args[i]
    return a.a if a.op == "ref" else (("O", a), ())


def setref(c, i, v, st=None):
    root, proj = ref_of(c, i)
    c.e.store(st or c.st, root, proj, v)


class Dom:
    """intrinsics of one analysed configuration"""

    def __init__(self, c):
        self.c = c

    def path(self):
        """NibblePath::push / pop / new as abstract list operations"""
        c = self.c
        intr = {}

        def push(k):
            setref(k, 0, T("ppush", k.val(0), k.val(1)))
            return k.ret(UNIT)

        def pop(k):
            v = k.val(0)
            if v.op == "ppush":
                setref(k, 0, v.a[0])
                return k.ret(Some(v.a[1]))
            if v.op == "agg" and "num_nibbles" in v.a[2] and Fld(v, "num_nibbles") is Int(0):
                return k.ret(NONE)
            out = []
            for s, b in k.e.branch(k.st, T("pempty", v)):
                if b:
                    out.append((s, NONE))
                else:
                    setref(k, 0, T("ppop", v), s)
                    out.append((s, Some(T("plast", v))))
            return out
        for n, f in (("push", push), ("pop", pop)):
            b = c.method("NibblePath", n, opt=True)
            if b:
                intr[b["path"]] = f
        return intr

    def bitmaps(self):
        b = self.c.method("InternalNode", "generate_bitmaps")
        return {b["path"]: lambda k: k.ret(Tup(T("ebits", k.val(0)), T("lbits", k.val(0))))}


def nibble(n):
    return Agg("types::nibble::Nibble", "Nibble", ("0",), (n if isinstance(n, Term) else Int(n),))


def tz(x):
    return T("num", "trailing_zeros", "u16", (x,))


def ones(x):
    return T("num", "count_ones", "u16", (x,))


def rangemask(start, width):
    return ((1 << width) - 1) << start & 0xffff


def And(x, m):
    return x if m == 0xffff else Bin("BitAnd", x, Int(m), "u16")


def Z(x):
    return Eq(x, Int(0))


# ------------------------------------------------------------------ storage and traversal
def reader_of(c):
    return c.field("JellyfishMerkleTree", "reader", 0)


def canon_key(k, t):
    """a key hash known to equal a parameter is written as that parameter"""
    for p in getattr(k.e, "canon", ()):
        if t is not p and truth_eq(k.st.facts, Fld(t, "0"), Fld(p, "0")):
            return p
    return t


def truth_eq(facts, a, b):
    return implied(facts, Eq(a, b)) is True


def storage(c):
    """TreeReader's methods as functions of the stored state: a node or value is unreadable, absent or present"""
    out = {}

    def read(kind, opt, keyf):
        def f(k):
            a = keyf(k)
            val, ok, here = T(kind, *a), T(kind + "ok", *a), T(kind + "here", *a)
            res = []
            for s, b in k.e.branch(k.st, ok):
                if not b:
                    res.append((s, Err(T("err", kind))))
                    continue
                for s2, b2 in k.e.branch(s, here):
                    if opt:
                        res.append((s2, Ok(Some(val)) if b2 else Ok(NONE)))
                    else:
                        res.append((s2, Ok(val) if b2 else Err(T("err", kind))))
            return res
        return f

    def nk(k):
        return k.e.snap(k.st, k.val(0)), k.e.snap(k.st, k.val(1))

    def vk(k):
        return k.e.snap(k.st, k.val(0)), k.val(1), canon_key(k, k.e.snap(k.st, k.val(2)))
    tab = {"get_node": ("node", False, nk), "get_node_option": ("node", True, nk),
           "get_value": ("val", False, vk), "get_value_option": ("val", True, vk)}
    for n, (kind, opt, kf) in tab.items():
        out["reader::TreeReader::" + n] = read(kind, opt, kf)
    for b in c.p.facts["bodies"]:
        if b["kind"] == "fn" and b.get("name") in tab and b.get("in_trait") and strip(b["in_trait"]).endswith("TreeReader"):
            out[b["path"]] = read(*tab[b["name"]])
    return out


def traversal(c):
    """descent through a node and positions in the key's path, kept abstract (C09, C11 analyse them)"""
    out = {}

    def desc(n):
        def f(k):
            a = [k.e.snap(k.st, k.val(i)) for i in range(4)]
            return k.ret(Tup(T(n, a[0], a[2], a[3]), T("sibs" + n[-1], *a)))
        return f

    def plain(k):
        a = [k.e.snap(k.st, k.val(i)) for i in range(3)]
        return k.ret(T("child1", *a))
    for ty, n, f in (("InternalNode", "get_only_child_with_siblings", desc("child1")),
                     ("InternalNode", "get_child_with_siblings", desc("child0")),
                     ("InternalNode", "get_only_child_without_siblings", plain),
                     ("NibbleIterator", "visited_nibbles", lambda k: k.ret(T("visited", k.e.snap(k.st, k.val(0))))),
                     ("NibbleIterator", "get_nibble_path", lambda k: k.ret(T("npath", k.e.snap(k.st, k.val(0)))))):
        b = c.method(ty, n, opt=True)
        if b:
            out[b["path"]] = f
    return out


# ------------------------------------------------------------------ writing
def mknode(kind, x):
    return Agg("node_type::Node", kind, ("0",), (x,))


def iterbase(t):
    """the iterator a position term was advanced from"""
    while t.op in ("adv", "skipped", "itpos"):
        t = t.a[1] if t.op == "adv" else t.a[0]
    return t


def separate(k1, k2):
    """two node keys that cannot be the same"""
    def path(k):
        p = Fld(k, "nibble_path")
        n = 0
        while p.op == "ppush":
            p, n = p.a[0], n + 1
        return p, n
    (p1, n1), (p2, n2) = path(k1), path(k2)
    return p1 is p2 and n1 != n2


def readfrom(cache, key):
    """the cache with the writes removed that cannot concern the key"""
    while cache.op in ("del", "put") and separate(cache.a[1], key):
        cache = cache.a[0]
    return cache


def treecache(c):
    """the tree cache as a history of writes; what each write does to it is C19's concern"""
    out = {}

    def put(k):
        cur = k.val(0)
        key, nd = k.e.snap(k.st, k.val(1)), k.e.snap(k.st, k.val(2))
        res = []
        for s, b in k.e.branch(k.st, T("putok", key, nd)):
            setref(k, 0, T("put", cur, key, nd), s)
            res.append((s, Ok(UNIT) if b else Err(T("err", "put"))))
        return res

    def dele(k):
        setref(k, 0, T("del", k.val(0), k.e.snap(k.st, k.val(1)), k.val(2)))
        return k.ret(UNIT)

    def rd(opt):
        def f(k):
            key = k.e.snap(k.st, k.val(1))
            a = (readfrom(k.e.snap(k.st, k.val(0)), key), key)
            res = []
            for s, b in k.e.branch(k.st, T("nodeok", *a)):
                if not b:
                    res.append((s, Err(T("err", "node"))))
                    continue
                for s2, b2 in k.e.branch(s, T("nodehere", *a)):
                    v = T("node", *a)
                    res.append((s2, (Ok(Some(v)) if b2 else Ok(NONE)) if opt else (Ok(v) if b2 else Err(T("err", "node")))))
            return res
        return f

    def setroot(k):
        setref(k, 0, T("setroot", k.val(0), k.e.snap(k.st, k.val(1))))
        return k.ret(UNIT)

    def putval(k):
        setref(k, 0, T("putval", k.val(0), k.val(1), k.e.snap(k.st, k.val(2)), k.e.snap(k.st, k.val(3))))
        return k.ret(UNIT)

    def freeze(k):
        cur = k.val(0)
        res = []
        for s, b in k.e.branch(k.st, T("freezeok", cur)):
            setref(k, 0, T("freeze", cur), s)
            res.append((s, Ok(UNIT) if b else Err(T("err", "freeze"))))
        return res
    for n, f in (("put_node", put), ("delete_node", dele), ("get_node", rd(False)), ("get_node_option", rd(True)),
                 ("get_root_node_key", lambda k: k.ret(T("rootkey", k.e.snap(k.st, k.val(0))))),
                 ("set_root_node_key", setroot), ("put_value", putval), ("freeze", freeze)):
        b = c.method("TreeCache", n, opt=n not in ("put_node", "delete_node"))
        if b:
            out[b["path"]] = f
    return out


def wholecache(c):
    """making a cache and taking the finished batch out of it (C20 and C21 analyse these)"""
    out = {}

    def new(k):
        a = (k.e.snap(k.st, k.val(0)), k.val(1))
        return [(s, Ok(T("cache0", *a)) if b else Err(T("err", "cache"))) for s, b in k.e.branch(k.st, T("cacheok", *a))]

    def over(k):
        a = (k.e.snap(k.st, k.val(0)), k.val(1))
        return [(s, Ok(T("cacheow", *a)) if b else Err(T("err", "cache"))) for s, b in k.e.branch(k.st, T("cacheok", *a))]
    for n, f in (("new", new), ("new_overwrite", over)):
        b = c.method("TreeCache", n, opt=True)
        if b:
            out[b["path"]] = f
    return out


def children(c):
    """a node's children as an abstract map from nibbles (C10 analyses insert, remove, new; C07 the hashes)"""
    out = {}
    snap = lambda k, i: k.e.snap(k.st, k.val(i))

    def ins(k):
        setref(k, 0, T("cins", k.val(0), k.val(1), snap(k, 2)))
        return k.ret(UNIT)

    def rem(k):
        setref(k, 0, T("cdel", k.val(0), k.val(1)))
        return k.ret(UNIT)

    def child(k):
        a = (snap(k, 0), k.val(1))
        return [(s, Some(T("ichild", *a)) if b else NONE) for s, b in k.e.branch(k.st, T("haschild", *a))]

    def count(k):
        """number of children, as far as the code can ask: none, one or more"""
        it, out = T("iter", T("present", snap(k, 0))), []
        for s, b in k.e.branch(k.st, T("hasnext", it, 0, False)):
            if not b:
                out.append((s, Int(0)))
                continue
            out += [(s2, Add(Int(2), T("more", it)) if b2 else Int(1)) for s2, b2 in k.e.branch(s, T("hasnext", it, 1, False))]
        return out

    def ntype(wrap):
        def f(k):
            x = wrap(snap(k, 0))
            if x.op == "agg" and x.a[1] == "Leaf":
                return k.ret(Agg("node_type::NodeType", "Leaf", (), ()))
            return k.ret(T("ntype", x))
        return f

    def nhash(wrap):
        return lambda k: k.ret(T("nhash", wrap(snap(k, 0))))
    same = lambda x: x
    leaf, inner = (lambda x: mknode("Leaf", x)), (lambda x: mknode("Internal", x))
    new = c.method("Children", "new", opt=True)
    for ty, n, f in (("Children", "insert", ins), ("Children", "remove", rem),
                     ("Children", "new", lambda k: k.ret(T("nochild"))),
                     ("Children", "num_children", count),
                     ("Children", "iter_sorted", lambda k: k.ret(T("iter", T("present", snap(k, 0))))),
                     ("Children", "is_empty", lambda k: [(s, FALSE if b else TRUE) for s, b in k.e.branch(
                         k.st, T("hasnext", T("iter", T("present", snap(k, 0))), 0, False))]),
                     ("Children", "iter", lambda k: k.ret(T("iter", T("present", snap(k, 0))))),
                     ("InternalNode", "new", lambda k: k.ret(T("inode", snap(k, 0)))),
                     ("InternalNode", "child", child),
                     ("Node", "hash", nhash(same)), ("LeafNode", "hash", nhash(leaf)), ("InternalNode", "hash", nhash(inner)),
                     ("Node", "node_type", ntype(same)), ("InternalNode", "node_type", ntype(inner))):
        b = c.method(ty, n, opt=True)
        if b:
            out[b["path"]] = f
    b = c.method("Children", "default", "Default", opt=True)
    if b:
        out[b["path"]] = lambda k: k.ret(T("nochild"))
    return out


def positions(c):
    """nibble iterators compared with each other (C11 analyses skip_common_prefix)"""
    out = {}

    def skip(k):
        x, y = k.e.snap(k.st, k.val(0)), k.e.snap(k.st, k.val(1))
        setref(k, 0, T("skipped", x, y))
        setref(k, 1, T("skipped", y, x))
        return k.ret(T("common", x, y))
    def finished(k):
        r = k.args[0]
        v = k.e.load(k.st, *(r.a if r.op == "ref" else (("O", r), ())))
        root, out = ("O", T("tested", v)), []
        k.st.env[root] = v
        for s, e in do_next(k, k.st, root, ()):
            s.env.pop(root, None)
            out.append((s, TRUE if e is None else FALSE))
        return out
    for b, f in ((c.func("skip_common_prefix", opt=True), skip),
                 (c.method("NibbleIterator", "is_finished", opt=True), finished),
                 (c.method("NibbleIterator", "remaining_nibbles", opt=True),
                  lambda k: k.ret(T("remaining", k.e.snap(k.st, k.val(0))))),
                 (c.method("NibbleIterator", "visited_nibbles", opt=True),
                  lambda k: k.ret(T("visited", k.e.snap(k.st, k.val(0))))),
                 (c.method("NibbleIterator", "get_nibble_path", opt=True),
                  lambda k: k.ret(T("npath", iterbase(k.e.snap(k.st, k.val(0))))))):
        if b:
            out[b["path"]] = f
    for b in c.p.facts["bodies"]:
        if b["kind"] == "fn" and b.get("name") == "from_iter" and strip(b.get("impl_self") or "").endswith("NibblePath"):
            out[b["path"]] = lambda k: k.ret(T("pathof", k.e.snap(k.st, k.val(0))))
    return out


def ranges(c):
    """nibbles of a key by index, and the runs of keys that share one (C11 and C21 analyse these)"""
    out = {}
    nib = lambda k: k.ret(T("nibbleof", k.e.snap(k.st, k.val(0)), k.val(1)))
    for b in c.p.facts["bodies"]:
        if b["kind"] == "fn" and b.get("name") == "get_nibble" and "Bytes32Ext" in str(b.get("impl_trait")) + str(b.get("in_trait")):
            out[b["path"]] = nib
    out["bytes32ext::Bytes32Ext::get_nibble"] = nib
    b = c.method("NibbleRangeIterator", "new")
    out[b["path"]] = lambda k: k.ret(T("iter", T("runs", k.e.snap(k.st, k.val(0)), k.val(1))))
    return out
