"""Tree nodes: hashes, bitmaps, siblings, children."""
from rules import prop
from rules.proofs import Names, leafhash, inthash, PH, hparam
from rules.domain import *
from spec import *
from terms import *

RANGES = [(s, w) for w in (16, 8, 4, 2, 1) for s in range(0, 16, w)]


class NN:
    def __init__(self, c):
        self.children = c.field("InternalNode", "children", 0)
        self.count = c.field("InternalNode", "leaf_count", 1)
        self.arr = c.field("Children", "children", 0)
        self.num = c.field("Children", "num_children", 1)
        self.kver = c.field("NodeKey", "version", 0)
        self.kpath = c.field("NodeKey", "nibble_path", 1)
        self.lk = c.field("LeafNode", "key_hash", 0)
        self.lv = c.field("LeafNode", "value_hash", 1)

    def slot(self, node, i):
        return Idx(Fld(Fld(node, self.children), self.arr), i)

    def child(self, node, i):
        return Fld(As(self.slot(node, i), "Some"), "0")

    def childkey(self, key, ver, n):
        return Agg("node_type::NodeKey", "NodeKey", (self.kver, self.kpath),
                   (ver, T("ppush", Fld(key, self.kpath), n)))


class MH(M):
    """recursive call for a half of the range: any bitmaps that agree on it"""

    def __init__(self, node, start, width, E, L):
        self.node, self.start, self.width, self.E, self.L = node, start, width, E, L

    def m(self, X, st, v):
        if v.op == "merkle":
            node, s, w, bm = v.a
            if node is not self.node or s is not Int(self.start) or w is not Int(self.width):
                return False, "hashes %s, expected the range [%d, %d)" % (short(v, 90), self.start, self.start + self.width)
            return bm_ok(bm, self.E, self.L, self.start, self.width)
        return False, "is %s, expected the hash of children [%d, %d)" % (short(v, 90), self.start, self.start + self.width)


def bm_ok(bm, E, L, start, width):
    m = rangemask(start, width)
    for i, b in enumerate((E, L)):
        x = Fld(bm, str(i))
        if not any(x is And(b, k) for k in covers(start, width)):
            return (False if known_bits(x, E, L) else None), "passes the bitmap %s" % short(x, 80)
    return True, ""


def covers(start, width):
    out, w = [], width
    while w <= 16:
        out.append(rangemask(start & ~(w - 1), w))
        w *= 2
    return out


def known_bits(x, E, L):
    while x.op == "bin" and x.a[0] in ("BitAnd", "Rem", "BitOr"):
        x = x.a[1] if x.a[2].op == "int" else x.a[2]
    return x is E or x is L


def single(E, L, start, width, yes):
    """guards: exactly one child in the range and it stops the descent"""
    m = rangemask(start, width)
    e, l = And(E, m), And(L, m)
    if width == 1:
        return [[]] if yes else []
    one = Eq(ones(e), Int(1))
    return [[one, Not(Z(l))]] if yes else [[Not(one)], [one, Z(l)]]


def idx_alts(E, start, width):
    m = rangemask(start, width)
    a = [tz(And(E, m))]
    if width == 1:
        a += [Int(start)]
    return a


def merkle_intr(c):
    b = c.method("InternalNode", "merkle_hash")

    def f(k):
        return k.ret(T("merkle", k.val(0), k.val(1), k.val(2), k.e.snap(k.st, k.val(3))))
    return b, {b["path"]: f}


@prop("C07", floor=80)
def merkle(c, rep):
    """hash of a range of children"""
    n = NN(c)
    b, intr = merkle_intr(c)
    h = hparam(b)
    node, E, L = Par("self"), Par("E"), Par("L")
    for s, w in RANGES:
        X, rs = c.run(b, args={1: Int(s), 2: Int(w), 3: Tup(E, L)}, intr=dict(intr))
        e = And(E, rangemask(s, w))
        rows = [Row("empty", [Z(e)], PH)]
        for i, g in enumerate(single(E, L, s, w, True)):
            rows.append(Row("single", [Not(Z(e))] + g, OneOf(*[Fld(n.child(node, i), "hash") for i in idx_alts(E, s, w)])))
        for i, g in enumerate(single(E, L, s, w, False)):
            rows.append(Row("several%d" % i, [Not(Z(e))] + g, HashOf(h, MH(node, s, w // 2, E, L),
                                                                      MH(node, s + w // 2, w // 2, E, L))))
        table(rep, X, "merkle_hash[%d..%d]" % (s, s + w), where(b), rs, rows)


class HashOf(M):
    """hash of an internal proof node with the given children"""

    def __init__(self, h, l, r):
        self.h, self.l, self.r = h, l, r

    def m(self, X, st, v):
        x = inthash(self.h, Par("$l"), Par("$r"))
        if v.op != "hash" or v.a[0] != x.a[0] or len(v.a[1]) != len(x.a[1]) or v.a[1][0] is not x.a[1][0]:
            return False, "is %s, expected the hash of an internal node" % short(v)
        for m, y in ((self.l, v.a[1][1]), (self.r, v.a[1][2])):
            r = match(X, st, m, y)
            if r[0] is not True:
                return r
        return True, ""


def childfold(n, children, init, step):
    """fold over the present children: step(child, index, acc) -> [(guards, next)]"""
    def st(el, cel, acc):
        e, i = el[0]
        ch = Fld(As(e, "Some"), "0")
        out = [([Is(e, "Some")] + g, nx, set()) for g, nx in step(ch, i, acc)]
        out.append(([Is(e, "None")], acc, set(), True))
        return out
    return Fold([Over(Fld(children, n.arr))], init, st)


def cases_leaf(ch):
    t = Fld(ch, "node_type")
    return [Is(t, "Leaf")], [Is(t, "Internal")]


def leafcount_fold(n, children):
    def step(ch, i, acc):
        lf, it = cases_leaf(ch)
        return [(lf, Add(acc, Int(1))), (it, Add(acc, Fld(As(Fld(ch, "node_type"), "Internal"), "leaf_count")))]
    return childfold(n, children, Int(0), step)


class OrBit(M):
    def __init__(self, acc, i, set_):
        self.acc, self.i, self.set_ = acc, i, set_

    def m(self, X, st, v):
        if not self.set_:
            return (True, "") if v is self.acc else (False, "changes the bitmap to %s" % short(v, 80))
        if v is self.acc:
            return False, "does not record the child in the bitmap"
        bits = [Bin("Shl", Int(1), x) for x in (self.i, T("trunc", 8, self.i), T("trunc", 16, self.i))]
        alts = [Bin("BitOr", self.acc, b) for b in bits]
        return (True, "") if any(v is a for a in alts) else (
            False if v.op == "bin" and v.a[0] == "BitOr" else None, "records %s in the bitmap" % short(v, 120))


@prop("C07", floor=2)
def bitmaps(c, rep):
    n = NN(c)
    b = c.method("InternalNode", "generate_bitmaps")
    X, rs = c.run(b)
    ch = Fld(Par("self"), n.children)

    def mk(which):
        def step(x, i, acc):
            lf, it = cases_leaf(x)
            return [(lf, OrBit(acc, i, True)), (it, OrBit(acc, i, which == 0))]
        return childfold(n, ch, Int(0), step)
    table(rep, X, "existence bitmap", where(b), rs, [Row("all", [], mk(0))], value=lambda s, v: Fld(v, "0"))
    table(rep, X, "leaf bitmap", where(b), rs, [Row("all", [], mk(1))], value=lambda s, v: Fld(v, "1"))


def whole(n, h, node):
    """hash of an internal node"""
    return T("merkle", node, Int(0), Int(16), Tup(T("ebits", node), T("lbits", node)))


def node_hash_rows(n, h, x):
    lf, it = Fld(As(x, "Leaf"), "0"), Fld(As(x, "Internal"), "0")
    return [Row("null", [Is(x, "Null")], PH),
            Row("leaf", [Is(x, "Leaf")], leafhash(h, Fld(Fld(lf, n.lk), "0"), Fld(Fld(lf, n.lv), "0"))),
            Row("internal", [Is(x, "Internal")], whole(n, h, it))]


@prop("C07", floor=7)
def hashes(c, rep):
    n = NN(c)
    m, mi = merkle_intr(c)
    intr = {**mi, **Dom(c).bitmaps()}
    b = c.method("Node", "hash")
    h = hparam(b)
    X, rs = c.run(b, intr=intr)
    table(rep, X, "Node::hash", where(b), rs, node_hash_rows(n, h, Par("self")))
    b = c.method("LeafNode", "hash")
    X, rs = c.run(b, intr=intr)
    table(rep, X, "LeafNode::hash", where(b), rs, [Row("all", [], leafhash(
        hparam(b), Fld(Fld(Par("self"), n.lk), "0"), Fld(Fld(Par("self"), n.lv), "0")))])
    b = c.method("InternalNode", "hash")
    X, rs = c.run(b, intr=intr)
    table(rep, X, "InternalNode::hash", where(b), rs, [Row("all", [], whole(n, h, Par("self")))])


# ------------------------------------------------------------------ proof siblings
class StoredChild(M):
    """the proof node standing for the single stored child of a range"""

    def __init__(self, n, pn, node, key, idx):
        self.n, self.pn, self.node, self.key, self.idx = n, pn, node, key, idx

    def m(self, X, st, v):
        n, pn = self.n, self.pn
        for i in self.idx:
            x = T("node", Par("a1"), n.childkey(self.key, Fld(n.child(self.node, i), "version"), nibble(i)))
            if implied(st.facts, Is(x, "Leaf")) is True:
                lf = Fld(As(x, "Leaf"), "0")
                return match(X, st, Con("Leaf", Fields(**{pn.kh: Fld(lf, n.lk), pn.vh: Fld(lf, n.lv)})), v)
            if implied(st.facts, Is(x, "Internal")) is True:
                it = Fld(As(x, "Internal"), "0")
                E, L = T("ebits", it), T("lbits", it)
                return match(X, st, Con("Internal", Fields(**{pn.l: MH(it, 0, 8, E, L), pn.r: MH(it, 8, 8, E, L)})), v)
        return False, "is %s without reading the child stored at (its version, path + its nibble)" % short(v, 120)


@prop("C08", floor=80)
def siblings(c, rep):
    n = NN(c)
    pn = Names(c)
    b = c.method("InternalNode", "build_sibling")
    h = hparam(b)
    _, mi = merkle_intr(c)
    intr = {**mi, **Dom(c).bitmaps(), **Dom(c).path(), **reader_intr(c)}
    node, key, E, L = Par("self"), Par("a2"), Par("E"), Par("L")
    for s, w in RANGES:
        X, rs = c.run(b, args={3: Int(s), 4: Int(w), 5: Tup(E, L)}, intr=dict(intr))
        e = And(E, rangemask(s, w))
        rows = [Row("empty", [Z(e)], Con("Null"))]
        for g in single(E, L, s, w, True):
            rows.append(Row("one child", [Not(Z(e))] + g, StoredChild(n, pn, node, key, idx_alts(E, s, w))))
        for j, g in enumerate(single(E, L, s, w, False)):
            rows.append(Row("several%d" % j, [Not(Z(e))] + g, Con("Internal", Fields(**{
                pn.l: MH(node, s, w // 2, E, L), pn.r: MH(node, s + w // 2, w // 2, E, L)}))))
        table(rep, X, "build_sibling[%d..%d]" % (s, s + w), where(b), rs, rows)


def reader_intr(c):
    """TreeReader::get_node / get_node_option as functions of the key"""
    out = {}

    def get_node(k):
        t = T("node", k.val(0), k.e.snap(k.st, k.val(1)))
        ok = T("nodeok", k.val(0), k.e.snap(k.st, k.val(1)))
        res = []
        for s, b in k.e.branch(k.st, ok):
            res.append((s, Ok(t) if b else Err(T("err", "get_node"))))
        return res
    for b in c.p.facts["bodies"]:
        if b["kind"] == "fn" and b.get("name") == "get_node" and b.get("in_trait"):
            out[b["path"]] = get_node
    return out


# ------------------------------------------------------------------ descending one nibble
class MSib(M):
    def __init__(self, node, start, width):
        self.node, self.start, self.width = node, start, width

    def m(self, X, st, v):
        if v.op != "sib":
            return False, "is %s, expected the sibling for [%d, %d)" % (short(v, 90), self.start, self.start + self.width)
        node, rd, key, s, w, bm = v.a
        if node is not self.node or rd is not Par("a1") or key is not Par("a2") or \
                s is not Int(self.start) or w is not Int(self.width):
            return False, "sibling is %s, expected the one for [%d, %d)" % (short(v, 90), self.start, self.start + self.width)
        return bm_ok(bm, T("ebits", self.node), T("lbits", self.node), self.start, self.width)


class SeqOf(M):
    """a sequence with exactly these elements, in order"""

    def __init__(self, *ms):
        self.ms = ms

    def m(self, X, st, v):
        p = seq_parts(v)
        if p is None:
            return None, "sequence %s not determined" % short(v, 120)
        if any(x[0] != "one" for x in p):
            return None, "sequence %s not enumerated" % short(v, 120)
        if len(p) != len(self.ms):
            return False, "has %d elements, expected %d" % (len(p), len(self.ms))
        for m, x in zip(self.ms, p):
            r = match(X, st, m, x[1])
            if r[0] is not True:
                return r
        return True, ""


def sib_intr(c):
    b = c.method("InternalNode", "build_sibling")
    return {b["path"]: lambda k: k.ret(T("sib", *[k.e.snap(k.st, k.val(i)) for i in range(6)]))}


def descent_rows(n, i, only, node, key, sibs=True):
    """every way the descent towards nibble i can end"""
    E, L = T("ebits", node), T("lbits", node)
    rows = []
    before = [[]]
    sib = []
    for h in (3, 2, 1, 0):
        w = 1 << h
        cs = i & ~(w - 1)
        m = rangemask(cs, w)
        e, l = And(E, m), And(L, m)
        sib = sib + [MSib(node, cs ^ w, w)]

        def out(k):
            return Tu(k, SeqOf(*sib)) if sibs else k

        def some(j):
            return Con("Some", n.childkey(key, Fld(n.child(node, j), "version"), nibble(j)))
        if only:
            y, no = single(E, L, cs, w, True), single(E, L, cs, w, False)
        else:
            one = Eq(e, Int(1 << i))
            y = [[]] if w == 1 else [[one, Not(Z(l))]]
            no = [] if w == 1 else [[Not(one)], [one, Z(l)]]
        for bi, b in enumerate(before):
            rows.append(Row("level %d: empty" % h, b + [Z(e)], out(Con("None"))))
            for g in y:
                o = OneOf(*[some(j) for j in (idx_alts(E, cs, w) if only else [Int(i)])])
                rows.append(Row("level %d: found" % h, b + [Not(Z(e))] + g, out(o)))
        before = [b + [Not(Z(e))] + g for b in before for g in no]
    return rows


@prop("C09", floor=300)
def descent(c, rep):
    """child and siblings for every nibble and both modes"""
    n = NN(c)
    b = c.method("InternalNode", "get_child_with_siblings_helper")
    _, mi = merkle_intr(c)
    intr = {**mi, **Dom(c).bitmaps(), **Dom(c).path(), **reader_intr(c), **sib_intr(c)}
    node, key = Par("self"), Par("a2")
    for only in (False, True):
        for i in range(16):
            X, rs = c.run(b, args={3: nibble(i), 4: TRUE if only else FALSE}, intr=dict(intr))
            table(rep, X, "%s[%x]" % ("only child" if only else "child", i), where(b), rs,
                  descent_rows(n, i, only, node, key))


@prop("C09", floor=150)
def descent_plain(c, rep):
    n = NN(c)
    b = c.method("InternalNode", "get_only_child_without_siblings")
    node, key = Par("self"), Par("a1")
    for i in range(16):
        X, rs = c.run(b, args={2: nibble(i)}, intr={**Dom(c).bitmaps(), **Dom(c).path()})
        table(rep, X, "only child, no siblings[%x]" % i, where(b), rs, descent_rows(n, i, True, node, key, sibs=False))


@prop("C09", floor=32)
def descent_wrappers(c, rep):
    """the public-to-the-crate entry points select the documented mode"""
    n = NN(c)
    _, mi = merkle_intr(c)
    intr = {**mi, **Dom(c).bitmaps(), **Dom(c).path(), **reader_intr(c), **sib_intr(c)}
    for name, only in (("get_child_with_siblings", False), ("get_only_child_with_siblings", True)):
        b = c.method("InternalNode", name)
        for i in range(16):
            X, rs = c.run(b, args={3: nibble(i)}, intr=dict(intr))
            table(rep, X, "%s[%x]" % (name, i), where(b), rs, descent_rows(n, i, only, Par("self"), Par("a2")))
