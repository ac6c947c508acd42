"""Restoring a tree from chunks: what is checked before anything is written, and what is written."""
from rules import prop
from rules.domain import *
from rules.nodes import NN
from rules.nodes import HashOf, PH
from rules.read import EmptyPath, Reversed, all_facts, guarded
from rules.write import Inner
from rules.cache import Key
from spec import *
from terms import *

OPT = "std::option::Option"
CI = "restore::ChildInfo"


class RS:
    """names of the restoring state's fields"""

    def __init__(self, c):
        names = ("store", "version", "partial_nodes", "frozen_nodes", "previous_leaf", "num_keys_received", "expected_root_hash")
        self.fs = [f["name"] for f in c.adt("JellyfishMerkleRestore")["variants"][0]["fields"]]
        self.s = {n: c.field("JellyfishMerkleRestore", n, i) for i, n in enumerate(names)}
        self.ikey, self.ikids = c.field("InternalInfo", "node_key", 0), c.field("InternalInfo", "children", 1)
        self.chash, self.ccount, self.cleaf = "hash", "leaf_count", "node"
        vs = {v["name"]: [f["name"] for f in v["fields"]] for v in c.adt("ChildInfo")["variants"]}
        if set(vs) != {"Internal", "Leaf"} or vs["Leaf"] != ["node"] or vs["Internal"] != ["hash", "leaf_count"]:
            raise Undet("the kinds of restored children were not recognised")
        self.path = c.adt("JellyfishMerkleRestore")["path"]

    def me(self, **kw):
        """a restoring state with these fields, the others unknown"""
        vals = {self.s[k]: v for k, v in kw.items()}
        return Agg(self.path, "JellyfishMerkleRestore", tuple(self.fs), tuple(vals.get(f, Par(f)) for f in self.fs))

    def info(self, key, kids):
        fs = (self.ikey, self.ikids)
        return Agg("restore::InternalInfo", "InternalInfo", fs, (key, kids))


def leafchild(n):
    return Some(Agg(CI, "Leaf", ("node",), (n,)))


def inner(h, n):
    return Some(Agg(CI, "Internal", ("hash", "leaf_count"), (h, n)))


PENDING = inner(NONE, Int(0))


def kids(d):
    return T("array", tuple(d.get(i, NONE) for i in range(16)))


def restored(c):
    """an internal node made from its restored children, kept abstract (`complete` analyses it)"""
    b = c.method("InternalInfo", "into_internal_node")
    ik, ic = c.field("InternalInfo", "node_key", 0), c.field("InternalInfo", "children", 1)

    def f(k):
        v = k.e.snap(k.st, k.val(0))
        return k.ret(Tup(Fld(v, ik), T("inode", T("kids", Fld(v, ic), k.val(1)))))
    return {b["path"]: f}


def setfield(k, i, name, v):
    root, proj = ref_of(k, i)
    k.e.store(k.st, root, proj + (("f", name),), v)


def freezing(c, r):
    """`freeze` kept abstract (`freeze` analyses it)"""
    b = c.method("JellyfishMerkleRestore", "freeze")

    def f(k):
        me, n = k.e.snap(k.st, k.val(0)), k.val(1)
        P, F, N = (Fld(me, r.s[x]) for x in ("partial_nodes", "frozen_nodes", "num_keys_received"))
        setfield(k, 0, r.s["partial_nodes"], T("kept", P, n))
        setfield(k, 0, r.s["frozen_nodes"], T("froze", F, P, n, N))
        return k.ret(UNIT)
    return {b["path"]: f}


def splitting(c):
    b = c.method("JellyfishMerkleRestore", "insert_at_leaf")

    def f(k):
        v = [k.e.snap(k.st, k.val(i)) for i in range(6)]
        setref(k, 0, T("split", *v))
        return k.ret(UNIT)
    return {b["path"]: f}


def adding(c, r):
    """`add_one` and `verify` kept abstract (`add` and `checked` analyse them)"""
    b = c.method("JellyfishMerkleRestore", "add_one")

    def f(k):
        me, key, vh = k.e.snap(k.st, k.val(0)), k.val(1), k.val(2)
        P, F, N = (Fld(me, r.s[x]) for x in ("partial_nodes", "frozen_nodes", "num_keys_received"))
        setfield(k, 0, r.s["partial_nodes"], T("grown", P, key, vh))
        setfield(k, 0, r.s["frozen_nodes"], Upd(F, nodes, T("grew", Fld(F, nodes), P, key, vh, N)))
        return k.ret(UNIT)
    nodes = c.field("NodeBatch", "nodes", 0)
    v = c.method("JellyfishMerkleRestore", "verify")

    def g(k):
        me = k.e.snap(k.st, k.val(0))
        a = [Fld(me, r.s[x]) for x in ("partial_nodes", "previous_leaf", "expected_root_hash")]
        return [(s, Ok(UNIT) if y else Err(T("err", "verify"))) for s, y in k.e.branch(k.st, T("verified", *a, k.val(1)))]
    return {b["path"]: f, v["path"]: g}


def lefts(c):
    """hash of the sibling on the left, kept abstract (`siblings` analyses it)"""
    b = c.method("JellyfishMerkleRestore", "compute_left_sibling")
    return {b["path"]: lambda k: k.ret(T("leftsib", k.e.snap(k.st, k.val(0)), k.val(1), k.val(2)))}


def proofcheck(c):
    """the proof's own verification, kept abstract (C04 analyses it)"""
    b = c.method("SparseMerkleRangeProof", "verify")

    def f(k):
        a = [k.e.snap(k.st, k.val(i)) for i in range(4)]
        return [(s, Ok(UNIT) if y else Err(T("err", "proof"))) for s, y in k.e.branch(k.st, T("proved", *a))]
    return {b["path"]: f}


# ------------------------------------------------------------------ matchers
PARTS = dict(store="the storage", version="the version", partial_nodes="the unfinished nodes", frozen_nodes="the nodes to be written",
             previous_leaf="the last key received", num_keys_received="the number of keys received", expected_root_hash="the expected root hash")


class State_(M):
    """the restoring state with these parts, the others as they were"""

    def __init__(self, r, me, **ms):
        self.r, self.me, self.ms = r, me, ms

    def m(self, X, st, v):
        und = None
        for n, f in self.r.s.items():
            ok, msg = match(X, st, self.ms.get(n, Fld(self.me, f)), Fld(v, f))
            if ok is False:
                return False, "%s %s" % (PARTS[n], msg)
            if ok is None:
                und = und or (None, "%s %s" % (PARTS[n], msg))
        return und or (True, "")


def entries(t, base):
    """what was put into a map, newest last; None if it was not made from `base`"""
    out = []
    while t.op == "mapset":
        out.append((t.a[1], t.a[2]))
        t = t.a[0]
    return out[::-1] if t is base else None


class Frozen(M):
    """the batch with these nodes put into it, in any order"""

    def __init__(self, c, base, nodes, values=()):
        self.base, self.want = base, {c.field("NodeBatch", "nodes", 0): nodes, c.field("NodeBatch", "values", 1): values}

    def m(self, X, st, v):
        und = None
        for f, want in self.want.items():
            t = Fld(v, f)
            got = entries(t, Fld(self.base, f))
            if got is None:
                return (False if t.op in ("map0", "mapdel") else None), "%s are %s" % (f, short(t))
            for k, x in want:
                at, unsure = [], False
                for g in got:
                    r = match(X, st, k, g[0])
                    unsure |= r[0] is None or alien(X, g[0]) is not None or any(x.op == "lv" for x in subterms(g[0]))
                    if r[0] is True:
                        at.append(g)
                if not at:
                    why = (None if unsure else False), "%s: nothing is put at the key %s" % (f, k if not isinstance(k, Term) else short(k, 80))
                else:
                    why = match(X, st, x, at[-1][1])
                    why = why[0], "%s: %s" % (f, why[1])
                    got = [g for g in got if g not in at]
                if why[0] is not True:
                    und = why if why[0] is False or und is None else und
            if got and und is None:
                und = (None if any(alien(X, x) is not None for g in got for x in g) else False), "%s: also puts %s" % (f, short(Tup(*got[0])))
        return und or (True, "")


class At(Key):
    """the key of a child"""

    def __init__(self, r, version, parent, nib):
        self.r = (version, parent, nib)
        path = Fld(parent, "nibble_path")
        super().__init__(version, PathTo(path.a[0].a[0].a[0] + (nibble(Int(nib)),)) if path.op == "pathof" else T("ppush", path, nibble(nib)))

    def __str__(self):
        return "of child %s of %s" % (self.r[2], short(self.r[1], 60))


def mine(me, m):
    return lambda st, v: st.env.get(("O", me), me)


def pending(i, extra=None):
    return kids({i: PENDING, **(extra or {})})


@prop("C28", floor=200, configs=("all",))
def freezing_nodes(c, rep):
    """a finished node is put into the batch, and its hash into its parent"""
    r, n = RS(c), NN(c)
    b = c.method("JellyfishMerkleRestore", "freeze")
    I = {**Dom(c).path(), **children(c), **restored(c)}
    name, site = "freeze", where(b)
    ver, num, F = Par(r.s["version"]), Par(r.s["num_keys_received"]), Par(r.s["frozen_nodes"])
    P = Par("P")

    def go(what, base, infos, keep, leafat):
        """`infos`: the entries above `base`, each a key and its children; the lowest has a leaf at `leafat`"""
        stack = base
        for k, ch in infos:
            stack = T("pushed", stack, r.info(k, kids(ch)))
        me = r.me(partial_nodes=stack)
        left = Len(base) if base is P else Int(0)
        X, rs = c.run(b, args={0: me, 1: Add(left, Int(keep)) if keep else left}, intr=I, trips=20)
        # the nodes put into the batch, from the lowest up
        nodes, ks = [], [dict(ch) for _, ch in infos]
        for i in range(len(infos) - 1, keep - 1, -1):
            nd = T("inode", T("kids", kids(ks[i]), ver))
            whole = mknode("Internal", nd)
            nodes.append((infos[i][0], whole))
            if i:
                at = max(ks[i - 1])
                ks[i - 1][at] = inner(Some(T("nhash", whole)), Fld(nd, n.count))
        rest = base
        for i in range(keep):
            rest = T("pushed", rest, r.info(infos[i][0], kids(ks[i])))
        low, ch = infos[-1]
        leaf = []
        if leafat is not None:
            leaf = [(At(r, ver, low, leafat), mknode("Leaf", Fld(ch[leafat].a[3][0], "node")))]
        old = mine(me, None)
        rows = [Row(what + ", no key received yet", [Eq(num, Int(0))], State_(r, me, partial_nodes=rest, frozen_nodes=Frozen(c, F, nodes))),
                Row(what, [Not(Eq(num, Int(0)))], State_(r, me, partial_nodes=rest, frozen_nodes=Frozen(c, F, nodes + leaf)))]
        table(rep, X, name, site, rs, rows, value=old)
    key = [Par("k%d" % i) for i in range(4)]
    leaf = leafchild(Par("leaf"))
    for j in range(16):
        more = {i: Par("c%d" % i) for i in range(j)} if j in (7, 15) else {max(j - 3, 0): Par("c")} if j else {}
        more[j] = leaf
        guarded(rep, name, site, lambda: go("leaf at %d" % j, P, [(key[0], more)], 1, j))
        guarded(rep, name, site, lambda: go("parent's child at %d" % j, P, [(key[0], {j: PENDING, **({j - 1: Par("d")} if j else {})}), (key[1], {2: Par("c"), 5: leaf})], 1, 5))
    chain = [(key[0], {1: Par("d1"), 7: PENDING}), (key[1], {0: PENDING}), (key[2], {14: Par("d2"), 15: PENDING}), (key[3], {3: Par("c"), 6: leaf})]
    for depth in range(1, 5):
        for keep in range(0, depth + 1):
            part = chain[4 - depth:]
            base = T("vec0") if keep == 0 else P
            guarded(rep, name, site, lambda: go("%d of %d nodes kept" % (keep, depth), base, part, keep, 6))


class OfKind(M):
    """a child's kind: leaf, or internal with this number of leaves"""

    def __init__(self, count=None):
        self.count = count

    def m(self, X, st, v):
        if v.op != "agg":
            return None, "is %s" % short(v)
        if (v.a[1] == "Leaf") != (self.count is None):
            return False, "is a child of kind %s" % v.a[1]
        return (True, "") if self.count is None else match(X, st, self.count, v.a[3][0])


@prop("C28", floor=40, configs=("all",))
def complete(c, rep):
    """a node made of its restored children"""
    r = RS(c)
    b = c.method("InternalInfo", "into_internal_node")
    I = {**Dom(c).path(), **children(c)}
    name, site = "into_internal_node", where(b)
    ver = Par("ver")
    L = lambda i: ("leaf", i)
    N = lambda i: ("node", i)

    def go(which):
        ch, want = {}, []
        for kind, i in which:
            if kind == "leaf":
                lf = Par("leaf%d" % i)
                ch[i] = leafchild(lf)
                m = Fields(hash=T("nhash", mknode("Leaf", lf)), version=ver, node_type=OfKind())
            else:
                h, n = Par("hash%d" % i), Par("count%d" % i)
                ch[i] = inner(Some(h), n)
                m = Fields(hash=h, version=ver, node_type=OfKind(n))
            want.append((nibble(Int(i)), m))
        X, rs = c.run(b, args={0: r.info(Par("key"), kids(ch)), 1: ver}, intr=I, trips=17)
        table(rep, X, name, site, rs, [Row("children at %s" % ", ".join("%d (%s)" % (i, k) for k, i in which), [], Tu(Par("key"), Inner(T("nochild"), want)))])
    shapes = [[f(i)] for i in range(16) for f in (L, N)]
    shapes += [[L(0), L(15)], [N(0), L(1)], [L(7), N(8)], [N(3), N(12)], [L(i) if i % 3 else N(i) for i in range(16)], [N(i) if i % 2 else L(i) for i in range(0, 16)]]
    for w in shapes:
        guarded(rep, name, site, lambda: go(w))


# ------------------------------------------------------------------ keys of which some nibbles are known
def knownkeys(c, keys):
    """nibbles of these keys (bytes: list of 64 nibbles); C11 analyses the functions replaced here"""
    out = {}
    snap = lambda k, i: k.e.snap(k.st, k.val(i))

    def put(n, f, ty=None):
        for b in c.p.facts["bodies"]:
            own = strip(b.get("impl_self") or "")
            if b["kind"] == "fn" and b.get("name") == n and (own.endswith(ty) if ty else "Bytes32Ext" in str(b.get("impl_trait")) + str(b.get("in_trait"))):
                out[b["path"]] = f
        if not ty:
            out["bytes32ext::Bytes32Ext::" + n] = f

    def nibbles(k):
        p = snap(k, 0)
        arr = keys.get(Fld(p, "bytes"))
        if arr is None or Fld(p, "num_nibbles") is not Int(64):
            raise Undet("the nibbles of %s are not known" % short(p))
        return k.ret(T("iter", T("array", tuple(arr))))

    def get(k):
        arr, i = keys.get(snap(k, 0)), k.val(1)
        if arr is None or i.op != "int" or not 0 <= i.a[0] < 64:
            raise Undet("the nibble %s of %s is not known" % (short(i), short(snap(k, 0))))
        return k.ret(arr[i.a[0]])

    def common(bits):
        def f(k):
            x, y = keys.get(snap(k, 0)), keys.get(snap(k, 1))
            if x is None or y is None:
                raise Undet("the common prefix of %s and %s is not known" % (short(snap(k, 0)), short(snap(k, 1))))
            for i, (a, b) in enumerate(zip(x, y)):
                if a is not b:
                    a, b = Fld(a, "0"), Fld(b, "0")
                    if a.op != "int" or b.op != "int":
                        raise Undet("the common prefix is not known")
                    return k.ret(Int(i) if not bits else Int(4 * i + 4 - (a.a[0] ^ b.a[0]).bit_length()))
            raise Undet("the keys are not known to differ")
        return f

    def part(before):
        def f(k):
            v, at = snap(k, 0), 0
            while v.op in ("adv", "itpos"):
                if v.op == "itpos":
                    raise Undet("the position in the key is not known")
                at, v = at + v.a[0], v.a[1]
            if v.op != "iter" or v.a[0].op != "array":
                raise Undet("the position in the key is not known")
            arr = v.a[0].a[0]
            return k.ret(T("iter", T("array", arr[:at] if before else arr[at:])))
        return f
    put("nibbles", nibbles, "NibblePath")
    put("get_nibble", get)
    put("common_prefix_bits_len", common(True))
    put("common_prefix_nibbles_len", common(False))
    put("visited_nibbles", part(True), "NibbleIterator")
    put("remaining_nibbles", part(False), "NibbleIterator")
    for b in c.p.facts["bodies"]:
        if b["kind"] == "fn" and b.get("name") == "from_iter" and strip(b.get("impl_self") or "").endswith("NibblePath"):
            out[b["path"]] = lambda k: k.ret(T("pathof", k.e.snap(k.st, k.val(0))))
    return out


def pathto(nibs):
    return T("pathof", T("iter", T("array", tuple(nibs))))


class PathTo(M):
    """the path of these nibbles"""

    def __init__(self, nibs):
        self.nibs = tuple(nibs)

    def m(self, X, st, v):
        if not self.nibs and EmptyPath().m(X, st, v)[0] is True:
            return True, ""
        tail = ()
        while v.op == "ppush":
            tail, v = (v.a[1],) + tail, v.a[0]
        if v.op == "agg" and EmptyPath().m(X, st, v)[0] is True:
            v = pathto(())
        it = v.a[0] if v.op == "pathof" else v.a[1] if v.op == "collected" and strip(v.a[0]).endswith("NibblePath") else v
        if it.op != "iter" or it.a[0].op != "array":
            return None, "is %s" % short(v)
        got = it.a[0].a[0] + tail
        return got == self.nibs, "is the path %s, expected %s" % (" ".join(short(Fld(x, "0"), 9) for x in got), " ".join(short(Fld(x, "0"), 9) for x in self.nibs))


def children_are(want):
    """children of an unfinished node: a term where it was not touched, else a matcher of each present child"""
    return want if isinstance(want, Term) else Kids(want)


class Kids(M):
    def __init__(self, want):
        self.want = want

    def m(self, X, st, v):
        for i in range(16):
            x, w = Idx(v, Int(i)), self.want.get(i, NONE)
            if isinstance(w, Term) and w is x:
                continue
            if isinstance(w, Term):
                r = match(X, st, w, x)
            else:
                r = match(X, st, w, x)
            if r[0] is not True:
                return r[0], "child %d %s" % (i, r[1])
        return True, ""


class Unfinished(M):
    """the stack of unfinished nodes: the entries below are those of `base`"""

    def __init__(self, r, base, infos):
        self.r, self.base, self.infos = r, base, infos

    def m(self, X, st, v):
        got = []
        while v.op == "pushed" and len(got) <= len(self.infos):
            got.append(v.a[1])
            v = v.a[0]
        if v is not self.base or len(got) != len(self.infos):
            ok = v.op in ("pushed", "vec0", "popped") or v is self.base
            return (False if ok else None), "holds %d nodes over %s, expected %d" % (len(got), short(v, 60), len(self.infos))
        for n, (x, (k, ch)) in enumerate(zip(reversed(got), self.infos)):
            for f, w in ((self.r.ikey, k), (self.r.ikids, Kids(ch))):
                r = match(X, st, w, Fld(x, f))
                if r[0] is not True:
                    return r[0], "node %d: %s %s" % (n, f, r[1])
        return True, ""


def LeafOf(nn, k, h):
    return Con("Some", Fields(node=Fields(**{nn.lk: k, nn.lv: h})))


@prop("C28", floor=60, configs=("all",))
def adding_one(c, rep):
    """a key is put below the unfinished nodes on its path; what it passes is finished"""
    r, nn = RS(c), NN(c)
    b = c.method("JellyfishMerkleRestore", "add_one")
    name, site = "add_one", where(b)
    ver, num, F, vh = Par(r.s["version"]), Par(r.s["num_keys_received"]), Par(r.s["frozen_nodes"]), Par("valuehash")
    new, old = Par("newkey"), Par("leaf")
    oldkey = Fld(old, nn.lk)

    def go(nibs, depth, at, share=None, sub=()):
        """a stack of `depth` unfinished nodes on the key's path; the key leaves it at `at`, where there is either no child
        (share is None) or the old leaf, whose key shares `share` nibbles with the new one.  `sub`: further nodes below"""
        K = [nibble(Int(i)) for i in nibs] + [nibble(Par("n%d" % i)) for i in range(len(nibs), 64)]
        infos = []
        for i in range(depth):
            ch = {K[i].a[3][0].a[0]: PENDING} if i < at else {}
            if K[i].a[3][0].a[0]:
                ch[0] = Par("d%d" % i)
            infos.append((Agg("node_type::NodeKey", "NodeKey", (nn.kver, nn.kpath), (ver, pathto(K[:i]))), ch))
        n = K[at].a[3][0].a[0]
        what = "child %d of node %d of %d" % (n, at, depth)
        ok = keyed(K)
        if share is not None:
            what += ", where a leaf shares %d nibbles" % share
            infos[at][1][n] = leafchild(old)
            m = nibs[share] - 1
            O = K[:share] + [nibble(Int(m))] + [nibble(Par("o%d" % i)) for i in range(share + 1, 64)]
            ok = {**ok, Fld(oldkey, "0"): O}
        elif sub:
            # the previous key's path leaves this one further left
            infos[at][1][sub[0]] = PENDING
            for j, x in enumerate(sub):
                last = j + 1 == len(sub)
                infos.append((Agg("node_type::NodeKey", "NodeKey", (nn.kver, nn.kpath), (ver, pathto(K[:at] + [nibble(Int(y)) for y in sub[:j + 1]]))),
                              {9: leafchild(old)} if last else {sub[j + 1]: PENDING}))
        else:
            infos[at][1].clear()
            infos[at][1].update({0: Par("d%d" % at)} if n > 1 else {})
            infos[at][1][n - 1] = leafchild(old)
        stack = T("vec0")
        for k, ch in infos:
            stack = T("pushed", stack, r.info(k, kids(ch)))
        me = r.me(partial_nodes=stack)
        I = {**Dom(c).path(), **children(c), **restored(c), **knownkeys(c, ok)}
        X, rs = c.run(b, args={0: me, 1: new, 2: vh}, intr=I, trips=70)
        # expected
        nodes, want = [], [(k, dict(ch)) for k, ch in infos]
        keep = at + 1
        low = infos[-1]
        leafat = max(i for i, x in low[1].items() if x.op == "agg" and x.a[3][0].op == "agg" and x.a[3][0].a[1] == "Leaf")
        lk = At(r, ver, low[0], leafat)
        if share is not None:
            want[at][1][n] = PENDING
            for j in range(at + 1, share + 1):
                kk = Key(ver, PathTo(K[:j]))
                if j < share:
                    want.append((kk, {nibs[j]: PENDING}))
                else:
                    want.append((kk, {m: leafchild(old), nibs[j]: LeafOf(nn, new, vh)}))
            lk = Key(ver, PathTo(K[:share] + [nibble(Int(m))]))
        else:
            for i in range(len(infos) - 1, keep - 1, -1):
                nd = T("inode", T("kids", kids(want[i][1]), ver))
                whole = mknode("Internal", nd)
                nodes.append((want[i][0], whole))
                want[i - 1][1][max(want[i - 1][1])] = inner(Some(T("nhash", whole)), Fld(nd, nn.count))
            want = want[:keep]
            want[at][1][n] = LeafOf(nn, new, vh)
        leaf = [(lk, mknode("Leaf", old))]
        st = Unfinished(r, T("vec0"), want)
        rows = [Row(what + ", nothing received yet", [Eq(num, Int(0))], State_(r, me, partial_nodes=st, frozen_nodes=Frozen(c, F, nodes))),
                Row(what, [Not(Eq(num, Int(0)))], State_(r, me, partial_nodes=st, frozen_nodes=Frozen(c, F, nodes + leaf)))]
        table(rep, X, name, site, rs, rows, value=mine(me, None))

    def keyed(K):
        return {Fld(new, "0"): K}
    path = [3, 7, 1, 15, 2, 9, 4, 8, 12, 6, 5, 11, 10, 13, 14, 1] * 4
    for n in range(1, 16):
        guarded(rep, name, site, lambda: go([n], 1, 0))
        guarded(rep, name, site, lambda: go([5, 6, n], 2, 1, 2))
    for d in range(1, 6):
        guarded(rep, name, site, lambda: go(path[:d], d, d - 1))
        for s in range(d, 7):
            guarded(rep, name, site, lambda: go(path[:s + 1], d, d - 1, s))
    for at in range(0, 3):
        for k in range(1, 4):
            guarded(rep, name, site, lambda: go(path[:at] + [6], at + 1, at, None, [2, 11, 4][:k]))
    guarded(rep, name, site, lambda: go(path, 64, 63))
    guarded(rep, name, site, lambda: go(path, 2, 1, 63))
    guarded(rep, name, site, lambda: go(path[:41], 20, 19, 40))


class Writes(M):
    """this batch is written, once, and the storage's answer passed on"""

    def __init__(self, r, me, batch):
        self.store, self.batch = Fld(me, r.s["store"]), batch

    def m(self, X, st, v):
        ws = writes(st)
        if len(ws) != 1:
            return False, "writes %d batches and returns %s, expected one" % (len(ws), short(v, 60))
        w = ws[0]
        if w.a[1][0] is not self.store:
            return (None if alien(X, w.a[1][0]) else False), "writes to %s" % short(w.a[1][0])
        r = match(X, st, self.batch, w.a[1][1])
        if r[0] is not True:
            return r
        if v is w:
            return True, ""
        for k in ("Ok", "Err"):
            if implied(st.facts, Is(w, k)) is True:
                return (v.op == "agg" and v.a[1] == k) or None if v.op != "agg" else v.a[1] == k, "returns %s where writing gave %s" % (short(v, 60), k)
        return False, "returns %s whatever the storage answers" % short(v, 60)


def writes(st):
    return [d for d in st.did if d.op == "call" and d.a[0].endswith("write_node_batch")]


class Refused(M):
    """an error, and nothing is written"""

    def m(self, X, st, v):
        ws = writes(st)
        if ws:
            return False, "writes %s" % short(ws[0], 90)
        return IsErr().m(X, st, v)


@prop("C28", floor=100, configs=("all",))
def finishing(c, rep):
    """the rest of the tree is written if it has the expected root hash"""
    r, nn = RS(c), NN(c)
    b = c.method("JellyfishMerkleRestore", "finish_impl")
    whole = [(b, b["name"])]
    for n in ("finish", "finish_box"):
        d = c.method("JellyfishMerkleRestore", n, "StateSnapshotReceiver", opt=True)
        if d is not None:
            whole.append((d, n))
    ver, num, F = Par(r.s["version"]), Par(r.s["num_keys_received"]), Par(r.s["frozen_nodes"])
    root = Fld(Par(r.s["expected_root_hash"]), "0")
    I = {**Dom(c).path(), **children(c), **restored(c)}
    lk = lambda i: Par("leaf%d" % i)
    L, N = (lambda i: leafchild(lk(i))), (lambda i: inner(Some(Par("hash%d" % i)), Par("count%d" % i)))
    empty = [Eq(Len(Fld(F, c.field("NodeBatch", f, i))), Int(0)) for i, f in enumerate(("nodes", "values"))]
    fresh = Eq(num, Int(0))

    def go(what, infos, b, name):
        site = where(b)
        keys = [Agg("node_type::NodeKey", "NodeKey", (nn.kver, nn.kpath), (ver, pathto([nibble(Int(3))] * i))) for i in range(len(infos))]
        stack = T("vec0")
        for k, ch in zip(keys, infos):
            stack = T("pushed", stack, r.info(k, kids(ch)))
        me = r.me(partial_nodes=stack)
        X, rs = c.run(b, args={0: me}, intr=I, trips=70)
        top = infos[0]
        isleaf = lambda x: x.a[3][0].a[1] == "Leaf"
        rk = lambda i: Key(ver, PathTo([nibble(Int(3))] * i))
        rows = []
        if not top:
            cases = [([], [(rk(0), mknode0())], T("nhash", mknode0()))]
        elif len(infos) == 1 and len(top) == 1 and isleaf(next(iter(top.values()))):
            nd = mknode("Leaf", lk(next(iter(top))))
            cases = [(empty, [(rk(0), nd)], T("nhash", nd))]
        else:
            nodes, ks = [], [dict(x) for x in infos]
            for i in range(len(infos) - 1, -1, -1):
                nd = T("inode", T("kids", kids(ks[i]), ver))
                nodes.append((rk(i), mknode("Internal", nd)))
                if i:
                    ks[i - 1][max(ks[i - 1])] = inner(Some(T("nhash", mknode("Internal", nd))), Fld(nd, nn.count))
            h = T("nhash", mknode("Internal", nd))
            low = infos[-1]
            at = max(low)
            cases = [([fresh], nodes, h)]
            if isleaf(low[at]):
                cases.append(([Not(fresh)], nodes + [(At(r, ver, keys[-1], at), mknode("Leaf", lk(at)))], h))
        for pre, nodes, h in cases:
            w = what + (", nothing received" if pre == [fresh] else "")
            rows += [Row(w + ": expected root", pre + [Eq(h, root)], Writes(r, me, Frozen(c, F, nodes))),
                     Row(w + ": other root", pre + [Not(Eq(h, root))], Refused())]
        table(rep, X, name, site, rs, rows)
    for b, name in whole:
        full, site = b is whole[0][0], where(b)
        all_ = [{}, {0: L(0)}, {15: L(15)}, {9: N(9)}, {2: N(2), 3: L(3)}]
        if full:
            all_ += [{i: L(i)} for i in range(1, 15)] + [{i: N(i)} for i in range(16) if i != 9]
            all_ += [{0: L(0), 15: L(15)}, {7: L(7), 8: N(8)}, {4: N(4), 5: N(5)}, {i: L(i) if i % 2 else N(i) for i in range(16)}]
        for ch in all_:
            guarded(rep, name, site, lambda: go("children at %s" % " ".join("%d%s" % (i, "l" if x.a[3][0].a[1] == "Leaf" else "n") for i, x in ch.items()) if ch else "no key", [ch], b, name))
        for depth in range(1, 5) if full else (2,):
            for top in ({3: PENDING}, {0: L(0), 3: PENDING}, {1: N(1), 3: PENDING}):
                for low in ({2: L(2), 9: L(9)}, {0: N(0), 1: L(1)}, {15: L(15)}, {14: L(14), 15: N(15)}):
                    infos = [top] + [{3: PENDING}] * (depth - 1) + [low]
                    guarded(rep, name, site, lambda: go("%d nodes over one with children %s below %s" % (depth, sorted(low), sorted(top)), infos, b, name))


def mknode0():
    return Agg("node_type::Node", "Null", (), ())


@prop("C27", floor=50, configs=("all",))
def left_sibling(c, rep):
    """the hash of what was restored left of a key"""
    r = RS(c)
    rec = c.method("JellyfishMerkleRestore", "compute_left_sibling_impl")
    b = c.method("JellyfishMerkleRestore", "compute_left_sibling")
    arr = lambda xs: T("array", tuple(xs))
    half = lambda xs, f="0": Fld(T("half", arr(xs)), f)
    I = {**Dom(c).path(), **children(c), rec["path"]: lambda k: k.ret(T("half", k.e.snap(k.st, k.val(0))))}
    ch = [Par("c%d" % i) for i in range(16)]

    def at(n, h):
        X, rs = c.run(b, args={0: r.info(Par("key"), arr(ch)), 1: nibble(Int(n)), 2: Int(h)}, intr=I)
        lo = (n >> (h + 1) << (h + 1)) + (0 if n >> h & 1 else 1 << h)
        table(rep, X, "compute_left_sibling", where(b), rs, [Row("nibble %d, height %d" % (n, h), [], half(ch[lo:lo + (1 << h)]))])
    for n in range(16):
        for h in range(4):
            if n >> h & 1:
                guarded(rep, "compute_left_sibling", where(b), lambda: at(n, h))
    name, site = "compute_left_sibling_impl", where(rec)
    ph = PH

    def one(what, x, out):
        X, rs = c.run(rec, args={0: arr([x])}, intr=I)
        table(rep, X, name, site, rs, [Row(what, [], out)])
    guarded(rep, name, site, lambda: one("no child", NONE, Tu(ph, TRUE)))
    guarded(rep, name, site, lambda: one("a leaf", leafchild(Par("leaf")), Tu(T("nhash", mknode("Leaf", Par("leaf"))), TRUE)))
    guarded(rep, name, site, lambda: one("a node", inner(Some(Par("h")), Par("n")), Tu(Par("h"), FALSE)))

    def halves(w):
        X, rs = c.run(rec, args={0: arr(ch[:w])}, intr=I)
        l, m = ch[:w // 2], ch[w // 2:w]
        lh, lone, rh, rone = half(l), half(l, "1"), half(m), half(m, "1")
        e = Eq(lh, ph), Eq(rh, ph)
        both = HashOf("H", lh, rh)
        rows = [Row("only the right half", [e[0], rone], Tu(rh, TRUE)),
                Row("only the left half", [Not(e[0]), e[1], lone], Tu(lh, TRUE)),
                Row("left half empty, nodes on the right", [e[0], Not(rone), Not(e[1])], Tu(both, FALSE)),
                Row("nodes on the left, right half empty", [Not(e[0]), e[1], Not(lone)], Tu(both, FALSE)),
                Row("both halves", [Not(e[0]), Not(e[1])], Tu(both, FALSE)),
                Row("impossible", [e[0], e[1], Not(rone)], Any(), optional=True)]
        table(rep, X, name + " over %d" % w, site, rs, rows)
    for w in (2, 4, 8):
        guarded(rep, name, site, lambda: halves(w))


class Verdict(M):
    """the answer of the range proof"""

    def __init__(self, proof, root, leaf, lefts):
        self.ms = (proof, root, leaf, lefts)

    def m(self, X, st, v):
        asked = [(t, y) for t, y in st.facts.items() if isinstance(t, Term) and t.op == "proved"]
        if not asked:
            return False, "returns %s without checking the proof" % short(v)
        if len(asked) > 1:
            return None, "asks twice"
        t, y = asked[0]
        for what, m, x in zip(("proof", "root", "leaf", "left siblings"), self.ms, t.a):
            ok = match(X, st, m, x)
            if ok[0] is not True:
                return ok[0], "%s %s" % (what, ok[1])
        ok = is_ok(v) if y else is_err(v)
        return ok, "returns %s where the proof %s" % (short(v), "holds" if y else "fails")


@prop("C27", floor=12, configs=("all",))
def checked(c, rep):
    """what was added is checked against the root with the siblings left of the last key"""
    r = RS(c)
    b = c.method("JellyfishMerkleRestore", "verify")
    name, site = "verify", where(b)
    I = {**Dom(c).path(), **children(c), **lefts(c), **proofcheck(c), **ranges(c)}
    X, rs = c.run(b, intr=I)
    nn = NN(c)
    me, pf = Par("self"), Par("a1")
    own = {k: Fld(me, f) for k, f in r.s.items()}
    P, prev = own["partial_nodes"], own["previous_leaf"]
    R = Len(Fld(pf, c.field("SparseMerkleRangeProof", "right_siblings", 0)))
    leaf = Fld(As(prev, "Some"), "0")
    K = Fld(Fld(leaf, nn.lk), "0")
    ph = PH

    def go():
        ls = sorted(X.loops.values(), key=lambda L: L.uid)
        one = [L for L in ls if any(d["init"].op == "vec0" for d in L.vars.values())]
        if len(one) != 1:
            raise Undet("the loop over the key's bits was not recognised")
        one = one[0]
        S, C = (vars_from(one, z) for z in (lambda x: x.op == "vec0", lambda x: x is Int(0)))
        two = [L for L in ls if any(d["init"] is S for d in L.vars.values())]
        if len(two) != 1:
            raise Undet("the loop removing siblings was not recognised")
        two = two[0]
        S2, C2 = vars_from(two, lambda x: x is S), vars_from(two, lambda x: x is C)
        bits = T("iter", T("bits", K))
        fs = [f for f, _ in one.vars[S]["next"]]
        has = the_term(fs, lambda t: t.op == "hasnext" and t.a[2] == one.uid)
        bit = the_term(fs, lambda t: t.op == "elem" and bits in subterms(t) and not any(x.op == "rev" for x in subterms(t)))
        pos = the_term(fs, lambda t: t.op == "ipos" and t.a[0] is bits, deep=True)
        if bit.a[0] is not bits:
            raise Undet("the bits are read as %s" % short(bit))
        level = [g for g in (Lt(pos, Mul(Len(P), Int(4))), Lt(Bin("Div", pos, Int(4)), Len(P)))
                 if all(decides(f, g) for f in fs if f.get(bit) is True)]
        if not level:
            raise Undet("the depth of the unfinished nodes is not compared with the level")
        level = level[0]
        at = Bin("Div", pos, Int(4))
        sib = T("leftsib", Idx(P, at), T("nibbleof", K, at), Sub(Int(3), Bin("Rem", pos, Int(4))))
        rounds(rep, X, name + "/siblings", site, one, [
            ("below the unfinished nodes", [bit, Not(level)], {S: T("pushed", S, ph), C: C}),
            ("right child", [bit, level], {S: T("pushed", S, sib), C: C}),
            ("left child", [Not(bit)], {S: S, C: Add(C, Int(1))})])
        fs2 = [f for f, _ in two.vars[S2]["next"]] + [st.facts for st, _ in rs]
        rbits = T("rev", bits)
        bit2 = the_term(fs2, lambda t: t.op == "elem" and t.a[0] is rbits)
        last = [x for x in (T("lastof", S2), T("idx", S2, T("lastidx", S2))) if any(x in subterms(t) for f in fs2 for t in f if isinstance(t, Term))]
        if len(last) != 1:
            raise Undet("the last sibling was not recognised")
        blank, more, some = Eq(last[0], ph), Lt(R, C2), Not(Eq(Len(S2), Int(0)))
        has2 = T("hasnext", rbits, 0, two.uid)
        rounds(rep, X, name + "/placeholders", site, two, [
            ("a placeholder on the left", [bit2, some, blank], {S2: T("popped", S2), C2: C2}),
            ("a sibling on the left", [bit2, some, Not(blank)], {S2: Never(), C2: Never()}),
            ("no sibling on the right", [Not(bit2), more], {S2: S2, C2: Sub(C2, Int(1))}),
            ("a sibling on the right", [Not(bit2), Not(more)], {S2: Never(), C2: Never()})])
        pln = Fields(key_hash=Fld(leaf, nn.lk), value_hash=Fld(leaf, nn.lv))
        verdict = Verdict(pf, own["expected_root_hash"], pln, Reversed(S2))
        pre = [Is(prev, "Some"), Not(has)]
        many = Lt(C, R)
        rows = [Row("nothing was added", [Not(Is(prev, "Some"))], Any(), optional=True),
                Row("siblings on the right that the key does not have", pre + [many], IsErr()),
                Row("every sibling removed", pre + [Not(many), Not(has2)], verdict),
                Row("a sibling on the left", pre + [Not(many), has2, bit2, some, Not(blank)], verdict),
                Row("a sibling on the right", pre + [Not(many), has2, Not(bit2), Not(more)], verdict),
                Row("placeholder left over", pre + [Not(many), has2, bit2, some, blank], Never(), optional=True),
                Row("bit without a sibling", pre + [Not(many), has2, Not(bit2), more], Never(), optional=True),
                Row("no sibling left", pre + [Not(many), has2, bit2, Not(some)], Any(), optional=True)]
        table(rep, X, name, site, rs, rows)
    guarded(rep, name, site, go)


class Seq(M):
    """exactly these elements"""

    def __init__(self, xs):
        self.xs = xs

    def m(self, X, st, v):
        try:
            got = flat(v)
        except Undet as u:
            return None, str(u)
        if len(got) != len(self.xs):
            return (None if any(alien(X, x) for x in got) else False), "has %d elements, expected %d" % (len(got), len(self.xs))
        for i, (x, w) in enumerate(zip(got, self.xs)):
            ok = match(X, st, w, x)
            if ok[0] is not True:
                return ok[0], "element %d %s" % (i, ok[1])
        return True, ""


@prop("C27", floor=60, configs=("all",))
def checked_depths(c, rep):
    """which siblings a proof is checked with, for unfinished nodes down to a known depth"""
    r, nn = RS(c), NN(c)
    b = c.method("JellyfishMerkleRestore", "verify")
    name, site = "verify", where(b)
    me, leaf = Par("self"), Par("leaf")
    K = Fld(Fld(leaf, nn.lk), "0")
    rs_ = c.field("SparseMerkleRangeProof", "right_siblings", 0)
    ad = c.adt("SparseMerkleRangeProof")
    fs = tuple(f["name"] for f in ad["variants"][0]["fields"])

    def go(what, nibs, d, R):
        N = [nibble(Int(i)) for i in nibs]
        bits = [n >> (3 - j) & 1 for n in nibs for j in range(4)]
        known = T("iter", T("array", tuple(TRUE if x else FALSE for x in bits)))

        def allbits(k):
            if k.e.snap(k.st, k.val(0)) is not K:
                raise Undet("reads the bits of %s" % short(k.val(0)))
            return k.ret(known)
        I = {**Dom(c).path(), **children(c), **knownkeys(c, {K: N}), **lefts(c), **proofcheck(c), "bytes32ext::Bytes32Ext::iter_bits": allbits}
        infos = [Par("info%d" % i) for i in range(d)]
        right = T("array", tuple(Par("right%d" % i) for i in range(R)))
        pf = Agg(ad["path"], "SparseMerkleRangeProof", fs, tuple(right if f == rs_ else Par(f) for f in fs))
        root = Par(r.s["expected_root_hash"])
        X, rs = c.run(b, args={0: r.me(partial_nodes=T("array", tuple(infos)), previous_leaf=Some(leaf)), 1: pf}, intr=I, trips=260)
        sib = {i: T("leftsib", infos[i // 4], N[i // 4], Int(3 - i % 4)) if i < 4 * d else PH for i in range(256) if bits[i]}
        zeros = 256 - len(sib)
        if R > zeros:
            return table(rep, X, name, site, rs, [Row(what + ", %d siblings on the right" % R, [], IsErr())])
        pre, kept, rows = [], sorted(sib), []

        def verdict():
            return Verdict(pf, root, Fields(key_hash=Fld(leaf, nn.lk), value_hash=Fld(leaf, nn.lv)), Seq([sib[i] for i in reversed(kept)]))
        i = 255
        while i >= 0:
            if bits[i]:
                if sib[i] is not PH:
                    rows.append(Row("%s, %d siblings on the right, down to bit %d" % (what, R, i), pre + [Not(Eq(sib[i], PH))], verdict()))
                    pre = pre + [Eq(sib[i], PH)]
                kept.pop()
            elif zeros > R:
                zeros -= 1
            else:
                break
            i -= 1
        rows.append(Row("%s, %d siblings on the right%s" % (what, R, ", down to bit %d" % i if i >= 0 else ""), pre, verdict()))
        table(rep, X, name, site, rs, rows)
    keys = {"0x1…": [1] + [0] * 63, "0xf…": [15] * 64, "0x0…": [0] * 64, "mixed key": [3, 13, 7, 1, 8, 2, 15, 0] * 8, "late bits": [0] * 60 + [0, 10, 0, 1]}
    for k, n in keys.items():
        zeros = sum(4 - bin(x).count("1") for x in n)
        for d in (1, 2, 3, 7, 64):
            for R in {0, 1, 2, 5, zeros - 1, zeros, zeros + 1}:
                # with few siblings on the right, enough levels are left to tell them apart
                if R >= 0 and (d < 64 or R in (1, 5) and k[0] in "0l" and k != "0xf…") and (d != 7 or R != 2):
                    guarded(rep, name, site, lambda: go("%s, %d unfinished nodes" % (k, d), n, d, R))


def decides(f, g):
    return implied(f, g) is not None or g in f or (g.op == "not" and g.a[0] in f)


def vars_from(L, p):
    ks = [k for k, d in L.vars.items() if k.op == "loopvar" and p(d["init"])]
    if len(ks) != 1:
        raise Undet("a variable of the loop was not recognised")
    return ks[0]


def the_term(fs, p, deep=False):
    out = []
    for f in fs:
        for t in f:
            if isinstance(t, Term):
                for s in (subterms(t) if deep else [t.a[0] if t.op == "not" else t]):
                    if p(s) and s not in out:
                        out.append(s)
    if len(out) != 1:
        raise Undet("what the loop runs over was not recognised (%d candidates)" % len(out))
    return out[0]


def rounds(rep, X, name, site, L, rows):
    """every round of a loop against every row it can coincide with: (name, guards, {variable: matcher})"""
    seen = set()
    for var in rows[0][2]:
        for f0, nx in L.vars[var]["next"]:
            for f in worlds(f0):
                for what, guards, want in rows:
                    g = consistent(f, guards)
                    if g is None:
                        continue
                    seen.add(what)
                    ok, msg = match(X, State({}, g), want[var], nx)
                    if ok is False and alien_path(X, State({}, f)) is not None:
                        ok = None
                    rep.put(ok, "%s/%s" % (name, what), site, "%s; in a round where %s" % (msg, describe(f)))
    for what, guards, want in rows:
        if what not in seen and not all(isinstance(m, Never) for m in want.values()):
            rep.bad("%s/%s" % (name, what), site, "no round of the loop handles this case")


@prop("C27", floor=20, configs=("all",))
def chunk(c, rep):
    """a chunk is checked as a whole before any of it is written"""
    r, nn = RS(c), NN(c)
    whole = [c.method("JellyfishMerkleRestore", "add_chunk_impl"), c.method("JellyfishMerkleRestore", "add_chunk", "StateSnapshotReceiver", opt=True)]
    I = {**Dom(c).path(), **children(c), **adding(c, r)}
    me = Par("self")
    own = {k: Fld(me, f) for k, f in r.s.items()}
    nodes, values = c.field("NodeBatch", "nodes", 0), c.field("NodeBatch", "values", 1)
    prev = own["previous_leaf"]
    pf = Par("a2")

    class Batch(M):
        def __init__(self, nodes_, vals):
            self.nodes, self.vals = nodes_, vals

        def m(self, X, st, v):
            ok = match(X, st, self.nodes, Fld(v, nodes))
            if ok[0] is not True:
                return ok
            got = entries(Fld(v, values), Fld(own["frozen_nodes"], values))
            if got is None:
                return None, "values are %s" % short(Fld(v, values))
            if dict(got) != self.vals:
                return (None if any(alien(X, x) for g in got for x in g) else False), "records the values %s" % ", ".join(short(Tup(*g), 60) for g in got)
            return True, ""

    class Cleared(M):
        def m(self, X, st, v):
            for f in (nodes, values):
                if Fld(v, f).op != "map0":
                    return (False if Fld(v, f).op in ("fld", "grew", "mapset", "par") else None), "%s are %s after they were written" % (f, short(Fld(v, f), 60))
            return True, ""

    def go(n, b):
        name, site = b["name"], where(b)
        keys = [Agg("KeyHash", "KeyHash", ("0",), (Par("k%d" % i),)) for i in range(n)]
        vals = [Par("v%d" % i) for i in range(n)]
        X, rs = c.run(b, args={1: T("array", tuple(Tup(*p) for p in zip(keys, vals)))}, intr=I, trips=8)
        P, Fn, lf = own["partial_nodes"], Fld(own["frozen_nodes"], nodes), prev
        for i in range(n):
            vh = Agg(c.adt("ValueHash")["path"], "ValueHash", ("0",), (T("hash", "H", (vals[i],)),))
            Fn = T("grew", Fn, P, keys[i], vh, Add(own["num_keys_received"], Int(i)) if i else own["num_keys_received"])
            P = T("grown", P, keys[i], vh)
            lf = Con("Some", Fields(**{nn.lk: keys[i], nn.lv: vh}))
        if not n:
            return table(rep, X, name, site, rs, [Row("no key", [], Refused())])
        pk = Fld(Fld(Fld(As(prev, "Some"), "0"), nn.lk), "0")
        up = [Lt(Par("k%d" % i), Par("k%d" % (i + 1))) for i in range(n - 1)]
        rows = []
        for start in ("first chunk", "later chunk"):
            first = start == "first chunk"
            lt = ([] if first else [Lt(pk, Par("k0"))]) + up
            pre = [Is(prev, "None" if first else "Some")]
            for i, g in enumerate(lt):
                rows.append(Row("%s, %d keys, key %d not above the one before" % (start, n, i + (1 if first else 0)), pre + lt[:i] + [Not(g)], Refused()))
            asked = [t for f in all_facts(X, rs) for t in f if isinstance(t, Term) and t.op == "verified"]
            V = [t for t in asked if t.a[0] is P and t.a[2] is own["expected_root_hash"] and t.a[3] is pf
                 and match(X, State({}, {}), lf, t.a[1])[0] is True]
            if not V:
                if any(alien(X, t) is not None for t in asked):
                    raise Undet("what is verified was not recognised")
                rep.put(False, "%s/%s, %d keys" % (name, start, n), site, "the state after the chunk is never verified")
                continue
            V = V[0]
            st = State_(r, me, partial_nodes=P, frozen_nodes=Cleared(), previous_leaf=lf, num_keys_received=Add(own["num_keys_received"], Int(n)))
            wr = Writes(r, me, Batch(Fn, {Tup(own["version"], k): Some(v) for k, v in zip(keys, vals)}))
            rows += [Row("%s, %d keys, not verified" % (start, n), pre + lt + [Not(V)], Refused()),
                     Row("%s, %d keys, verified" % (start, n), pre + lt + [V], Both_(wr, st, me))]
        table(rep, X, name, site, rs, rows)
    if whole[1] is not None:
        guarded(rep, "add_chunk", where(whole[1]), lambda: handed(c, rep, whole[1], whole[0]))
    for b in whole:
        for n in range(0, 4) if b is not None else ():
            guarded(rep, b["name"], where(b), lambda: go(n, b))


def handed(c, rep, b, inner):
    """whatever the chunk, it is handed to the function that checks it and that one's result is the result"""
    X, rs = c.run(b, opaque=[inner["id"]])
    call = lambda v: v.op in ("call", "wcall") and v.a[0].endswith("::" + inner["name"])
    some = [st for st, v in rs if any(call(t) for x in [v] + [k for k in st.facts if isinstance(k, Term)] for t in subterms(x))]
    if not some:
        return
    for st, v in rs:
        ok = v
        if v.op == "agg" and v.a[1] in ("Ok", "Err") and len(some) == len(rs):
            for k, x in st.facts.items():
                if isinstance(k, Term) and k.op == "is" and call(k.a[0]):
                    ok = k.a[0] if (k.a[1] == v.a[1]) == x else None
        good = ok is not None and call(ok) and [t is p for t, p in zip(ok.a[1], (Par("self"), Par("a1"), Par("a2")))] == [True] * 3
        murky = ok is not None and (call(ok) or v.op != "agg")
        rep.put(True if good else None if murky else False, "add_chunk/every chunk is checked", where(b),
                "returns %s; where %s" % (short(v, 80), describe(st.facts)))


class Both_(M):
    """the batch is written, and where the storage takes it the state is this one"""

    def __init__(self, write, state_, me):
        self.write, self.state, self.me = write, state_, me

    def m(self, X, st, v):
        ok = self.write.m(X, st, v)
        if ok[0] is not True or is_err(v) or implied(st.facts, Is(v, "Err")) is True:
            return ok
        return match(X, st, self.state, st.env.get(("O", self.me), self.me))


# ------------------------------------------------------------------ resuming
def flat(v):
    """the elements of an explicitly built sequence"""
    if v.op == "reversed":
        return flat(v.a[0])[::-1]
    if v.op == "array":
        return list(v.a[0])
    out = []
    while v.op == "pushed":
        out.append(v.a[1])
        v = v.a[0]
    if v.op != "vec0":
        raise Undet("the sequence is %s" % short(v))
    return out[::-1]


class Stack(M):
    def __init__(self, r, infos):
        self.r, self.infos = r, infos

    def m(self, X, st, v):
        try:
            got = flat(v)
        except Undet as u:
            return None, str(u)
        if len(got) != len(self.infos):
            return False, "holds %d nodes, expected %d" % (len(got), len(self.infos))
        for n, (x, (k, ch)) in enumerate(zip(got, self.infos)):
            for f, w in ((self.r.ikey, k), (self.r.ikids, Kids(ch))):
                ok = match(X, st, w, Fld(x, f))
                if ok[0] is not True:
                    return ok[0], "node %d: %s %s" % (n, f, ok[1])
        return True, ""


def nibs_of(v):
    """the nibbles of a path known as a whole"""
    tail = ()
    while v.op == "ppush":
        n = Fld(v.a[1], "0")
        if n.op != "int":
            raise Undet("the path %s is not known" % short(v))
        tail, v = (n.a[0],) + tail, v.a[0]
    if EmptyPath().m(None, State({}, {}), v)[0] is not True:
        raise Undet("the path %s is not known" % short(v))
    return tail


def knownpaths(c):
    """NibblePath's queries on paths known as a whole (C11 analyses the functions)"""
    out = {}
    for n, f in (("is_empty", lambda p: TRUE if not p else FALSE), ("num_nibbles", lambda p: Int(len(p))),
                 ("last", lambda p: Some(nibble(Int(p[-1]))) if p else NONE),
                 ("nibbles", lambda p: T("iter", T("array", tuple(nibble(Int(x)) for x in p))))):
        b = c.method("NibblePath", n, opt=True)
        if b:
            out[b["path"]] = lambda k, f=f: k.ret(f(nibs_of(k.e.snap(k.st, k.val(0)))))
    return out


def knownstore(c, store, ver, nodes):
    """a storage holding these nodes under this version: {nibbles: node or "error"}"""
    def f(k):
        s, key = k.e.snap(k.st, k.val(0)), k.e.snap(k.st, k.val(1))
        if s is not store:
            raise Undet("reads from %s" % short(s))
        if Fld(key, "version") is not ver:
            return k.ret(Ok(NONE))
        x = nodes.get(nibs_of(Fld(key, "nibble_path")))
        return k.ret(Ok(NONE) if x is None else Err(T("err", "node")) if isinstance(x, str) else Ok(Some(x)))

    def g(k):
        out = f(k)
        return [(s, Ok(Fld(As(Fld(v, "0"), "Some"), "0")) if is_ok(v) and Fld(v, "0") is not NONE else Err(T("err", "node"))) for s, v in out]
    return {"reader::TreeReader::get_node_option": f, "reader::TreeReader::get_node": g}


@prop("C29", floor=60, configs=("all",))
def recovered(c, rep):
    """the unfinished nodes are those missing on the way to the rightmost leaf"""
    r, nn = RS(c), NN(c)
    b = c.method("JellyfishMerkleRestore", "recover_partial_nodes")
    name, site = "recover_partial_nodes", where(b)
    ver, store = Par("version"), Par("store")
    root = Agg("types::nibble::nibble_path::NibblePath", "NibblePath", ("num_nibbles", "bytes"), (Int(0), T("vec0")))

    def path(p):
        t = root
        for n in p:
            t = T("ppush", t, nibble(Int(n)))
        return t

    def leaf(i):
        return mknode("Leaf", Par("leaf%s" % i))

    def node(i):
        return mknode("Internal", Par("node%s" % i))

    def child(x):
        if x.a[1] == "Leaf":
            return leafchild(x.a[3][0])
        n = x.a[3][0]
        return inner(Some(T("nhash", x)), Fld(n, nn.count))

    def go(what, p, nodes):
        nodes = {tuple(k): v for k, v in nodes.items()}
        I = {**Dom(c).path(), **children(c), **knownpaths(c), **knownstore(c, store, ver, nodes)}
        key = Agg("node_type::NodeKey", "NodeKey", (nn.kver, nn.kpath), (ver, path(p)))
        X, rs = c.run(b, args={0: store, 1: ver, 2: key}, intr=I, trips=70)
        m = len(p) - 1
        while m >= 0 and isinstance(nodes.get(tuple(p[:m])), Term):
            m -= 1
        out = IsErr()
        if m >= 0 and nodes.get(tuple(p[:m])) is None:
            infos, bad = [], False
            for j in range(m + 1):
                last = j == m
                ch = {}
                for i in range(16 if last else p[j]):
                    x = nodes.get(tuple(p[:j]) + (i,))
                    if x is not None:
                        bad = bad or isinstance(x, str) or x.a[1] == "Null"
                        ch[i] = None if isinstance(x, str) or x.a[1] == "Null" else child(x)
                if not last:
                    ch[p[j]] = PENDING
                infos.append((Key(ver, PathTo([nibble(Int(x)) for x in p[:j]])), ch))
            if not bad:
                out = Con("Ok", Stack(r, infos))
        table(rep, X, name, site, rs, [Row(what, [], out)])
    run = lambda *a: guarded(rep, name, site, lambda: go(*a))
    run("leaf at the root", [], {})
    for i in range(16):
        run("leaf at %d" % i, [i], {(i,): leaf(0)})
        run("leaf at %d, all before it" % i, [i], {(j,): leaf(j) if j % 2 else node(j) for j in range(i + 1)})
        run("leaf below %d" % i, [i, 5], {(i, 5): leaf(0), (i, 2): leaf(1), **({(i - 1,): node(2)} if i else {})})
        run("finished node at %d" % i, [i, 5], {(i, 5): leaf(0), (i, 2): leaf(1), (i,): node(3), **({(0,): leaf(4)} if i else {})})
    deep = [3, 7, 0, 15, 1]
    full = {tuple(deep): leaf(0)}
    for j in range(5):
        for i in range(deep[j]):
            if (i + j) % 3 != 1:
                full[tuple(deep[:j]) + (i,)] = leaf("%d.%d" % (j, i)) if i % 2 else node("%d.%d" % (j, i))
    for m in range(5):
        done = {tuple(deep[:j]): node("p%d" % j) for j in range(m + 1, 5)}
        run("%d unfinished nodes" % (m + 1), deep, {**full, **done})
        run("%d unfinished nodes, an ancestor unreadable" % (m + 1), deep, {**full, **done, tuple(deep[:m]): "error"})
        run("%d unfinished nodes, a child unreadable" % (m + 1), deep, {**full, **done, tuple(deep[:0]) + (2,): "error"})
        run("%d unfinished nodes, a null child" % (m + 1), deep, {**full, **done, tuple(deep[:0]) + (1,): mknode0()})
        # children right of the path belong to no restored tree, except at the bottom, where the last one is the rightmost leaf
    for n in (12, 20, 63, 64):
        long = [(7 * j + 3) % 16 for j in range(n)]
        low = {tuple(long): leaf(0)}
        for j in range(n):
            if j % 4 == 1:
                low.update({tuple(long[:j]) + (i,): leaf("%d.%d" % (j, i)) if i % 2 else node("%d.%d" % (j, i)) for i in range(long[j]) if (i + j) % 5 == 0})
        for m in (0, 1, n // 2, n - 1):
            run("%d of %d nodes unfinished" % (m + 1, n), long, {**low, **{tuple(long[:j]): node("p%d" % j) for j in range(m + 1, n)}})
    run("already restored", deep, {**full, **{tuple(deep[:j]): node("p%d" % j) for j in range(5)}})
    run("already restored", [4], {(4,): leaf(0), (): node(1)})


@prop("C29", floor=6, configs=("all",))
def starting(c, rep):
    """a restoration starts where the last one stopped"""
    r, nn = RS(c), NN(c)
    rec = c.method("JellyfishMerkleRestore", "recover_partial_nodes")

    def recover(k):
        a = [k.e.snap(k.st, k.val(i)) for i in range(3)]
        return [(s, Ok(T("recovered", *a)) if y else Err(T("err", "recover"))) for s, y in k.e.branch(k.st, T("recoverable", *a))]
    I = {**Dom(c).path(), **children(c), **storage(c), rec["path"]: recover}
    store, ver, root = (Par("a%d" % i) for i in range(3))
    nb = [c.field("NodeBatch", f, i) for i, f in enumerate(("nodes", "values"))]

    class None_(M):
        def m(self, X, st, v):
            for f in nb:
                if Fld(v, f).op != "map0":
                    return (None if alien(X, v) else False), "starts with %s" % short(v)
            return True, ""
    fresh = Stack(r, [(Key(ver, EmptyPath()), {})])

    def st(parts, prev):
        return Con("Ok", Fields(**{r.s["store"]: store, r.s["version"]: ver, r.s["partial_nodes"]: parts, r.s["frozen_nodes"]: None_(),
                                   r.s["previous_leaf"]: prev, r.s["num_keys_received"]: Int(0), r.s["expected_root_hash"]: root}))
    b = c.method("JellyfishMerkleRestore", "new_overwrite")

    def over():
        X, rs = c.run(b, intr=I)
        table(rep, X, "new_overwrite", where(b), rs, [Row("start over", [], st(fresh, Con("None")))])
    guarded(rep, "new_overwrite", where(b), over)
    b = c.method("JellyfishMerkleRestore", "new")

    def anew():
        X, rs = c.run(b, intr=I)
        G = the_term(all_facts(X, rs), lambda t: t.op == "call" and str(t.a[0]).endswith("::get_rightmost_leaf"), True)
        if G.a[1:] != (store,) and G.a[1:] != ((store,),):
            raise Undet("reads the rightmost leaf by %s" % short(G))
        found = Fld(As(G, "Ok"), "0")
        at, leaf = (Fld(Fld(As(found, "Some"), "0"), x) for x in "01")
        args = (store, ver, at)
        able = T("recoverable", *args)
        table(rep, X, "new", where(b), rs, [
            Row("storage error", [Is(G, "Err")], IsErr()),
            Row("nothing restored yet", [Is(G, "Ok"), Is(found, "None")], st(fresh, Con("None"))),
            Row("stopped part way", [Is(G, "Ok"), Is(found, "Some"), able], st(T("recovered", *args), Con("Some", leaf))),
            Row("not resumable", [Is(G, "Ok"), Is(found, "Some"), Not(able)], IsErr())])
    guarded(rep, "new", where(b), anew)
