"""Batch insertion: splitting a sorted run of keys nibble by nibble and building the nodes bottom up."""
from rules import prop
from rules.domain import *
from rules.nodes import *
from rules.commit import Batch, Each, Log, Roots, Same_, Shared, VerOf, VHash, W1, plain
from rules.proofs import Names
from rules.read import EmptyPath, NKEY, Sig, VER, tree
from rules.write import CACHE, LNODE, Pass, effects, history, key, leafnode
from engine import truth
from spec import *
from terms import *

KVS, DEPTH, HASHES = r"\[\(.*ValueHash", r"^usize$", r"^&?\s*std::option::Option<&|Option<&.*HashMap"
ARGS = (NKEY, VER, KVS, DEPTH, HASHES, CACHE)
LARGS = (NKEY, VER, LNODE, KVS, DEPTH, HASHES, CACHE)
INS, SUB, LEAF = "batch_insert_at", "batch_create_subtree", "batch_create_subtree_with_existing_leaf"


class Run(M):
    """the sub-slice of the keys that share the nibble"""

    def __init__(self, kvs, e):
        self.kvs, self.lo, self.hi = kvs, Fld(e, "0"), Fld(e, "1")

    def m(self, X, st, v):
        if v.op != "slice" or v.a[0] is not self.kvs:
            return (False if plain(v) else None), "keys passed on are %s" % short(v, 90)
        ok = v.a[1] is self.lo and v.a[2] is Add(self.hi, Int(1))
        return (True, "") if ok else (False, "keys passed on are %s, expected those of the nibble" % short(v, 110))


class Called(M):
    """a call of `name`, its arguments by position of its signature"""

    def __init__(self, sig, name, *ms):
        self.sig, self.name, self.ms = sig, name, ms

    def m(self, X, st, v):
        if v.op != "call":
            return None, "is %s, expected the result of %s" % (short(v, 90), self.name)
        if v.a[0].split("::")[-1] != self.name:
            known = v.a[0].split("::")[-1] in (INS, SUB, LEAF)
            return (False if known else None), "is %s, expected the result of %s" % (short(v, 90), self.name)
        for i, m in enumerate(self.ms):
            r = match(X, st, m, self.sig.arg(v, i))
            if r[0] is not True:
                return r[0], "argument of %s: %s" % (self.name, r[1])
        return True, ""


class HereCache(M):
    """the cache as the loop has it at this point"""

    def __init__(self, cache):
        self.cache = cache

    def m(self, X, st, v):
        if v.op == "loopvar" and v in X.loops[v.a[0]].vars and history(X.loops[v.a[0]].vars[v]["init"])[0] is self.cache:
            return True, ""
        return None, "cache is %s" % short(v, 80)


class After(M):
    def __init__(self, call):
        self.call = call

    def m(self, X, st, v):
        if v.op != "mut":
            return (False if v.op in ("loopvar", "put", "del") else None), "the cache is %s, expected as %s left it" % (
                short(v, 90), self.call.name)
        return match(X, st, self.call, T("call", v.a[0], v.a[2]))


class NodeHash(M):
    """the hash of the node a call returned: computed, or looked up by its path when hashes were given"""

    def __init__(self, call, hashes, given, nn):
        self.call, self.hashes, self.given, self.nn = call, hashes, given, nn

    def m(self, X, st, v):
        if not self.given:
            if v.op != "nhash":
                return (False if v.op == "fld" and any(s.op == "call" and s.a[0] == "get" for s in subterms(v)) else None), \
                    "child hash is %s, expected the hash of the new node" % short(v, 90)
            return Returned(self.call, "1").m(X, st, v.a[0])
        t = v
        if t.op == "fld" and t.a[0].op == "as" and t.a[0].a[1] == "Some":
            t = t.a[0].a[0]
        if t.op == "call" and t.a[0] == "get":
            t = T("get", *t.a[1])
        elif t.op == "idx":
            t = T("get", *t.a)
        if t.op != "get" or t.a[0] is not Fld(As(self.hashes, "Some"), "0"):
            return (None if t.op != "nhash" else False), "child hash is %s, expected the one provided for its path" % short(v, 90)
        p = t.a[1]
        if p.op != "fld" or p.a[1] != self.nn.kpath:
            return None, "looked up %s" % short(p, 90)
        return Returned(self.call, "0").m(X, st, p.a[0])


class Returned(M):
    """component `ix` of what the call returned"""

    def __init__(self, call, ix=None):
        self.call, self.ix = call, ix

    def m(self, X, st, v):
        if self.ix is not None:
            if v.op != "fld" or v.a[1] != self.ix:
                return (False if v.op in ("agg", "par", "upd") else None), "is %s, expected what %s returned" % (short(v, 90), self.call.name)
            v = v.a[0]
        if v.op == "fld" and v.a[0].op == "as" and v.a[0].a[1] == "Ok":
            return match(X, st, self.call, v.a[0].a[0])
        return None, "is %s, expected what %s returned" % (short(v, 90), self.call.name)


class KindOf(M):
    def __init__(self, call):
        self.call = call

    def m(self, X, st, v):
        if v.op == "ntype":
            return Returned(self.call, "1").m(X, st, v.a[0])
        return (False if v.op == "agg" else None), "child kind is %s" % short(v, 60)


class Slot(M):
    """`base` with this child in the slot of the nibble"""

    def __init__(self, base, nib, **child):
        self.base, self.nib, self.child = base, nib, child

    def m(self, X, st, v):
        if v.op != "cins":
            return (False if v.op in ("loopvar", "nochild", "cdel") else None), "children are %s, expected one to be added" % short(v, 90)
        r = match(X, st, self.base, v.a[0])
        if r[0] is not True:
            return r
        if v.a[1] is not self.nib:
            return (False if plain(v.a[1]) or v.a[1].op in ("nibbleof",) else None), "put in slot %s, expected %s" % (
                short(v.a[1], 80), short(self.nib, 80))
        for k, m in self.child.items():
            r = match(X, st, m, Fld(v.a[2], k))
            if r[0] is not True:
                return r[0], "child %s: %s" % (k, r[1])
        return True, ""


class Rebuilt(M):
    """an internal node with these children"""

    def __init__(self, kids):
        self.kids = kids

    def m(self, X, st, v):
        if v.op == "agg" and v.a[1] == "Internal":
            v = v.a[3][0]
        if v.op != "inode":
            return (False if v.op == "agg" else None), "is %s, expected the new internal node" % short(v, 90)
        return match(X, st, self.kids, v.a[0])


class Writes(M):
    """the cache after the loop over the runs, with these writes around it"""

    def __init__(self, cache, its, step, want):
        self.cache, self.its, self.step, self.want = cache, its, step, want

    def m(self, X, st, v):
        base, post = history(v)
        if base.op != "loopvar":
            return (None if any(g[0] == "call" for g in post) else False), "the subtrees of the keys are not built"
        pre = []

        class Start(M):
            def m(s, X, st, v):
                b, pre[:] = history(v)
                return (b is self.cache or (False if b.op == "loopvar" else None)), "the cache was %s" % short(b, 80)
        r = match(X, st, Fold(self.its, Start(), self.step), base)
        if r[0] is not True:
            return r
        r = effects(X, st, self.want, pre + post, pre + post)
        if r[0] is not True:
            return r
        for a in pre:
            if a[0] == "put" and any(w[0] == "del" for w in self.want):
                return None, "stored before the loop"
        return True, ""


def batch_pass(c, rep, name, sig, **k):
    return Pass(c, rep, name, sig, (INS, SUB, LEAF), extra=ranges(c), **k)


class Body:
    """the loop over the runs of equal nibbles, in `name`"""

    def __init__(self, c, p, kvs, depth, k, ver, hashes, cache):
        self.c, self.p, self.kvs, self.depth, self.k, self.ver, self.hashes, self.cache = c, p, kvs, depth, k, ver, hashes, cache
        self.nn = NN(c)
        self.its = [Each(T("runs", kvs, depth))]
        self.sub = Sig(tree(c, SUB), *ARGS)
        self.ins = Sig(tree(c, INS), *ARGS)
        self.leaf = Sig(tree(c, LEAF), *LARGS)

    def nib(self, e):
        return nib_at(self.kvs, Fld(e, "0"), self.depth)

    def rest(self, e, cache):
        return Run(self.kvs, e), Same_(Add(self.depth, Int(1))), Same_(self.hashes), cache

    def childkey(self, ver, nib):
        return key(self.nn, ver, T("ppush", Fld(self.k, self.nn.kpath), nib))

    def create(self, e, cache):
        return Called(self.sub, SUB, self.childkey(self.ver, self.nib(e)), self.ver, *self.rest(e, cache))

    def cases(self, e):
        """(guards, constructor of the call) for a run"""
        return [([], self.create)]

    def cache_step(self, el, cel, acc):
        e = el[0][0]
        return [(g, After(mk(e, Same_(acc)))) for g, mk in self.cases(e)]

    def kids_step(self, el, cel, acc):
        e = el[0][0]
        here, out = HereCache(self.cache), []
        for g, mk in self.cases(e):
            for given in (False, True):
                call = mk(e, here)
                out.append((g + [Is(self.hashes, "Some" if given else "None")], Slot(
                    acc, self.nib(e), hash=NodeHash(call, self.hashes, given, self.nn), version=Same_(self.ver), node_type=KindOf(call)), (), True))
        return out

    def kids(self, start):
        return Fold(self.its, start, self.kids_step)

    def writes(self, *want):
        return Writes(self.cache, self.its, self.cache_step, list(want))


def nib_at(kvs, i, depth):
    return T("nibbleof", Fld(Fld(Idx(kvs, i), "0"), "0"), depth)


def only(kvs):
    return T("len", kvs)


def one_key(kvs):
    return Eq(T("len", kvs), Int(1))


def create(c, rep):
    p = batch_pass(c, rep, SUB, ARGS)
    k, ver, kvs, depth, hashes, cache = (p.par(x) for x in ARGS)
    b = Body(c, p, kvs, depth, k, ver, hashes, cache)
    lf = leafnode(b.nn, Fld(Idx(kvs, Int(0)), "0"), Fld(Idx(kvs, Int(0)), "1"))
    new = Rebuilt(b.kids(T("nochild")))
    p.table([
        Row("one key", [one_key(kvs)], Tu(Con("Ok", Tu(Same_(k), lf)), Puts(cache, ("put", k, lf)))),
        Row("several keys", [Not(one_key(kvs))], Tu(Con("Ok", Tu(Same_(k), new)), b.writes(("put", k, new))))])


class Puts(M):
    """the cache with exactly these writes"""

    def __init__(self, cache, *want):
        self.cache, self.want = cache, list(want)

    def m(self, X, st, v):
        base, got = history(v)
        if base is not self.cache:
            return (False if base.op == "loopvar" else None), "the cache was %s" % short(base, 80)
        return effects(X, st, self.want, got, got)


def with_leaf(c, rep):
    p = batch_pass(c, rep, LEAF, LARGS)
    k, ver, leaf, kvs, depth, hashes, cache = (p.par(x) for x in LARGS)
    nn = NN(c)
    old = Fld(leaf, nn.lk)
    bucket = T("nibbleof", Fld(old, "0"), depth)
    same_bucket = lambda e: Eq(Fld(nib_at(kvs, Fld(e, "0"), depth), "0"), Fld(bucket, "0"))

    class WithLeaf(Body):
        def cases(self, e):
            down = lambda e, cache: Called(self.leaf, LEAF, self.childkey(ver, self.nib(e)), ver, Same_(leaf), *self.rest(e, cache))
            return [([same_bucket(e)], down), ([Not(same_bucket(e))], self.create)]
    b = WithLeaf(c, p, kvs, depth, k, ver, hashes, cache)
    one = [one_key(kvs), Eq(Fld(Fld(Idx(kvs, Int(0)), "0"), "0"), Fld(old, "0"))]
    lf = leafnode(nn, old, Fld(Idx(kvs, Int(0)), "1"))
    flags = []
    for L in p.X.loops.values():
        for v, d in L.vars.items():
            if v.op == "loopvar" and d["init"] in (TRUE, FALSE) and v not in flags:
                flags.append(v)
    if len(flags) != 1:
        rep.undet(LEAF, p.site, "how the old leaf's place is tracked was not recognised")
        return
    flag = flags[0]
    L = p.X.loops[flag.a[0]]
    init = L.vars[flag]["init"]
    r = match(p.X, State({}, {T("hasnext", None, 0, None): False}), FlagFold(b, same_bucket, init), flag)
    rep.put(r[0], LEAF + "/the old leaf's place is tracked", p.site, r[1])
    alone = flag if init is TRUE else Not(flag)
    place = b.childkey(ver, bucket)
    kept = Con("Leaf", Same_(leaf))
    joined = Rebuilt(b.kids(T("nochild")))
    split = Rebuilt(Slot(b.kids(T("nochild")), bucket, hash=HashOf(kept), version=Same_(ver), node_type=Con("Leaf")))
    rows = [Row("the leaf's own key", one, Tu(Con("Ok", Tu(Same_(k), lf)), Puts(cache, ("put", k, lf))))]
    for i, g in enumerate(([Not(one[0])], [one[0], Not(one[1])])):
        nm = ("several keys", "another key")[i]
        rows += [
            Row(nm + ", one beside the leaf", g + [Not(alone)], Tu(Con("Ok", Tu(Same_(k), joined)), b.writes(("put", k, joined)))),
            Row(nm + ", none beside the leaf", g + [alone], Tu(Con("Ok", Tu(Same_(k), split)), b.writes(
                ("put", place, kept), ("put", k, split))))]
    p.table(rows)


class HashOf(M):
    def __init__(self, node):
        self.node = node

    def m(self, X, st, v):
        if v.op != "nhash":
            return None, "hash is %s" % short(v, 60)
        return match(X, st, self.node, v.a[0])


def settle(t, facts):
    """a joined flag with the parts decided that the facts decide"""
    k = truth(facts, t) if t.op in ("bin", "not", "is") else None
    if k is not None:
        return TRUE if k else FALSE
    if t.op == "bin" and t.a[0] in ("BitAnd", "BitOr"):
        stop, rest = (FALSE, TRUE) if t.a[0] == "BitAnd" else (TRUE, FALSE)
        a, b = (settle(x, facts) for x in t.a[1:3])
        if stop in (a, b):
            return stop
        return b if a is rest else a if b is rest else t
    return t


class FlagFold(M):
    """set once a run has the leaf's nibble"""

    def __init__(self, b, same, init):
        self.b, self.same, self.init = b, same, init

    def m(self, X, st, v):
        flip = Not(self.init)

        def step(el, cel, acc):
            s = self.same(el[0][0])
            return [([s], flip), ([Not(s)], Same_(acc))]
        L = X.loops[v.a[0]]
        var = L.vars[v]
        its = [k for k in L.vars if k.op == "itpos"]
        if len(its) != 1:
            return None, "loop not understood"
        seq = L.vars[its[0]]["init"]
        e = T("elem", seq, 0, v.a[0])
        for f, nx in var["next"]:
            for w in worlds(dict(f)):
                hit = consistent(w, [self.same(e)])
                miss = consistent(w, [Not(self.same(e))])
                for w2, on in ((hit, True), (miss, False)):
                    if w2 is None or not on and hit is not None and nx.op != "bin":
                        continue
                    x = settle(nx, w2)
                    if on and x is not flip:
                        return (False if x is v or x is self.init else None), "not recorded when a run has the leaf's nibble"
                    if not on and x is not v:
                        return (False if x in (TRUE, FALSE) else None), "changed when a run has another nibble"
        return True, ""


def insert(c, rep):
    p = batch_pass(c, rep, INS, ARGS)
    k, ver, kvs, depth, hashes, cache = (p.par(x) for x in ARGS)
    nn = NN(c)
    node = T("node", cache, k)
    inn = Fld(As(node, "Internal"), "0")
    known = lambda e: T("haschild", inn, nib_at(kvs, Fld(e, "0"), depth))

    class Below(Body):
        def cases(self, e):
            child = T("ichild", inn, self.nib(e))
            down = lambda e, cache: Called(self.ins, INS, self.childkey(Fld(child, "version"), self.nib(e)), ver, *self.rest(e, cache))
            return [([known(e)], down), ([Not(known(e))], self.create)]
    b = Below(c, p, kvs, depth, k, ver, hashes, cache)
    new = Rebuilt(b.kids(Fld(inn, nn.children)))
    here = key(nn, ver, Same_(Fld(k, nn.kpath)))
    gone = lambda leaf: ("del", k, TRUE if leaf else FALSE)

    def all_keys(call):
        """result and cache are those of the call"""
        return lambda *pre: Tu(Con("Ok", Returned(call)), Then(call, cache, pre))
    lc = lambda m: Called(b.leaf, LEAF, here, ver, Same_(Fld(As(node, "Leaf"), "0")), Same_(kvs), Same_(depth), Same_(hashes), m)
    nc = lambda m: Called(b.sub, SUB, key(nn, ver, EmptyPath()), ver, Same_(kvs), Same_(depth), Same_(hashes), m)
    npath = T("plen", Fld(k, nn.kpath))
    empty = Eq(Fld(Fld(k, nn.kpath), c.field("NibblePath", "num_nibbles", 0)), Int(0))
    samev = Eq(Fld(k, nn.kver), ver)

    def passed(mk, *pre):
        at = Puts(cache, *pre)
        call = mk(at)
        return Tu(Con("Ok", Returned(call)), After(call))
    p.table([
        Row("at an internal node", [Is(node, "Internal")], Tu(Con("Ok", Tu(here, new)), b.writes(gone(False), ("put", here, new)))),
        Row("at a leaf", [Is(node, "Leaf")], passed(lc, gone(True))),
        Row("null node below the root", [Is(node, "Null"), Not(empty)], Tu(IsErr(), Any())),
        Row("at a null root of this version", [Is(node, "Null"), empty, samev], passed(nc, gone(False))),
        Row("at an older null root", [Is(node, "Null"), empty, Not(samev)], passed(nc)),
    ])


class HashSets:
    """one entry per value set: the given hashes in order, or none"""
    name = "the hash sets"

    def __init__(self, given, sets):
        self.given, self.sets = given, sets

    def base(self, t):
        while t.op in ("enum",):
            t = t.a[0]
        return t.a[0] if t.op == "iter" else t

    def __call__(self, X, st, t):
        b = self.base(t)
        if b.op == "vecop" and b.a[0] == "resize" and b.a[1][0].op == "vec0" and \
                implied(st.facts, Is(self.given, "Some")) is False:
            return b.a[1][1] is T("len", self.sets) and b.a[1][2] is NONE
        if b.op == "mapped" or b.op not in ("loopvar", "repeat", "vecn"):
            return None
        if b.op != "loopvar":
            return None
        hs = Fld(As(self.given, "Some"), "0")
        if implied(st.facts, Is(self.given, "Some")) is True:
            return match(X, st, Fold([Each(hs)], T("vec0"), lambda el, cel, acc: [
                ([], Pushed_(acc, Con("Some", Same_(el[0][0]))))]), b)[0]
        return match(X, st, Fold([Count(self.sets)], T("vec0"), lambda el, cel, acc: [([], Pushed_(acc, Con("None")))]), b)[0]

    def elem(self, t, uid):
        b = t
        while b.op == "enum":
            b = b.a[0]
        return (T("elem", b, 0, uid),)


class Count:
    """as many rounds as there are value sets"""
    name = "once per value set"

    def __init__(self, sets):
        self.sets = sets

    def __call__(self, X, st, t):
        while t.op in ("map", "enum"):
            t = t.a[0]
        if t.op == "agg" and t.a[0] == "std::ops::Range":
            return Sub(Fld(t, "end"), Fld(t, "start")) is T("len", self.sets)
        if t is T("iter", self.sets):
            return True
        return None

    def elem(self, t, uid):
        return (t,)


class Pushed_(M):
    def __init__(self, base, item):
        self.base, self.item = base, item

    def m(self, X, st, v):
        if v.op != "pushed" or v.a[0] is not self.base:
            return None, "is %s" % short(v, 90)
        return match(X, st, self.item, v.a[1])


class Sorted(Over):
    """every key of the set once, in order, with the last value given for it"""

    def __init__(self, items):
        self.items = items
        self.name = "the set's keys in order, each once with its last value"
        self.strict = True

    def __call__(self, X, st, t):
        b = self.base(t)
        if b.op == "iter":
            b = b.a[0]
        if b is self.items:
            return False
        if b.op != "collected" or not b.a[0].endswith("BTreeMap"):
            return None
        if b.a[1].op == "rev" and b.a[1].a[0] is T("iter", self.items):
            return False
        if b.a[1] is not T("iter", self.items):
            return None
        x = b.a[2]
        return True if len(x) == 1 and x[0] is T("elem", T("iter", self.items), 0, True) else None

    def elem(self, t, uid):
        return T("elem", self.base(t), 0, uid), None


class AtVersion(M):
    """first + position of the set"""

    def __init__(self, first, sets):
        self.first, self.sets = first, T("iter", sets)

    def m(self, X, st, v):
        ps = [s for s in subterms(v) if s.op == "ipos"]
        if len(ps) == 1 and Sub(v, ps[0]) is self.first and self.sets in [z for z in zips(ps[0].a[0])]:
            return True, ""
        if v.op == "loopvar":
            d = X.loops[v.a[0]].vars[v]
            if d["init"] is self.first and all(nx is Add(v, Int(1)) for _, nx in d["next"]):
                return True, ""
            return None, "version is %s" % short(v, 90)
        ok = all(s.op in ("par", "ipos", "add", "lin", "sum", "int", "iter", "zip", "enum", "len", "loopvar") for s in subterms(v))
        return (False if plain(v) or ok or len(ps) == 1 else None), "version is %s, expected the first plus the set's position" % short(v, 90)


class Version1(M):
    """what one set does to the cache: its values recorded, its keys inserted, the new root set, the version closed"""

    def __init__(self, acc, item, ver, hs, ins):
        self.acc, self.item, self.ver, self.hs, self.ins = acc, item, ver, hs, ins

    def record(self, start):
        def step(el, cel, acc):
            kv = el[0][0]
            return [([], W1("putval", Same_(acc), self.ver, Fld(kv, "0"), Con("Some", Same_(Fld(kv, "1")))))]
        return Fold([Sorted(self.item)], start, step)

    def keys(self):
        def step(el, cel, acc):
            kv = el[0][0]
            return [([], Pushed_(acc, Tu(Same_(Fld(kv, "0")), VHash(Fld(kv, "1")))))]
        return Fold([Sorted(self.item)], T("vec0"), step)

    def m(self, X, st, v):
        if v.op != "freeze":
            return (False if v.op in ("loopvar", "setroot", "mut") else None), "is %s, expected the version to be closed" % short(v, 80)
        v, root, call, rec = v.a[0], None, None, None
        while v is not self.acc:
            if v.op == "setroot" and root is None and call is None:
                root, v = v.a[1], v.a[0]
            elif v.op == "mut" and call is None and v.a[0].endswith(INS):
                call = T("call", v.a[0], v.a[2])
                v = v.a[2][v.a[1]]
            elif v.op == "loopvar" and rec is None:
                class Below(M):
                    def m(s, X, st, t):
                        s.v = t
                        return True, ""
                b = Below()
                r = match(X, st, self.record(b), v)
                if r[0] is not True:
                    return r[0], "recording the values: %s" % r[1]
                rec, v = v, b.v
            else:
                return (False if v.op in ("loopvar", "freeze", "setroot", "putval", "put", "del", "cache0") else None), \
                    "also changes the cache: %s" % short(v, 90)
        if call is None:
            return None, "the insertion was not recognised"
        if rec is None:
            return False, "the values are not recorded"
        a = lambda i: self.ins.arg(call, i)
        rk = a(0)
        if rk.op != "rootkey" or rk.a[0] not in (self.acc, rec):
            return (False if plain(rk) else None), "inserts at %s, expected the root of the previous version" % short(rk, 80)
        for what, m, x in (("version", self.ver, a(1)), ("keys", self.keys(), a(2)), ("depth", Same_(Int(0)), a(3)), ("hashes", Same_(self.hs), a(4))):
            r = match(X, st, m, x)
            if r[0] is not True:
                return r[0], "insertion %s: %s" % (what, r[1])
        want = Fld(Fld(As(call, "Ok"), "0"), "0")
        if root is None:
            return False, "the new root is not set"
        return (True, "") if root is want else (None if not plain(root) else False, "root set to %s" % short(root, 80))


def sets(c, rep):
    name = "batch_put_value_sets"
    p = Pass(c, rep, name, None, (INS,), extra={**wholecache(c), **ranges(c)})
    b = tree(c, name)
    vs, hs, first = Par("a1"), Par("a2"), Par("a3")
    ins = Sig(tree(c, INS), *ARGS)

    def version(el, cel, acc):
        return [([], Version1(acc, el[0][0], AtVersion(first, vs), el[1][0], ins))]
    cache = Fold([Each(vs), HashSets(hs, vs)], T("cache0", Fld(Par("self"), "reader"), first), version)
    p.ret([Row("done", [], Con("Ok", Tu(Roots(cache), Batch(c, cache))))])


def runs(c, rep):
    """binary search for the end of the run: the loop keeps the first index in the run and the last out of reach"""
    bs = [b for b in c.p.facts["bodies"] if b["kind"] == "fn" and b.get("name") == "next" and "NibbleRangeIterator" in b["path"]]
    if len(bs) != 1:
        rep.undet("NibbleRangeIterator", "", "not found")
        return
    b = bs[0]
    at = where(b)
    intr = ranges(c)
    for x in c.p.facts["bodies"]:
        if x["kind"] == "fn" and x.get("name") == "nibble" and "Bytes32Ext" in x["path"]:
            intr[x["path"]] = lambda k: k.ret(Fld(T("nibbleof", k.e.snap(k.st, k.val(0)), k.val(1)), "0"))
    intr["bytes32ext::Bytes32Ext::nibble"] = lambda k: k.ret(Fld(T("nibbleof", k.e.snap(k.st, k.val(0)), k.val(1)), "0"))
    X, rs = c.run(b, intr=intr, kmax=400)
    kvs, depth, pos = (Fld(Par("self"), c.field("NibbleRangeIterator", f, i)) for i, f in enumerate(("sorted_kvs", "nibble_idx", "pos")))
    n = T("len", kvs)
    done = Not(Lt(pos, n))
    for st, v in rs:
        d = implied(st.facts, done)
        if d is True:
            r = match(X, st, Con("None"), v)
            rep.put(r[0], "NibbleRangeIterator::next/exhausted", at, r[1])
            continue
        if d is None:
            rep.undet("NibbleRangeIterator::next", at, "the end test was not recognised")
            continue
        if not (v.op == "agg" and v.a[1] == "Some"):
            rep.put(False if v.op == "agg" else None, "NibbleRangeIterator::next/run", at, "returns %s before the end" % short(v, 60))
            continue
        pair = Fld(As(v, "Some"), "0")
        lo, hi = Fld(pair, "0"), Fld(pair, "1")
        rep.put(lo is pos or (False if plain(lo) else None), "NibbleRangeIterator::next/run start", at, "starts at %s" % short(lo, 60))
        after = Fld(st.env.get(("O", Par("self")), Par("self")), pos.a[1])
        rep.put(after is Add(hi, Int(1)) or (False if after.op == hi.op or plain(after) else None) or (
            False if isinstance(after, Term) and plain(Sub(after, hi)) else None),
            "NibbleRangeIterator::next/position", at, "continues at %s after a run that ends at %s" % (short(after, 60), short(hi, 60)))
        ok, why = search(X, st, hi, kvs, depth, pos, n)
        rep.put(ok, "NibbleRangeIterator::next/run end", at, why)


def evaluate(t, env):
    """the value of an integer expression over two variables"""
    if t in env:
        return env[t]
    if t.op == "int":
        return t.a[0]
    if t.op == "lin":
        c, m = lin_parts(t)
        return c + sum(k * evaluate(x, env) for x, k in m.items())
    if t.op == "bin" and t.a[0] in ("Div", "Rem", "Shr"):
        x, y = evaluate(t.a[1], env), evaluate(t.a[2], env)
        return x // y if t.a[0] == "Div" else x % y if t.a[0] == "Rem" else x >> y
    raise KeyError(t)


def known(facts, t):
    r = truth(facts, t)
    return r if r is not None else implied(facts, t)


def search(X, st, hi, kvs, depth, pos, n):
    """the loop keeps: index i belongs to the run, every index above j does not; it ends with i = j"""
    if hi.op != "loopvar":
        return (False if plain(hi) else None), "the run ends at %s" % short(hi, 80)
    L = X.loops[hi.a[0]]
    vs = [v for v in L.vars if v.op == "loopvar"]
    i = [v for v in vs if L.vars[v]["init"] is pos]
    j = [v for v in vs if L.vars[v]["init"] is Add(n, Int(-1))]
    if len(vs) != 2 or len(i) != 1 or len(j) != 1:
        other = [short(L.vars[v]["init"], 40) for v in vs]
        return (False if len(vs) == 2 and len(i) == 1 and all(plain(L.vars[v]["init"]) for v in vs) else None), \
            "the search starts with %s" % ", ".join(other)
    i, j = i[0], j[0]
    if known(st.facts, Lt(i, j)) is not False:
        return (False if known(st.facts, Lt(i, j)) is True or
                known(st.facts, Lt(Add(i, Int(1)), j)) is not None else None), "the search may end before both ends meet"
    nib = lambda x: Fld(nib_at(kvs, x, depth), "0")
    cur = nib(pos)
    for (f, ni), (_, nj) in zip(L.vars[i]["next"], L.vars[j]["next"]):
        if ni is i and nj is not j:
            m, below = Add(nj, Int(1)), False
        elif nj is j and ni is not i:
            m, below = ni, True
        else:
            return None, "a search step was not understood"
        try:
            bad = next(((x, y) for x in range(4) for y in range(x + 1, x + 40)
                        if not x < evaluate(m, {i: x, j: y}) <= y), None)
        except KeyError:
            return None, "the probed index %s was not understood" % short(m, 80)
        gt, eq = Lt(cur, nib(m)), Eq(cur, nib(m))
        if not below and bad and not (bad and all(x <= evaluate(nj, {i: x, j: y}) < y for x in range(4) for y in range(x + 1, x + 40))):
            return False, "with ends %d and %d the search goes on up to %d" % (bad + (evaluate(nj, {i: bad[0], j: bad[1]}),))
        if below and bad:
            return False, "with ends %d and %d the search goes on from %d" % (bad + (evaluate(m, {i: bad[0], j: bad[1]}),))
        g, e = known(f, gt), known(f, eq)
        other = [nib_index(k, kvs, depth) for k in f if isinstance(k, Term)]
        probed = [x for o in other for x in o if x is not pos]
        if below and (g is False or e is True) or not below and (g is True or e is False):
            continue
        if below and (g is True or e is False) or not below and (g is False or e is True):
            return False, "goes on %s the probed key although its nibble is %s" % (
                "from" if below else "below", "another" if below else "the run's")
        if probed and all(x is not m for x in probed):
            return False, "compares the key at %s but goes on %s %s" % (short(probed[0], 60), "from" if below else "below", short(m, 60))
        return (False if probed else None), "the comparison of the probed key does not decide the step"
    return True, ""


def nib_index(t, kvs, depth):
    """indices of the keys whose nibble the condition looks at"""
    out = []
    for s in subterms(t):
        if s.op == "nibbleof" and s.a[1] is depth:
            x = s.a[0]
            while x.op == "fld":
                x = x.a[0]
            if x.op == "idx" and x.a[0] is kvs:
                out.append(x.a[1])
    return out


@prop("C21", floor=20)
def batches(c, rep):
    create(c, rep)
    with_leaf(c, rep)
    insert(c, rep)
    sets(c, rep)
    runs(c, rep)
