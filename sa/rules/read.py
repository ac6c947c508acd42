"""Reading a stored tree: walks from the root, proofs, range proofs, neighbours, roots and values."""
from rules import prop
from rules.domain import *
from rules.nodes import NN, whole, node_hash_rows, merkle_intr, leafhash
from rules.proofs import Names, PH, hparam
from spec import *
from terms import *
import copy
import re
from engine import Loop


def all_facts(X, rs):
    for st, _ in rs:
        yield st.facts
    for L in X.loops.values():
        for d in L.vars.values():
            for f, _ in d["next"]:
                yield f


def lift(init, nexts, vars_):
    """the term over the variables of a loop that starts as init and becomes nexts, or None"""
    for k, d in vars_.items():
        if k.op == "loopvar" and d["init"] is init and [x for _, x in d["next"]] == nexts:
            return k
    if init.op == "agg" and init.a[3] and all(x.op == "agg" and x.a[:3] == init.a[:3] for x in nexts):
        fs = [lift(y, [x.a[3][i] for x in nexts], vars_) for i, y in enumerate(init.a[3])]
        return None if None in fs else Agg(init.a[0], init.a[1], init.a[2], tuple(fs))
    return init if all(x is init for x in nexts) else None


class Ahead:
    """a walk that reads the next node at the end of a round, seen as one that reads it at the start of the next:
    the variable that holds the node read is the node stored under the key of that round"""

    def __init__(self, X, rs, reader):
        self.X, self.rs, self.failed, self.K = X, rs, [], None
        for uid, L in X.loops.items():
            for V, d in L.vars.items():
                nx = [x for _, x in d["next"]]
                if V.op != "loopvar" or not nx or any(x.op != "node" or x.a[0] is not reader for x in [d["init"]] + nx):
                    continue
                K = lift(d["init"].a[1], [x.a[1] for x in nx], L.vars)
                if K is not None:
                    return self.rewrite(reader, uid, L, V, K, d["init"].a[1], [x.a[1] for x in nx])

    def rewrite(self, rd, uid, L, V, K, first, nexts):
        new = {V: T("node", rd, K)}
        self.K = K
        known = {T("nodeok", rd, K): True, T("nodehere", rd, K): True}
        asked = lambda k: (T("nodeok", rd, k), T("nodehere", rd, k))

        def facts(f, inside):
            out = {}
            for t, v in f.items():
                if t in asked(first) or any(t in asked(k) for k in nexts):
                    continue
                if isinstance(t, Term):
                    t = substm(t, new)
                elif isinstance(t, tuple):
                    t = tuple(substm(x, new) if isinstance(x, Term) else x for x in t)
                out[t] = v
            return {**out, **known} if inside else out
        X = copy.copy(self.X)
        X.loops = dict(X.loops)
        L2 = Loop(**{k: getattr(L, k) for k in L.__slots__ if hasattr(L, k)})
        L2.vars = {k: {**d, "next": [(facts(f, True), substm(x, new)) for f, x in d["next"]]}
                   for k, d in L.vars.items() if k is not V}
        X.loops[uid] = L2
        self.X, out = X, []
        for st, v in self.rs:
            bad = [(k, a) for k in [first] + nexts for a in asked(k) if st.facts.get(a) is False]
            if bad:
                (k, a), = bad[:1]
                f = {T("nodeok", rd, K): a.op != "nodeok"}
                if a.op != "nodeok":
                    f[T("nodehere", rd, K)] = False
                self.failed.append((f, k is first, v, st))
            else:
                spent = any(isinstance(t, Term) and t.op == "hasnext" and t.a[2] == uid and not v2 and indexy(t.a[0])
                            for t, v2 in st.facts.items())
                inside = asked(first)[0] in st.facts and not spent
                out.append((State(st.env, facts(st.facts, inside), st.did), substm(v, new)))
        self.rs = out

    def results(self, zero):
        out = list(self.rs)
        for f, at_first, v, st in self.failed:
            f = dict(f)
            for z in zero:
                assume(f, z, at_first)
            out.append((State(st.env, f, st.did), v))
        return out


class Walk:
    """the loop that follows node keys from a start towards a leaf"""

    def __init__(self, c, X, rs, reader):
        ahead = Ahead(X, rs, reader)
        X, rs = ahead.X, ahead.rs
        self.c, self.X, self.reader = c, X, reader
        self.n = NN(c)
        keys, nibs, zeros = [], [], []
        if ahead.K is not None:
            keys.append(ahead.K)
        for f in all_facts(X, rs):
            for t in f:
                if not isinstance(t, Term):
                    continue
                for s in subterms(t):
                    if s.op == "nodeok" and s.a[0] is reader and s.a[1] not in keys:
                        keys.append(s.a[1])
                    nb = s.a[2] if s.op in ("child1", "child0") else s.a[1] if s.op == "haschild" else None
                    if nb is not None and nb not in nibs:
                        nibs.append(nb)
        keys = [k for k in keys if any(s.op == "loopvar" for s in subterms(k))]
        uids = {s.a[0] for k in keys for s in subterms(k) if s.op == "loopvar"}
        if len(keys) != 1 or len(uids) != 1:
            raise Undet("the walk over node keys was not recognised")
        self.K = keys[0]
        self.uid = uids.pop()
        self.loop = X.loops[self.uid]
        self.node = T("node", reader, self.K)
        self.ok = T("nodeok", reader, self.K)
        self.here = T("nodehere", reader, self.K)
        self.internal = Fld(As(self.node, "Internal"), "0")
        self.leaf = Fld(As(self.node, "Leaf"), "0")
        self.nibs = nibs
        self.counters, self.flags, self.zero = [], [], [Eq(Int(0), Fld(Fld(self.K, self.n.kpath), "num_nibbles"))]
        self.driver = None
        for k, d in self.loop.vars.items():
            nx = [x for _, x in d["next"]]
            if k.op == "itpos" and indexy(d["init"]):
                self.driver = d["init"]
                e = T("elem", d["init"], 0, self.uid)
                if all(unadv(x) == (k, 1) for x in nx) and d["init"].op == "agg" and Fld(d["init"], "start") is Int(0):
                    self.zero.append(Eq(Int(0), e))
            elif k.op == "loopvar" and d["init"] is Int(0) and all(x is Add(k, Int(1)) for x in nx):
                self.counters.append(k)
                self.zero.append(Eq(Int(0), k))
            elif k.op == "loopvar" and d["init"] in (TRUE, FALSE) and all(x in (TRUE, FALSE) for x in nx):
                self.flags.append(k)
                if all(x is not d["init"] for x in nx):
                    self.zero.append(k if d["init"] is TRUE else Not(k))

        self.rs = ahead.results(self.zero)
        self.kvars = {s for s in subterms(self.K) if s.op == "loopvar"}

    def init(self, t):
        return substm(t, {k: d["init"] for k, d in self.loop.vars.items()})

    def nexts(self, t):
        """value of t in the next round, for each way round the loop: (facts, value)"""
        vs = [(k, d["next"]) for k, d in self.loop.vars.items() if k in subterms(t)]
        if len({len(n) for _, n in vs}) != 1:
            raise Undet("the ways round the walk were not recognised")
        for j in range(len(vs[0][1])):
            yield vs[0][1][j][0], substm(t, {k: n[j][1] for k, n in vs})

    def below(self):
        return [Not(z) for z in self.zero]

    def odd(self, extra=()):
        known = {*self.kvars, *self.counters, *extra}

        def f(st):
            for k in st.facts:
                if not isinstance(k, Term):
                    continue
                for s in subterms(k):
                    if s.op == "loopvar" and s.a[0] is self.uid and s not in known and not any(s in subterms(z) for z in self.zero):
                        return s
                    if s.op in ("hasnext", "forall") and self.uid not in s.a and self.internal in subterms(s):
                        return s     # something was asked of every child of the node
            return None
        return f

    def key_nibbles(self, rep, name, site, key32):
        """the walk turns, at each level, to the next nibble of the key"""
        if len(self.nibs) != 1:
            raise Undet("the nibble followed by the walk was not recognised")
        b = self.nibs[0]
        if b.op != "elem" or b.a[1] != 0 or b.a[2] is not self.uid:
            raise Undet("the nibble followed by the walk was not recognised: %s" % short(b))
        it = b.a[0]
        v = bitview(it)
        if v is None:
            raise Undet("the nibble followed by the walk was not recognised: %s" % short(it))
        moves = None
        for k, d in self.loop.vars.items():
            if k.op == "itpos" and d["init"] is it:
                moves = [unadv(x)[1] if unadv(x)[0] is k else None for _, x in d["next"]]
        ok = v[0] is key32 and v[1] == 4 and v[2] is Int(0)
        if moves is None or any(m is None for m in moves):
            raise Undet("the nibble iterator is moved in a way not understood")
        rep.put(ok and all(m == 1 for m in moves), name + "/nibbles", site,
                "follows %s, moving by %s per level; expected every nibble of %s in order" % (short(it), moves, short(key32)))
        return b

    def long_enough(self, rep, name, site):
        d = self.driver
        if d is None:
            return
        s, e = Fld(d, "start"), Fld(d, "end")
        if s.op == "int" and e.op == "int":
            cnt = e.a[0] - s.a[0] + (1 if "Inclusive" in d.a[0] else 0)
            rep.put(cnt >= 65, name + "/depth", site, "gives up after %d nodes; a path has up to 65" % cnt)
        else:
            rep.put(None, name + "/depth", site, "walk bounded by %s" % short(d))

    def start(self, rep, name, site, ver):
        got = self.init(self.K)
        put(rep, verdict(self.X, rootkey(self.n, ver), got), name + "/start", site)

    def step(self, rep, name, site, nib, child="child1"):
        """every round goes on with the child's key"""
        want = Fld(As(T(child, self.internal, self.K, nib), "Some"), "0")
        for f, nx in self.nexts(self.K):
            put(rep, verdict(self.X, want, nx, f), name + "/next node", site)

    def seqvar(self, want, *init):
        """the loop variable that starts empty and grows by want(acc)"""
        out = []
        for k, d in self.loop.vars.items():
            if k.op == "loopvar" and d["init"].op == "vec0":
                out.append(k)
        return out


def put(rep, v, name, site):
    rep.put(v[0], name, site, v[1])


def verdict(X, want, got, facts=None):
    """(status, message) of got being want"""
    r = match(X, State({}, dict(facts or {})), want, got)
    return (r[0], r[1]) if r[0] is not True else (True, "")




def rootkey(n, ver):
    def m(st):
        return Fields(**{n.kver: ver, n.kpath: EmptyPath()})
    return m


class EmptyPath(M):
    def m(self, X, st, v):
        num = Fld(v, "num_nibbles")
        if num.op == "int":
            return (True, "") if num.a[0] == 0 else (False, "is a path of %d nibbles, expected the root" % num.a[0])
        if v.op == "ppush":
            return False, "is %s, expected the root" % short(v)
        return None, "path not determined: %s" % short(v)


def proof(n, leaf, sibs):
    return Fields(**{n.leaf: leaf, n.sibs: sibs})


def proof_leaf(n, nn, leafnode):
    return Con("Some", Fields(**{n.kh: Fld(leafnode, nn.lk), n.vh: Fld(leafnode, nn.lv)}))


def seqnorm(t):
    """a sequence term as the list of its parts, (term, None) an element, (term, reversed) a sequence"""
    o = t.op
    if o == "iter":
        return seqnorm(t.a[0])
    if o == "vec0":
        return []
    if o == "drained" and "RangeFull" in show(t.a[1]):
        return seqnorm(t.a[0])
    if o == "collected" and t.a[0].endswith("Vec") and t.a[1].op in ("iter", "rev", "chain"):
        return seqnorm(t.a[1])
    if o in ("rev", "reversed"):
        return [(x, r if r is None else not r) for x, r in reversed(seqnorm(t.a[0]))]
    if o in ("extended", "chain"):
        return seqnorm(t.a[0]) + seqnorm(t.a[1])
    if o == "pushed":
        return seqnorm(t.a[0]) + [(t.a[1], None)]
    return [(t, False)]


class Seq(M):
    """one of the given sequences, in this order"""

    def __init__(self, *alts):
        self.alts = alts

    def m(self, X, st, v):
        p, want = seqnorm(v), [seqnorm(a) for a in self.alts]
        if p in want:
            return True, ""
        mine = {x for w in want for x, _ in w}
        ops = {s.op for s in subterms(v)}
        known = {"reversed", "extended", "pushed", "vec0", "loopvar"}
        bad = all(x in mine for x, _ in p) or (v.op in known and ops <= known | PUREOPS | {"sibs1", "node", "child1"})
        return (False if bad else None), "is %s, expected %s" % (short(v), short(self.alts[0]))


def intr_of(c):
    return {**storage(c), **traversal(c)}


def guarded(rep, name, site, f):
    try:
        f()
    except Undet as u:
        rep.undet(name, site, str(u))




@prop("C13", floor=12)
def with_proof(c, rep):
    b = c.method("JellyfishMerkleTree", "get_with_proof")
    n, nn = Names(c), NN(c)
    key, ver = Par("a1"), Par("a2")
    X0, rs0 = c.run(b, intr=intr_of(c), canon=(key,))
    site, name = where(b), "get_with_proof"

    def go():
        w = Walk(c, X0, rs0, Fld(Par("self"), reader_of(c)))
        X, rs = w.X, w.rs
        nib = w.key_nibbles(rep, name, site, Fld(key, "0"))
        w.long_enough(rep, name, site)
        w.start(rep, name, site, ver)
        w.step(rep, name, site, nib)
        child = T("child1", w.internal, w.K, nib)
        sibs = T("sibs1", w.internal, w.reader, w.K, nib)
        S = accumulator(w, rs)
        rev = lambda s: T("reversed", s)
        more = w.loop.vars[S]["next"]
        front = Seq(T("extended", rev(sibs), S))      # gathered from the back: the last node's siblings first
        back = bool(more) and all(verdict(X, front, nx, f)[0] is True for f, nx in more)
        for f, nx in more:
            put(rep, verdict(X, front if back else Seq(T("extended", S, sibs)), nx, f), name + "/siblings collected", site)
        whole = Seq(S) if back else Seq(rev(S))
        last = front if back else Seq(rev(T("extended", S, sibs)))
        val = lambda k: T(k, w.reader, ver, key)
        same = Eq(Fld(key, "0"), Fld(Fld(w.leaf, nn.lk), "0"))
        lf = proof_leaf(n, nn, w.leaf)
        isl, isi, isn = (Is(w.node, k) for k in ("Leaf", "Internal", "Null"))
        more = [k for k in (T("hasnext", nib.a[0], 0, w.uid),)]
        rows = [
            Row("unreadable root", [Not(w.ok)] + w.zero, And_(IsErr(), Raised("MissingRootError", ver))),
            Row("unreadable node", [Not(w.ok)] + w.below(), IsErr()),
            Row("missing root", [w.ok, Not(w.here)] + w.zero, And_(IsErr(), Raised("MissingRootError", ver))),
            Row("missing node", [w.ok, Not(w.here)] + w.below(), IsErr()),
            Row("null root", [w.ok, w.here, isn] + w.zero, Con("Ok", Tu(Con("None"), proof(n, Con("None"), Seq(T("vec0"), rev(S), S))))),
            Row("null below the root", [w.ok, w.here, isn] + w.below(), IsErr()),
            Row("key found", [w.ok, w.here, isl, same, val("valok"), val("valhere")],
                Con("Ok", Tu(Con("Some", val("val")), proof(n, lf, whole)))),
            Row("value unreadable", [w.ok, w.here, isl, same, Not(val("valok"))], IsErr()),
            Row("value missing", [w.ok, w.here, isl, same, val("valok"), Not(val("valhere"))], IsErr()),
            Row("other key", [w.ok, w.here, isl, Not(same)], Con("Ok", Tu(Con("None"), proof(n, lf, whole)))),
            Row("empty child", [w.ok, w.here, isi, Is(child, "None")] + more,
                Con("Ok", Tu(Con("None"), proof(n, Con("None"), last)))),
            Row("child", [w.ok, w.here, isi, Is(child, "Some")] + more, Never(), optional=True),
            Row("no nibble left", [w.ok, w.here, isi] + [Not(m) for m in more], IsErr(), optional=True),
        ]
        ends = [(st, v) for st, v in rs if w.ok not in st.facts]
        for st, v in ends:
            r = match(X, st, IsErr(), v)
            rep.put(r[0] if r[0] is not False else (None if alien_path(X, st) else False), name + "/gave up", site, r[1])
        table(rep, X, name, site, [(st, v) for st, v in rs if w.ok in st.facts], rows, odd=w.odd({S}))
    guarded(rep, name, site, go)


class And_(M):
    def __init__(self, *ms):
        self.ms = ms

    def m(self, X, st, v):
        for m in self.ms:
            r = match(X, st, m, v)
            if r[0] is not True:
                return r
        return True, ""


class Raised(M):
    """the error carries the given error type and version"""

    def __init__(self, ty, ver):
        self.ty, self.ver = ty, ver

    def m(self, X, st, v):
        for t in list(st.did) + [v]:
            for s in subterms(t) if isinstance(t, Term) else ():
                if s.op == "agg" and s.a[0].split("::")[-1] == self.ty:
                    return (True, "") if s.a[3][0] is self.ver else (False, "reports version %s" % short(s.a[3][0]))
        return (False if v is not None and is_err(v) and show(v).find("err(") >= 0 else None), "does not report %s" % self.ty


def accumulator(w, rs):
    """the sequence of siblings gathered on the way"""
    out = [k for k, d in w.loop.vars.items() if k.op == "loopvar" and d["init"].op == "vec0"]
    if len(out) != 1:
        raise Undet("the list gathered by the walk was not recognised")
    return out[0]


# ------------------------------------------------------------------ range proofs
def tree(c, name):
    return c.method("JellyfishMerkleTree", name)


@prop("C14", floor=3)
def range_proof(c, rep):
    b = tree(c, "get_range_proof")
    n = Names(c)
    gp = tree(c, "get_with_proof")
    key, ver = Par("a1"), Par("a2")
    X, rs = c.run(b, opaque=[gp["id"]])
    site, name = where(b), "get_range_proof"
    g = the_call(X, rs, gp["name"], (Par("self"), key, ver))
    pr = Fld(As(g, "Ok"), "0")
    sibs = Fld(Fld(pr, "1"), n.sibs)

    def step(el, cel, acc):
        s, bit = el
        return [([(bit, False)], T("pushed", acc, s)), ([bit], acc)]
    fold = Fold([T("rev", T("iter", sibs)), T("iter", T("bits", Fld(key, "0")))], T("vec0"), step)
    rows = [Row("lookup fails", [Is(g, "Err")], IsErr()),
            Row("key absent", [Is(g, "Ok"), Is(Fld(pr, "0"), "None")], IsErr()),
            Row("key present", [Is(g, "Ok"), Is(Fld(pr, "0"), "Some")], Con("Ok", Fields(**{n.right: Reversed(fold)})))]
    table(rep, X, name, site, rs, rows)


class Reversed(M):
    def __init__(self, inner):
        self.inner = inner

    def m(self, X, st, v):
        if v.op == "reversed":
            return match(X, st, self.inner, v.a[0])
        if v.op == "loopvar":
            return False, "is not in bottom-up order: %s" % short(v)
        return None, "is %s" % short(v)


def the_call(X, rs, name, args, opt=False):
    """the term of a call that was kept opaque, with the expected arguments"""
    found = []
    for st, v in rs:
        for t in list(st.did) + [k for k in st.facts if isinstance(k, Term)] + [v]:
            for s in subterms(t) if isinstance(t, Term) else ():
                if s.op == "call" and isinstance(s.a[0], str) and s.a[0].split("::")[-1] == name and s not in found:
                    found.append(s)
    for s in found:
        if s.a[1] == tuple(args):
            return s
    if found and not any(alien(X, a) for s in found for a in s.a[1]):
        return Call(found[0].a[0], *args)
    raise Undet("no call of %s recognised" % name)


# ------------------------------------------------------------------ roots, values, counts
def root_rows(c, ver, some, none):
    """rows over the root node of a version: some(node) -> [(guards, outcome)], none: outcome without a root"""
    n = NN(c)
    empty = EmptyPath

    def mk(K):
        R = Fld(Par("self"), reader_of(c))
        ok, here, node = T("nodeok", R, K), T("nodehere", R, K), T("node", R, K)
        rows = [Row("unreadable", [Not(ok)], IsErr()), Row("absent", [ok, Not(here)], none)]
        for i, (g, o) in enumerate(some(node)):
            rows.append(Row("present%d" % i, [ok, here] + g, o))
        return rows
    return mk


def node_keys(X, rs, R):
    out = []
    for f in all_facts(X, rs):
        for t in f:
            if isinstance(t, Term):
                for s in subterms(t):
                    if s.op == "nodeok" and s.a[0] is R and s.a[1] not in out:
                        out.append(s.a[1])
    return out


def root_table(c, rep, fname, ver, some, none):
    b = tree(c, fname)
    intr = {**storage(c), **merkle_intr(c)[1], **Dom(c).bitmaps()}
    X, rs = c.run(b, intr=intr)
    R = Fld(Par("self"), reader_of(c))
    ks = node_keys(X, rs, R)
    site = where(b)
    if len(ks) > 1:
        ks = [k for k in ks if verdict(X, rootkey(NN(c), ver), k)[0] is True]
    if len(ks) != 1:
        rep.undet(fname, site, "the root lookup was not recognised")
        return
    put(rep, verdict(X, rootkey(NN(c), ver), ks[0]), fname + "/root key", site)
    table(rep, X, fname, site, rs, root_rows(c, ver, some, none)(ks[0]))


def node_hash_cases(c, node):
    nn = NN(c)
    for r in node_hash_rows(nn, "H", node):
        yield r.guards, r.out


@prop("C15", floor=22)
def roots(c, rep):
    nn = NN(c)
    ver = Par("a1")
    h = "H"
    root_table(c, rep, "get_root_node_option", ver, lambda nd: [([], Con("Ok", Con("Some", nd)))], Con("Ok", Con("None")))
    root_table(c, rep, "get_root_hash_option", ver,
               lambda nd: [(g, Con("Ok", Con("Some", Fields(**{"0": o})))) for g, o in node_hash_cases(c, nd)], Con("Ok", Con("None")))
    root_table(c, rep, "get_root_hash", ver,
               lambda nd: [(g, Con("Ok", Fields(**{"0": o}))) for g, o in node_hash_cases(c, nd)], IsErr())
    root_table(c, rep, "get_leaf_count", ver,
               lambda nd: [([Is(nd, "Null")], Con("Ok", Int(0))), ([Is(nd, "Leaf")], Con("Ok", Int(1))),
                           ([Is(nd, "Internal")], Con("Ok", Fld(Fld(As(nd, "Internal"), "0"), nn.count)))], IsErr())


@prop("C15", floor=3)
def get(c, rep):
    b = tree(c, "get")
    key, ver = Par("a1"), Par("a2")
    X, rs = c.run(b, intr=storage(c), canon=(key,))
    a = (Fld(Par("self"), reader_of(c)), ver, key)
    ok, here, val = T("valok", *a), T("valhere", *a), T("val", *a)
    table(rep, X, "get", where(b), rs, [Row("unreadable", [Not(ok)], IsErr()), Row("absent", [ok, Not(here)], Con("Ok", Con("None"))),
                                        Row("present", [ok, here], Con("Ok", Con("Some", val)))])


# ------------------------------------------------------------------ neighbours of an absent key
@prop("C16", floor=14)
def search(c, rep):
    b = tree(c, "search_for_closest_node")
    nn = NN(c)
    ver, key = Par("a1"), Par("a2")
    X0, rs0 = c.run(b, intr=intr_of(c))
    site, name = where(b), "search_for_closest_node"

    def go():
        w = Walk(c, X0, rs0, Fld(Par("self"), reader_of(c)))
        X, rs = w.X, w.rs
        nib = w.key_nibbles(rep, name, site, Fld(key, "0"))
        w.long_enough(rep, name, site)
        w.start(rep, name, site, ver)
        w.step(rep, name, site, nib)
        P = accumulator(w, rs)
        for f, nx in w.loop.vars[P]["next"]:
            put(rep, verdict(X, Seq(T("pushed", P, w.internal)), nx, f), name + "/parents collected", site)
        it = nib.a[0]
        pos = T("itpos", it, w.uid)
        child = T("child1", w.internal, w.K, nib)
        isl, isi, isn = (Is(w.node, k) for k in ("Leaf", "Internal", "Null"))
        more = T("hasnext", it, 0, w.uid)
        lk = Fld(w.leaf, nn.lk)
        lt, eq = Lt(Fld(lk, "0"), Fld(key, "0")), Eq(Fld(lk, "0"), Fld(key, "0"))

        def found(o):
            return Con("Ok", SR("FoundLeaf", **{"ordering": Con(o), "leaf_hash": lk, "path_to_leaf": Path(pos, 0), "parents": Seq(P)}))
        rows = [
            Row("unreadable", [Not(w.ok)], IsErr()),
            Row("missing", [w.ok, Not(w.here)], IsErr()),
            Row("null", [w.ok, w.here, isn], IsErr()),
            Row("leaf left", [w.ok, w.here, isl, lt, Not(eq)], found("Less")),
            Row("leaf equal", [w.ok, w.here, isl, eq, Not(lt)], found("Equal")),
            Row("leaf right", [w.ok, w.here, isl, Not(lt), Not(eq)], found("Greater")),
            Row("empty child", [w.ok, w.here, isi, Is(child, "None"), more],
                Con("Ok", SR("FoundInternal", **{"path_to_internal": Path(pos, 1), "parents": Seq(T("pushed", P, w.internal))}))),
            Row("child", [w.ok, w.here, isi, Is(child, "Some"), more], Never(), optional=True),
            Row("no nibble left", [w.ok, w.here, isi, Not(more)], IsErr(), optional=True),
        ]
        ended(c, rep, X, rs, w, name, site)
        table(rep, X, name, site, [(st, v) for st, v in rs if w.ok in st.facts], rows, odd=w.odd({P}))
    guarded(rep, name, site, go)


def ended(c, rep, X, rs, w, name, site):
    for st, v in rs:
        if w.ok not in st.facts:
            r = match(X, st, IsErr(), v)
            rep.put(None if r[0] is False and alien_path(X, st) else r[0], name + "/gave up", site, r[1])


class SR(M):
    """enum value with named fields, fields missing from the type ignored"""

    def __init__(self, variant, **ms):
        self.variant, self.ms = variant, ms

    def m(self, X, st, v):
        if v.op == "agg" and v.a[1] != self.variant:
            return False, "returns %s, expected %s" % (short(v), self.variant)
        if v.op != "agg":
            return None, "value not determined: %s" % short(v)
        for n, m in self.ms.items():
            if n not in v.a[2]:
                return None, "no field %s" % n
            r = match(X, st, m, Fld(v, n))
            if r[0] is not True:
                return r[0], "%s: %s" % (n, r[1])
        return True, ""


class Path(M):
    """the nibbles an iterator (moved on by n) has visited, as a path"""

    def __init__(self, pos, n):
        self.pos, self.n = pos, n

    def m(self, X, st, v):
        if v.op == "npath" and v.a[0].op == "visited":
            base, k = unadv(v.a[0].a[0])
            if base is self.pos:
                return (True, "") if k == self.n else (False, "holds %+d nibbles more than the path walked" % (k - self.n))
        if v.op == "agg" and v.a[0].endswith("NibblePath") and alien(X, v) is None:
            return False, "is the path %s, expected the nibbles walked" % short(v)
        return None, "path not determined: %s" % short(v)


class Sig:
    """parameters of a private function by type, so that their order does not matter"""

    def __init__(self, b, *pats):
        self.b, self.at = b, []
        for p in pats:
            ix = [i for i in range(1, b["argc"]) if re.search(p, b["locals"][i + 1])]
            if len(ix) != 1:
                raise Anchor("parameter %s of %s" % (p, b["path"]))
            self.at.append(ix[0])
        if len(set(self.at)) != b["argc"] - 1:
            raise Anchor("parameters of %s" % b["path"])

    def par(self, i):
        return Par("a%d" % self.at[i])

    def args(self, *vals):
        out = [Par("self")] + [None] * len(vals)
        for i, v in zip(self.at, vals):
            out[i] = v
        return out

    def arg(self, call, i):
        return call.a[1][self.at[i]]


VER, KH, EXT, PATH, NODES, NKEY, DEPTH = r"^u64$", r"KeyHash$", r"Extreme$", r"NibblePath$", r"Vec<.*InternalNode>$", r"NodeKey$", r"^usize$"
LEFT, RIGHT = (lambda x: Is(x, "Left")), (lambda x: Is(x, "Right"))


def reduces(X, rs):
    out = []
    for st, v in rs:
        for k in list(st.facts) + [v]:
            for s in subterms(k) if isinstance(k, Term) else ():
                if s.op == "reduce" and s not in out:
                    out.append(s)
    return out


def relabel(rs, m):
    """results with terms replaced"""
    out = []
    for st, v in rs:
        memo = {}
        f = {}
        for k, x in st.facts.items():
            f[substm(k, m, memo) if isinstance(k, Term) else
              tuple(substm(y, m, memo) if isinstance(y, Term) else y for y in k) if isinstance(k, tuple) else k] = x
        out.append((State(st.env, f, frozenset(substm(d, m, memo) for d in st.did)), substm(v, m, memo)))
    return out


PICKS = (lambda nb, ch: Tup(nb, ch), lambda nb, ch: Tup(nb, Fld(ch, "version")), lambda nb, ch: nb)
KINDS = {"max": ("max", "max_by_key", "last"), "min": ("min", "min_by_key")}


def extremum(X, st, r, children, keep):
    """r is the child with the least/greatest nibble among those `keep`s, as picked: (verdict, message, picked)"""
    alone = r.a[0] in ("min", "max", "last")
    res = []
    for pick in PICKS:
        def step(el, cel, acc):
            e, i = el[0]
            nb, ch = nibble(i), Fld(As(e, "Some"), "0")
            x = pick(nb, ch)
            new = T("pushed", acc, x if alone else Tup(x, nb))
            out = [([Is(e, "None")], acc, set(), True)]
            for g, inn in keep(i):
                out.append(([Is(e, "Some")] + g, new if inn else acc))
            return out
        ok, msg = Fold([Over(children)], T("vec0"), step).m(X, st, r.a[1])
        if ok is True:
            return ok, msg, pick
        res.append((ok, msg))
    return (None if any(x[0] is None for x in res) else False), res[0][1], None


def best_terms(X, rs, arr, keeps):
    """name the extremum terms that are what one of `keeps` = {name: (kind, keep)} asks for; the others, when
    understood, are reported"""
    m, wrong = {}, []
    for st, v in rs:
        for r in reduces(X, [(st, v)]):
            if r in m:
                continue
            got = []
            for nm, (kind, keep) in keeps.items():
                if r.a[0] not in KINDS[kind]:
                    got.append((False, "takes the %s" % r.a[0]))
                    continue
                ok, msg, pick = extremum(X, st, r, arr, keep)
                if ok is True:
                    m[r] = b = T("best", nm)
                    if pick is not PICKS[0]:
                        x = Fld(As(r, "Some"), "0")
                        nb, ch = bestchild(b)
                        m[x] = pick(nb, ch)
                        if pick is PICKS[1]:
                            m[Fld(x, "0")], m[Fld(x, "1")] = nb, Fld(ch, "version")
                got.append((ok, msg))
            if r not in m and all(g[0] is False for g in got):
                m[r] = T("best", "wrong")
                wrong.append("; ".join(g[1] for g in got))
    return m, wrong


def scanned(X, facts, arr):
    """whether the children were looked through to the end, or given to something not understood"""
    return any(s.op in ("hasnext", "reduce") and arr in subterms(s) for k in facts if isinstance(k, Term) for s in subterms(k))


def bestchild(b):
    e = Fld(As(b, "Some"), "0")
    return Fld(e, "0"), Fld(e, "1")


@prop("C16", floor=6)
def neighbour(c, rep):
    """climbing to the nearest subtree on one side"""
    b = tree(c, "search_closest_extreme_node")
    ek = tree(c, "get_extreme_key_hash")
    sg, se = Sig(b, VER, EXT, PATH, NODES), Sig(ek, VER, NKEY, DEPTH, EXT)
    nn = NN(c)
    ver, ext = sg.par(0), sg.par(1)
    X, rs = c.run(b, intr=Dom(c).path(), opaque=[ek["id"]])
    site, name = where(b), "search_closest_extreme_node"

    def go():
        ls = [(L, k, q) for L in X.loops.values() for k, d in L.vars.items() for q, e in L.vars.items()
              if d["init"] is sg.par(2) and e["init"] is sg.par(3)]
        if len(ls) != 1:
            raise Undet("the climb was not recognised")
        L, P, Q = ls[0]
        for v, op, what in ((P, "ppop", "path"), (Q, "popped", "parents")):
            for f, nx in L.vars[v]["next"]:
                rep.put(True if nx is T(op, v) else False if nx is v or nx.op in ("ppop", "popped", "ppush") else None,
                        name + "/" + what + " shortened", site, "next %s is %s" % (what, short(nx)))
        node = T("lastof", Q)
        arr = Fld(Fld(node, nn.children), nn.arr)
        here = Fld(T("plast", P), "0")
        keeps = {"Left": ("max", lambda i: [([Lt(i, here)], True), ([Not(Lt(i, here))], False)]),
                 "Right": ("min", lambda i: [([Lt(here, i)], True), ([Not(Lt(here, i))], False)])}
        m, wrong = best_terms(X, rs, arr, keeps)
        rs2 = relabel(rs, m)
        bys = {b_ for b_ in m.values() if b_.op == "best"}
        if not bys:
            raise Undet("the choice of the neighbour was not recognised")
        more = [Not(T("pempty", P)), Not(Eq(Int(0), Len(Q)))]
        for st, nx in relabel([(State({}, f), nx) for f, nx in L.vars[P]["next"]], m):
            side = next((s for s, t in (("Left", LEFT(ext)), ("Right", RIGHT(ext))) if implied(st.facts, t) is True), None)
            none = [side is not None and implied(st.facts, Is(x, "None")) is True for x in bys if x.a[0] == side]
            ok = True if any(none) else None if alien_path(X, st) or scanned(X, st.facts, arr) else False
            rep.put(ok, name + "/climbs on", site, "climbs past a level without finding that it has no child on the side searched, on the path where %s" % describe(st.facts))
        rows = [Row("at the root", [T("pempty", P)], Con("Ok", Con("None")), optional=True),
                Row("no parent", [Eq(Int(0), Len(Q))], Con("Ok", Con("None")), optional=True)]
        got = T("descended")
        for side, g, opp in (("Left", [LEFT(ext)], "Right"), ("Right", [RIGHT(ext)], "Left")):
            rows.append(Row(side + ": none here", more + g + [Is(x, "None") for x in bys if x.a[0] == side] , Never(), optional=True))
            rows.append(Row(side + ": found", more + g + [Is(got, "Ok")], Con("Ok", Con("Some", Fld(As(got, "Ok"), "0")))))
            rows.append(Row(side + ": unreadable", more + g + [Is(got, "Err")], IsErr()))
        out = []
        for st, v in rs2:
            side = next((s for s, t in (("Left", LEFT(ext)), ("Right", RIGHT(ext))) if implied(st.facts, t) is True), None)
            mm = {}
            for call in st.did:
                if call.op != "call" or call.a[0].split("::")[-1] != ek["name"]:
                    continue
                if side is None:
                    raise Undet("the side searched was not recognised")
                bt = [x for x in bys if any(x in subterms(y) for y in call.a[1])]
                if len(bt) != 1:
                    raise Undet("the neighbour descended into was not recognised")
                if bt[0].a[0] != side:
                    rep.bad(name + "/" + side + ": neighbour", site, "does not descend into the nearest child on the %s: %s" % (
                        side.lower(), "; ".join(wrong)))
                    continue
                nb, ch = bestchild(bt[0])
                path = T("ppush", T("ppop", P), nb)
                r = match(X, st, Fields(**{nn.kver: Fld(ch, "version"), nn.kpath: path}), se.arg(call, 1))
                rep.put(r[0], name + "/" + side + ": node descended into", site, r[1])
                d = se.arg(call, 2)
                rep.put(True if d is Fld(path, "num_nibbles") else None, name + "/" + side + ": depth", site, short(d))
                r = match(X, st, Con("Right" if side == "Left" else "Left"), se.arg(call, 3))
                rep.put(r[0], name + "/" + side + ": side of the subtree", site, r[1])
                mm[call] = got
            out += relabel([(st, v)], mm)
        table(rep, X, name, site, out, rows)
    guarded(rep, name, site, go)


@prop("C16", floor=9)
def extreme(c, rep):
    """descending to the least or greatest key of a subtree"""
    b = tree(c, "get_extreme_key_hash")
    sg = Sig(b, VER, NKEY, DEPTH, EXT)
    nn = NN(c)
    X0, rs0 = c.run(b, intr={**intr_of(c), **Dom(c).path()})
    site, name = where(b), "get_extreme_key_hash"
    ext = sg.par(3)

    def go():
        w = Walk(c, X0, rs0, Fld(Par("self"), reader_of(c)))
        X, rs = w.X, w.rs
        put(rep, verdict(X, sg.par(1), w.init(w.K)), name + "/start", site)
        if w.driver is not None:
            e = Fld(w.driver, "end")
            rep.put((e.a[0] + (1 if "Inclusive" in w.driver.a[0] else 0) >= 65) if e.op == "int" else None, name + "/depth", site,
                    "walk bounded by %s" % short(w.driver))
        arr = Fld(Fld(w.internal, nn.children), nn.arr)
        allc = lambda i: [([], True)]
        keeps = {"Left": ("min", allc), "Right": ("max", allc)}
        # the choice made on the paths that go on to the next node
        nexts = [(State({}, f), nx) for f, nx in w.nexts(w.K)]
        m, wrong = best_terms(X, nexts, arr, keeps)
        if not m:
            raise Undet("the choice of the child was not recognised")
        for st, nx in relabel(nexts, m):
            side = next((s for s, t in (("Left", LEFT(ext)), ("Right", RIGHT(ext))) if implied(st.facts, t) is True), None)
            if side is None:
                raise Undet("the side searched was not recognised")
            bt = [x for x in set(m.values()) if x.op == "best" and x in subterms(nx)]
            if len(bt) != 1:
                raise Undet("the child descended into was not recognised")
            rep.put(bt[0].a[0] == side, name + "/" + side + ": child", site, "does not take the %s child: %s" % (
                "least" if side == "Left" else "greatest", "; ".join(wrong) or bt[0].a[0]))
            nb, ch = bestchild(bt[0])
            from rules.cache import Key
            # the only leaf that the range of a child that is there can have is that child
            slot = Fld(As(Idx(arr, Fld(nb, "0")), "Some"), "0")
            want = OneOf(Fld(As(T("child1", w.internal, w.K, nb), "Some"), "0"),
                         Key(OneOf(Fld(slot, "version"), Fld(ch, "version")), T("ppush", Fld(w.K, nn.kpath), nb)))
            r = match(X, st, want, nx)
            rep.put(r[0], name + "/" + side + ": next node", site, r[1])
        isl, isi, isn = (Is(w.node, k) for k in ("Leaf", "Internal", "Null"))
        rows = [Row("unreadable", [Not(w.ok)], IsErr()), Row("missing", [w.ok, Not(w.here)], IsErr()),
                Row("leaf", [w.ok, w.here, isl], Con("Ok", Fld(w.leaf, nn.lk))),
                Row("null", [w.ok, w.here, isn], IsErr()),
                Row("no child", [w.ok, w.here, isi], IsErr(), optional=True)]
        ended(c, rep, X, rs, w, name, site)
        table(rep, X, name, site, [(st, v) for st, v in relabel(rs, {}) if w.ok in st.facts and not reduces(X, [(st, v)])], rows)
    guarded(rep, name, site, go)


@prop("C16", floor=8)
def bounding(c, rep):
    b = tree(c, "get_bounding_path")
    se, ex = tree(c, "search_for_closest_node"), tree(c, "search_closest_extreme_node")
    sb, ss, sx = Sig(b, KH, VER), Sig(se, VER, KH), Sig(ex, VER, EXT, PATH, NODES)
    key, ver = sb.par(0), sb.par(1)
    X, rs = c.run(b, opaque=[se["id"], ex["id"]])
    site, name = where(b), "get_bounding_path"

    def go():
        s = the_call(X, rs, se["name"], ss.args(ver, key))
        nm = the_call(X, rs, ex["name"], ())
        r = Fld(As(s, "Ok"), "0")
        lf, it = As(r, "FoundLeaf"), As(r, "FoundInternal")
        side = lambda e, p, n: Call(nm.a[0], *sx.args(ver, Agg("tree::Extreme", e, (), ()), p, n))
        lp, ln, ip, in_ = Fld(lf, "path_to_leaf"), Fld(lf, "parents"), Fld(it, "path_to_internal"), Fld(it, "parents")
        o, lh = Fld(lf, "ordering"), Fld(lf, "leaf_hash")
        A, B = side("Right", lp, ln), side("Left", lp, ln)
        C, D = side("Right", ip, in_), side("Left", ip, in_)
        v = lambda t: Fld(As(t, "Ok"), "0")
        base = [Is(s, "Ok")]
        L, I = base + [Is(r, "FoundLeaf")], base + [Is(r, "FoundInternal")]
        rows = [Row("search fails", [Is(s, "Err")], IsErr()),
                Row("leaf left", L + [Is(o, "Less"), Is(A, "Ok")], Con("Ok", Tu(Con("Some", lh), v(A)))),
                Row("leaf left, unreadable", L + [Is(o, "Less"), Is(A, "Err")], IsErr()),
                Row("leaf right", L + [Is(o, "Greater"), Is(B, "Ok")], Con("Ok", Tu(v(B), Con("Some", lh)))),
                Row("leaf right, unreadable", L + [Is(o, "Greater"), Is(B, "Err")], IsErr()),
                Row("the key itself", L + [Is(o, "Equal")], IsErr()),
                Row("empty slot", I + [Is(C, "Ok"), Is(D, "Ok")], Con("Ok", Tu(v(D), v(C)))),
                Row("empty slot, right unreadable", I + [Is(C, "Err")], IsErr()),
                Row("empty slot, left unreadable", I + [Is(D, "Err")], IsErr())]
        table(rep, X, name, site, rs, rows)
    guarded(rep, name, site, go)


@prop("C16", floor=10)
def exclusion(c, rep):
    b = tree(c, "get_with_exclusion_proof")
    gp, gb = tree(c, "get_with_proof"), tree(c, "get_bounding_path")
    sb = Sig(gb, KH, VER)
    key, ver = Par("a1"), Par("a2")
    X, rs = c.run(b, opaque=[gp["id"], gb["id"]])
    site, name = where(b), "get_with_exclusion_proof"

    def go():
        p = the_call(X, rs, gp["name"], (Par("self"), key, ver))
        q = the_call(X, rs, gb["name"], sb.args(key, ver))
        pv, pp = Fld(Fld(As(p, "Ok"), "0"), "0"), Fld(Fld(As(p, "Ok"), "0"), "1")
        bd = Fld(As(q, "Ok"), "0")
        l, r = Fld(bd, "0"), Fld(bd, "1")
        pf = lambda k: Call(p.a[0], Par("self"), Fld(As(k, "Some"), "0"), ver)
        lp, rp = pf(l), pf(r)
        sib = lambda t: Fld(Fld(As(t, "Ok"), "0"), "1")
        absent = [Is(p, "Ok"), Is(pv, "None")]
        bound = absent + [Is(q, "Ok")]
        ok = lambda v, **k: Con("Ok", Con("Err", SR(v, **k)))
        rows = [Row("lookup fails", [Is(p, "Err")], IsErr()),
                Row("key present", [Is(p, "Ok"), Is(pv, "Some")], Con("Ok", Con("Ok", Tu(Fld(As(pv, "Some"), "0"), pp)))),
                Row("search fails", absent + [Is(q, "Err")], IsErr()),
                Row("between", bound + [Is(l, "Some"), Is(r, "Some"), Is(lp, "Ok"), Is(rp, "Ok")],
                    ok("Middle", leftmost_right_proof=sib(rp), rightmost_left_proof=sib(lp))),
                Row("after the last key", bound + [Is(l, "Some"), Is(r, "None"), Is(lp, "Ok")], ok("Rightmost", rightmost_left_proof=sib(lp))),
                Row("before the first key", bound + [Is(l, "None"), Is(r, "Some"), Is(rp, "Ok")], ok("Leftmost", leftmost_right_proof=sib(rp))),
                Row("no neighbour", bound + [Is(l, "None"), Is(r, "None")], IsErr()),
                Row("left proof fails", bound + [Is(l, "Some"), Is(lp, "Err")], IsErr()),
                Row("right proof fails", bound + [Is(r, "Some"), Is(rp, "Err")], IsErr())]
        table(rep, X, name, site, rs, rows)
    guarded(rep, name, site, go)
