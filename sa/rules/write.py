"""Write path: what an insertion or deletion changes in the tree, what it marks stale, and what it proves."""
import re
from rules import prop
from rules.domain import *
from rules.nodes import *
from rules.proofs import Names
from rules.read import (Sig, Seq, And_, EmptyPath, proof, proof_leaf, put, verdict, guarded, tree, the_call, relabel,
                        VER, NKEY, KH, DEPTH)
from spec import *
from terms import *

ITER, OVAL, CACHE, FLAG, INODE, LNODE = r"NibbleIterator", r"^std::option::Option<.*ValueHash>$", r"TreeCache<", r"^bool$", \
    r"InternalNode$", r"LeafNode$"


# ------------------------------------------------------------------ effects on the cache
def history(cache):
    """writes made to the cache, oldest first, and what the cache was before"""
    out = []
    while True:
        o = cache.op
        if o in ("del", "put", "setroot", "putval", "freeze", "putfailed"):
            out.append((o,) + tuple(cache.a[1:]))
            cache = cache.a[0]
        elif o == "mut":
            args = cache.a[2]
            prev = args[cache.a[1]]
            out.append(("call", T("call", cache.a[0], args)))
            cache = prev
        else:
            return cache, out[::-1]


class Hist(M):
    """exactly these writes; two writes that may concern the same node keep their order"""

    def __init__(self, base, *want, only=None):
        self.base, self.want, self.only = base, want, only

    def keep(self, *kinds):
        return Hist(self.base, *self.want, only=kinds)

    def m(self, X, st, v):
        base, got = history(v)
        if base is not self.base:
            return (None if base.op not in ("par", "loopvar") else False), "the cache was %s before" % short(base, 80)
        if self.only:
            pick = lambda xs: [x for x in xs if x[0] in self.only]
            return effects(X, st, pick(self.want), pick(got), got)
        return effects(X, st, self.want, got, got)


def effects(X, st, want, got, all_):
    left = list(range(len(got)))
    calls = [w for w in want if w[0] == "call"]
    foreign = lambda gs: any(g[0] == "call" and not any(w[1](g[1]) for w in calls) for g in gs)
    at, und = [], None
    for w in want:
        hit, why, same = None, None, []
        for i in left:
            g = got[i]
            if g[0] != w[0]:
                continue
            r = same_effect(X, st, w, g)
            if r[0] is True:
                hit = i
                break
            if r[0] is None and und is None:
                und = "%s: %s" % (label(g), r[1])
            same.append((g, r))
        if hit is None:
            why = "; ".join("%s: %s" % (label(g), r[1]) for g, r in same[:2]) or "none is made"
            return (None if any(r[0] is None for _, r in same) or foreign(got) else False), \
                "%s is missing (%s)" % (wlabel(w), why)
        left.remove(hit)
        at.append(hit)
    if left:
        return (None if foreign([got[i] for i in left]) else False), "also writes %s" % label(got[left[0]])
    for i in range(len(at)):
        for j in range(i + 1, len(at)):
            if at[i] > at[j] and ordered(got[at[i]], got[at[j]]):
                return False, "%s comes after %s" % (label(got[at[i]]), label(got[at[j]]))
    if any(w[0] == "del" for w in want):
        for i, a in enumerate(all_):
            for b in all_[i + 1:]:
                if a[0] == "put" and b[0] == "del" and same_path(a[1], b[1]):
                    return False, "%s comes before %s" % (label(a), label(b))
    return True, ""


def same_path(a, b):
    return Fld(a, "nibble_path") is Fld(b, "nibble_path")


def ordered(a, b):
    if a[0] in ("del", "put") and b[0] in ("del", "put"):
        return not (separate(a[1], b[1]) or a[0] == b[0] and slots(a[1], b[1]))
    if "call" in (a[0], b[0]):
        return a[0] == b[0]
    return a[0] == b[0] or "freeze" in (a[0], b[0])


def slots(a, b):
    """the keys of two different children of one node, in a case that has both"""
    p, q = Fld(a, "nibble_path"), Fld(b, "nibble_path")
    return p.op == q.op == "ppush" and p.a[0] is q.a[0] and p.a[1] is not q.a[1]


def same_effect(X, st, w, g):
    if w[0] == "call":
        return (True, "") if w[1](g[1]) else (None, "another call %s" % short(g[1], 90))
    for m, x in zip(w[1:], g[1:]):
        r = match(X, st, m, x)
        if r[0] is not True:
            return r
    return True, ""


def label(g):
    if g[0] == "call":
        return "the call %s" % short(g[1], 100)
    return {"del": "removing node %s", "put": "storing a node under %s", "setroot": "root %s", "putval": "value at %s",
            "freeze": "freeze%s", "putfailed": "failed write %s"}[g[0]] % (short(g[1], 110) if len(g) > 1 else "")


def wlabel(w):
    return {"del": "the removal of a replaced node", "put": "a stored node", "setroot": "the new root", "putval": "the value record",
            "freeze": "freeze", "call": "the recursive call"}[w[0]]


def failures(st):
    """conditions of the path under which an operation it needs has failed"""
    out = []
    for k, x in st.facts.items():
        if not isinstance(k, Term):
            continue
        if k.op in ("putok", "nodeok", "nodehere", "freezeok", "cacheok") and x is False:
            out.append(k)
        elif k.op == "is" and k.a[0].op == "call" and ((k.a[1] == "Err" and x) or (k.a[1] == "Ok" and not x)):
            if not k.a[0].a[0].endswith("try_into"):
                out.append(k)
    return out


class Pass:
    """an analysed writer: its paths, apart from those on which a needed operation failed, which must err"""

    def __init__(self, c, rep, name, sig, opaque=(), flag=None, extra=None, absent_ok=False, **k):
        self.c, self.rep, self.X = c, rep, None
        b = tree(c, name)
        self.b, self.name, self.site = b, name, where(b)
        self.sig = Sig(b, *sig) if sig else None
        self.cache = self.par(CACHE) if sig else None
        intr = {**traversal(c), **Dom(c).path(), **treecache(c), **children(c), **positions(c), **(extra or {})}
        args = {}
        if flag is not None:
            args[self.index(FLAG)] = TRUE if flag else FALSE
            self.name += " with proof" if flag else " without proof"
        ops = [tree(c, n)["id"] for n in opaque]
        self.X, rs = c.run(b, intr=intr, opaque=ops, args=args, kmax=400, **k)
        self.X.vocab = ["::" + n for n in opaque] + ["try_into"]
        rs = tidy(rs)
        seen = set()
        for L in self.X.loops.values():
            for d in L.vars.values():
                for f, nx in d["next"]:
                    s = State({}, dict(f))
                    for x in failures(s):
                        if alien_path(self.X, s) is None and not (absent_ok and x.op == "nodehere") and show(x) not in seen:
                            seen.add(show(x))
                            rep.put(False, self.name + "/failure passed on", self.site, "a loop goes on although %s failed" % short(x, 90))
        self.rs = []
        for st, v in rs:
            for w in worlds(st.facts):
                s = State(st.env, w, st.did)
                bad = [f for f in failures(s) if not (absent_ok and f.op == "nodehere")]
                if not bad:
                    self.rs.append((s, v))
                    continue
                r = match(self.X, s, IsErr(), v)
                rep.put(r[0] if r[0] is not False or alien_path(self.X, s) is None else None,
                        self.name + "/failure passed on", self.site, "%s although %s failed" % (r[1], short(bad[0], 90)))

    def ret(self, rows):
        table(self.rep, self.X, self.name, self.site, self.rs, rows)

    def index(self, pat):
        return [i for i in range(self.b["argc"]) if re.search(pat, self.b["locals"][i + 1])][0]

    def par(self, pat):
        i = self.index(pat)
        return Par("a%d" % i) if i else Par("self")

    def after(self, s):
        return s.env.get(("O", self.cache), self.cache)

    def table(self, rows, name=None, where_=None):
        rs = [r for r in self.rs if where_ is None or where_(*r)]
        table(self.rep, self.X, name or self.name, self.site, rs, rows, value=lambda s, v: Tup(v, self.after(s)))


def tidy(rs):
    """collecting nibbles into a path, written one way"""
    m = {}
    for st, v in rs:
        for t in list(st.facts) + [v] + [x for x in st.env.values() if isinstance(x, Term)]:
            for s in subterms(t) if isinstance(t, Term) else ():
                if s.op == "collected" and s.a[0].endswith("NibblePath"):
                    m[s] = T("pathof", s.a[1])
    if not m:
        return rs
    out = []
    for st, v in relabel(rs, m):
        out.append((State({k: substm(x, m) if isinstance(x, Term) else x for k, x in st.env.items()}, st.facts, st.did), v))
    return out


def key(n, ver, path):
    return Fields(**{n.kver: ver, n.kpath: path})


class Wrapped(M):
    """a value of a one-field tuple struct: equal when the field is"""

    def __init__(self, want):
        self.want = want

    def m(self, X, st, v):
        r = match(X, st, self.want, v)
        if r[0] is True or isinstance(self.want, M) or callable(self.want):
            return r
        return r if match(X, st, Fld(self.want, "0"), Fld(v, "0"))[0] is not True else (True, "")


def leafnode(n, kh, vh):
    return Con("Leaf", Fields(**{n.lk: Wrapped(kh), n.lv: Wrapped(vh)}))


class IterKey(M):
    """the key the nibble iterator runs over"""

    def __init__(self, c, it):
        self.c, self.it = c, it

    def m(self, X, st, v):
        want = Fld(T("npath", self.it), self.c.field("NibblePath", "bytes", 1))
        x = Fld(v, "0")
        if x.op == "fld" and x.a[0].op == "as" and x.a[0].a[0].op == "call" and x.a[0].a[0].a[1][0] is want:
            return True, ""
        if x is want:
            return True, ""
        kinds = {s.op for s in subterms(x)}
        return (False if "npath" in kinds or kinds <= {"par", "fld", "as"} else None), "is %s, expected the key being written" % short(v, 100)


class ChildOf(M):
    """the child record of a node: its hash, the version being written and its kind"""

    def __init__(self, node, ver):
        self.node, self.ver = node, ver

    def m(self, X, st, v):
        h = Fld(v, "hash")
        if h.op != "nhash":
            return None if h.op not in ("par", "fld") else False, "child hash is %s" % short(h, 90)
        r = match(X, st, self.node, h.a[0])
        if r[0] is not True:
            return r[0], "child hash: %s" % r[1]
        r = match(X, st, self.ver, Fld(v, "version"))
        if r[0] is not True:
            return r[0], "child version: %s" % r[1]
        t = Fld(v, "node_type")
        if t.op == "ntype":
            r = match(X, st, self.node, t.a[0])
            return r[0], "child kind: %s" % r[1] if r[0] is not True else ""
        nd = h.a[0]
        kind = nd.a[1] if nd.op == "agg" else next((k for k in ("Leaf", "Internal", "Null") if implied(st.facts, Is(nd, k)) is True), None)
        if t.op == "agg" and kind:
            return (t.a[1] == kind and kind == "Leaf"), "child kind is %s for a %s" % (short(t, 60), kind)
        return None, "child kind %s not determined" % short(t, 60)


class Inner(M):
    """an internal node with these children: base and {nibble: child matcher or None for removed}"""

    def __init__(self, base, kids):
        self.base, self.kids = base, kids

    def m(self, X, st, v):
        if v.op == "agg" and v.a[1] == "Internal":
            v = v.a[3][0]
        if v.op != "inode":
            return (False if v.op == "agg" or implied(st.facts, Is(v, "Leaf")) is True else None), "is %s, expected a new internal node" % short(v, 90)
        ch, got = v.a[0], []
        while ch.op in ("cins", "cdel"):
            got.append((ch.a[1], ch.a[2] if ch.op == "cins" else None))
            ch = ch.a[0]
        if ch is not self.base:
            return (None if ch.op not in ("nochild", "fld", "par") else False), "built from %s" % short(ch, 80)
        left = list(got)
        for nib, m in self.kids:
            hit = [g for g in left if g[0] is nib]
            if not hit:
                return (False if all(g[0].op in ("nth", "plast", "elem", "agg") for g in got) else None), \
                    "has no child written at nibble %s" % short(nib, 60)
            left.remove(hit[0])
            if (m is None) != (hit[0][1] is None):
                return False, "child at %s is %s" % (short(nib, 60), "kept" if m is None else "removed")
            if m is not None:
                r = match(X, st, m, hit[0][1])
                if r[0] is not True:
                    return r
        if left:
            return False, "also changes the child at %s" % short(left[0][0], 60)
        return True, ""


# ------------------------------------------------------------------ the dispatch at a node
AT = (NKEY, VER, ITER, OVAL, CACHE, FLAG)
INT = (NKEY, INODE, VER, ITER, OVAL, CACHE, FLAG)
LF = (NKEY, LNODE, VER, ITER, OVAL, CACHE, FLAG)


def some_iff(flag, m=None):
    return Con("Some", m if m is not None else Any()) if flag else Con("None")


def out(mode, pr, hist, pf):
    """what a writer returns and writes, seen by one property"""
    if mode == "tree":
        return Tu(Con("Ok", Tu(pr, Any())), hist.keep("put", "call", "setroot", "putval", "freeze"))
    if mode == "stale":
        return Tu(Con("Ok", Any()), hist.keep("del"))
    return Tu(Con("Ok", Tu(Any(), pf)), Any())


def insert_at(c, rep, mode):
    n, nn = Names(c), NN(c)
    for flag in (True, False):
        p = Pass(c, rep, "insert_at", AT, ("insert_at_internal_node", "insert_at_leaf_node"), flag=flag, absent_ok=True)
        k, ver, it, val, cache = (p.par(x) for x in (NKEY, VER, ITER, OVAL, CACHE))
        here, node = T("nodehere", cache, k), T("node", cache, k)
        atroot = Eq(Fld(Fld(k, nn.kpath), "num_nibbles"), Int(0))
        fl = TRUE if flag else FALSE
        same = Eq(Fld(k, nn.kver), ver)
        rows = []

        def deleg(fname, sig, x):
            want = Sig(tree(c, fname), *sig).args(k, Fld(As(node, x), "0"), ver, it, val, cache, fl)
            ok = lambda call: call.a[0].split("::")[-1] == fname and tuple(want) == call.a[1]
            return ok
        for kind, f, sg in (("Internal", "insert_at_internal_node", INT), ("Leaf", "insert_at_leaf_node", LF)):
            rows.append(Row(kind, [here, Is(node, kind)], Tu(TheCall(deleg(f, sg, kind)), Hist(cache, ("call", deleg(f, sg, kind))))))
        for nm, gone, kill in (("null root of this version", [here, Is(node, "Null"), same], [("del", k, FALSE)]),
                               ("null root", [here, Is(node, "Null"), Not(same)], []),
                               ("no root", [Not(here)], [])):
            rows.append(Row(nm + ", insert", gone + [atroot, Is(val, "Some")], out(
                mode, Con("Updated", Tu(key(nn, ver, EmptyPath()), newleaf(c, nn, it, val))),
                Hist(cache, *kill, ("put", key(nn, ver, EmptyPath()), newleaf(c, nn, it, val))),
                some_iff(flag, proof(n, Con("None"), Seq(T("vec0")))))))
            rows.append(Row(nm + ", delete", gone + [atroot, Is(val, "None")], out(
                mode, Con("NotChanged"), Hist(cache), some_iff(flag)) if not (kill and mode == "stale") else Any()))
            rows.append(Row(nm + " elsewhere", gone + [Not(atroot)], Tu(IsErr(), Any())))
        p.table(rows)


def newleaf(c, nn, it, val):
    return leafnode(nn, IterKey(c, it), Fld(As(val, "Some"), "0"))


class TheCall(M):
    """the result of that call, as it is"""

    def __init__(self, ok):
        self.ok = ok

    def m(self, X, st, v):
        calls = [s for s in subterms(v) if s.op == "call" and self.ok(s)]
        if v in calls:
            return True, ""
        if calls:
            r = match(X, st, Con("Ok", Fld(As(calls[0], "Ok"), "0")), v)
            if r[0] is True:
                return r
            return None, "is %s" % short(v)
        call = [s for s in subterms(v) if s.op == "call"]
        return (False if call else None), "is %s, expected the result for this node" % short(v)


def insert_at_internal(c, rep, mode):
    n, nn = Names(c), NN(c)
    for flag in (True, False):
        p = Pass(c, rep, "insert_at_internal_node", INT, ("insert_at",), flag=flag)
        X = p.X
        k, node, ver, it, val, cache = (p.par(x) for x in (NKEY, INODE, VER, ITER, OVAL, CACHE))
        fl = TRUE if flag else FALSE
        nib = T("nth", it, 0)
        has, child = T("haschild", node, nib), T("ichild", node, nib)
        below = nn.childkey(k, Fld(child, "version"), nib)
        c0, c1 = T("child0", node, k, nib), T("child1", node, k, nib)
        sig = Sig(tree(c, "insert_at"), *AT)

        def ours(call):
            if call.a[0].split("::")[-1] != "insert_at" or len(call.a[1]) != len(sig.at) + 1:
                return False
            st = State({}, {Is(c0, "Some"): True})
            a = lambda i: sig.arg(call, i)
            keys = [below, Fld(As(c0, "Some"), "0")]
            return (any(verdict(X, kk, a(0))[0] is True for kk in keys) and a(1) is ver and unadv(a(2)) == (it, 1) and a(3) is val
                    and history(a(4))[0] is cache and a(5) is fl)
        call = None
        for st, v in p.rs:
            for t in list(st.facts) + [v]:
                for s in subterms(t) if isinstance(t, Term) else ():
                    if s.op == "call" and s.a[0].split("::")[-1] == "insert_at":
                        call = call if call is not None and ours(call) else s
        if call is None:
            rep.undet(p.name, p.site, "the descent into the child was not recognised")
            continue
        if not ours(call):
            rep.put(False if known_args(call) else None, p.name + "/descent", p.site,
                    "goes on with %s" % ", ".join(short(a, 90) for a in call.a[1][1:]))
            continue
        rep.ok(p.name + "/descent", p.site)
        res = Fld(As(call, "Ok"), "0")
        pr, pf = Fld(res, "0"), Fld(res, "1")
        kids = Fld(node, nn.children)
        old = ("del", k, FALSE)
        nkey = key(nn, ver, Fld(k, nn.kpath))
        inner = Fld(As(pf, "Some"), "0")
        downproof = some_iff(flag, proof(n, Fld(inner, n.leaf), Seq(T("extended", Fld(inner, n.sibs), T("reversed", T("sibs0", node, cache, k, nib))))))
        lone = T("node", cache, Fld(As(c1, "Some"), "0"))
        lonelf = Fld(As(lone, "Leaf"), "0")
        sibs1 = Seq(T("reversed", T("sibs1", node, cache, k, nib)))
        step = ("call", lambda t: t is call)
        rows = []

        def after(nm, guards, kidnib, kidm, base, pre, prf, empty):
            """the node is rebuilt with one child replaced or removed"""
            new = None
            for chl in {t for st, v in p.rs for f in list(st.facts) + [v] if isinstance(f, Term) for t in subterms(f)
                        if t.op == "iter" and t.a[0].op == "present"}:
                ch = chl.a[0].a[0]
                if match(X, State({}, {g[0] if isinstance(g, tuple) else g: True for g in guards if not isinstance(g, tuple) and g.op != "not"}),
                         Inner(kids, [(kidnib, kidm)]), T("inode", ch))[0] is not True:
                    continue
                more = lambda i: T("hasnext", chl, i, False)
                first = T("nth", chl, 0)
                new = ch
                fkey = key(nn, Fld(Fld(first, "1"), "version"), T("ppush", Fld(k, nn.kpath), Fld(first, "0")))
                fleaf = Is(Fld(Fld(first, "1"), "node_type"), "Leaf")
                moved = Stored(call if base else None, cache, fkey)
                whole = Inner(kids, [(kidnib, kidm)])
                yes = [g for g in guards]
                rows.append(Row(nm + ", one leaf left", yes + [more(0), Not(more(1)), fleaf], out(
                    mode, Con("Updated", Tu(nkey, moved)), Hist(cache, *pre, old, ("del", fkey, TRUE), ("put", nkey, moved)), prf)))
                for j, g in enumerate(([Not(fleaf), Not(more(1))], [more(1)])):
                    rows.append(Row(nm + (", one internal child left", ", more children left")[j], yes + [more(0)] + g, out(
                        mode, Con("Updated", Tu(nkey, whole)), Hist(cache, *pre, old, ("put", nkey, whole)), prf)))
                rows.append(Row(nm + ", no child left", yes + [Not(more(0))], out(
                    mode, Con("Removed"), Hist(cache, *pre, old), prf), optional=not empty))
            if new is None:
                worst, why = None, "the rebuilt children were not recognised"
                for st, v in p.rs:
                    f = consistent(st.facts, guards)
                    if f is None:
                        continue
                    for ch in {t.a[0] for x in list(st.facts) + [v] if isinstance(x, Term) for t in subterms(x) if t.op == "present"}:
                        r = match(X, State({}, f), Inner(kids, [(kidnib, kidm)]), T("inode", ch))
                        if r[0] is False and alien_path(X, st) is None:
                            worst, why = False, r[1]
                rep.put(worst if mode == "tree" else None, p.name + "/" + nm, p.site, why)
        up = Fld(Fld(As(pr, "Updated"), "0"), "1")
        on = [has, Is(call, "Ok")] + ([Is(pf, "Some")] if flag else [Is(pf, "None")])
        after("child updated", on + [Is(pr, "Updated")], nib, ChildOf(up, ver), call, [step], downproof, False)
        after("child removed", on + [Is(pr, "Removed")], nib, None, call, [step], downproof, True)
        rows.append(Row("child unchanged", on + [Is(pr, "NotChanged")], out(
            mode, Con("NotChanged"), Hist(cache, step), some_iff(flag))))
        for nm, g, lf in (("beside a leaf", [Is(c1, "Some")], proof_leaf(n, nn, lonelf)), ("at an empty place", [Is(c1, "None")], Con("None"))):
            g = g if flag else []
            if not flag and nm != "beside a leaf":
                continue
            nk = key(nn, ver, T("ppush", Fld(k, nn.kpath), nib))
            after("new leaf " + nm, [Not(has), Is(val, "Some")] + g, nib, ChildOf(newleaf(c, nn, it, val), ver), None,
                  [("put", nk, newleaf(c, nn, it, val))], some_iff(flag, proof(n, lf, sibs1)), False)
            rows.append(Row("absent key deleted " + nm, [Not(has), Is(val, "None")] + g, out(
                mode, Con("NotChanged"), Hist(cache), some_iff(flag))))
        bad = Is(pf, "None" if flag else "Some")
        p.table(rows, where_=lambda st, v: st.facts.get(bad) is not True)


class Stored(M):
    """the node the cache holds under this key"""

    def __init__(self, call, cache, key):
        self.call, self.cache, self.key = call, cache, key

    def m(self, X, st, v):
        if v.op != "node":
            return None if v.op not in ("agg", "par") else False, "is %s, expected the remaining leaf" % short(v, 90)
        r = match(X, st, self.key, v.a[1])
        if r[0] is not True:
            return r
        base, got = history(v.a[0])
        if base is not self.cache:
            return None, "read from %s" % short(base)
        return True, ""


def known_args(call):
    return all(s.op in ("par", "fld", "nth", "ppush", "agg", "ichild", "adv", "as", "child0", "child1", "bool", "int", "del", "put", "lin")
               for a in call.a[1] for s in subterms(a))


def insert_at_leaf(c, rep, mode):
    n, nn = Names(c), NN(c)
    for flag in (True, False):
        p = Pass(c, rep, "insert_at_leaf_node", LF, (), flag=flag)
        X = p.X
        k, leaf, ver, it, val, cache = (p.par(x) for x in (NKEY, LNODE, VER, ITER, OVAL, CACHE))
        # the key's position after the nibbles it shares with the leaf, and the leaf's
        mine = [x for x in reach(p.rs, "skipped") if x.a[0] is it]
        ends = []
        for x in mine:
            rem = x.a[1]
            y = rem.a[0] if rem.op == "remaining" else None
            if y is not None and y.op == "skipped" and y.a[1] is T("visited", it) and whole_key(c, nn, y.a[0], leaf):
                ends.append((x, T("skipped", rem, it), T("common", it, rem), T("skipped", T("visited", it), y.a[0])))
        if len(ends) != 1 or len(mine) != 1:
            rep.undet(p.name, p.site, "the comparison of the key with the leaf's was not recognised")
            continue
        new, old, cnt, seen = ends[0]
        more = lambda x, i=0: T("hasnext", x, i, False)
        e, m = T("nth", old, 0), T("nth", new, 0)
        path = T("pathof", T("visited", new))
        lf = newleaf(c, nn, it, val)
        existing = mknode("Leaf", leaf)
        had = some_iff(flag, proof(n, Con("Some", Fields(**{n.kh: Fld(leaf, nn.lk), n.vh: Fld(leaf, nn.lv)})), Seq(T("vec0"))))
        nkey = key(nn, ver, Fld(k, nn.kpath))
        gone = ("del", k, TRUE)
        inplace = [Not(more(seen))]
        split = Inner(T("nochild"), [(e, ChildOf(existing, ver)), (m, ChildOf(lf, ver))])
        kp = lambda *x: key(nn, ver, pushes(path, *x))
        first = [gone, ("put", kp(e), existing), ("put", kp(m), lf), ("put", kp(), split)]
        rows = [
            Row("wrong leaf", [more(seen)], Tu(IsErr(), Any()), optional=True),
            Row("same key, insert", inplace + [Not(more(new)), Is(val, "Some")], out(
                mode, Con("Updated", Tu(nkey, lf)), Hist(cache, gone, ("put", nkey, lf)), had)),
            Row("same key, delete", inplace + [Not(more(new)), Is(val, "None")], out(mode, Con("Removed"), Hist(cache, gone), had)),
            Row("other key, delete", inplace + [more(new), Is(val, "None")], out(
                mode, Con("NotChanged"), Hist(cache), some_iff(flag))),
            Row("other key, insert", inplace + [more(new), Is(val, "Some")], Chain(p, nn, mode, cache, first, path, split, cnt, ver, had)),
        ]
        p.table(rows)


def pushes(path, *xs):
    for x in xs:
        path = T("ppush", path, x)
    return path


def reach(rs, op):
    out = []
    for st, v in rs:
        for t in list(st.facts) + [v] + [x for x in st.env.values()]:
            for s in subterms(t) if isinstance(t, Term) else ():
                if s.op == op and s not in out:
                    out.append(s)
    return out


def whole_key(c, nn, it, leaf):
    """an iterator over all nibbles of the leaf's key"""
    p, pos = Fld(it, c.field("NibbleIterator", "nibble_path", 0)), Fld(it, "pos")
    return (Fld(p, c.field("NibblePath", "bytes", 1)) is Fld(Fld(leaf, nn.lk), "0") and Fld(p, c.field("NibblePath", "num_nibbles", 0)) is Int(64)
            and Fld(pos, "start") is Int(0) and Fld(pos, "end") is Int(64))


class Chain(M):
    """the split node, wrapped in one single-child node per shared nibble, bottom up"""

    def __init__(self, p, nn, mode, cache, first, path, split, cnt, ver, had):
        self.p, self.nn, self.mode, self.cache, self.first = p, nn, mode, cache, first
        self.path, self.split, self.cnt, self.ver, self.had = path, split, cnt, ver, had

    def m(self, X, st, v):
        ret, cur = v.a[0]
        if self.mode == "proof":
            return match(X, st, Con("Ok", Tu(Any(), self.had)), ret)
        base, post = history(cur)
        if base.op != "loopvar" or post:
            return None, "the chain of nodes above the new one was not recognised"
        L = X.loops[base.a[0]]
        V = L.vars
        r = match(X, st, Hist(self.cache, *self.first).keep(*(("del",) if self.mode == "stale" else ("put", "call"))), tidyterm(V[base]["init"]))
        if r[0] is not True:
            return r
        its = [k for k in V if k.op == "itpos"]
        over = V[its[0]]["init"] if len(its) == 1 else T("none")
        if over.op == "rev":  # which number of the range it is does not matter
            over = over.a[0]
        if len(its) != 1 or Fld(over, "start") is not Int(0) or tidyterm(Fld(over, "end")) is not self.cnt:
            got = [short(tidyterm(V[k]["init"])) for k in its]
            sp = over.op == "agg"
            return (False if sp else None), "repeated over %s, expected once per shared nibble" % ", ".join(got)
        if any(unadv(nx) != (its[0], 1) for _, nx in V[its[0]]["next"]) or L.stops:
            return None, "loop over the shared nibbles not understood"
        paths = [k for k, d in V.items() if k.op == "loopvar" and any(nx is T("ppop", k) for _, nx in d["next"])]
        if len(paths) != 1:
            return None, "the path being shortened was not recognised"
        P = paths[0]
        r = match(X, st, self.path, tidyterm(V[P]["init"]))
        if r[0] is not True:
            return r[0], "path of the split node %s" % r[1]
        kver, kpath = self.nn.kver, self.nn.kpath
        up = key(self.nn, self.ver, T("ppop", P))
        N = None
        for i, (f, nx) in enumerate(V[base]["next"]):
            b2, eff = history(nx)
            if b2 is not base:
                return None, "not understood"
            puts = [x for x in eff if x[0] == "put"]
            if len(puts) != 1:
                return (None if any(x[0] == "call" for x in eff) else False), "stores %d nodes for a shared nibble" % len(puts)
            if self.mode == "stale":
                if len(eff) != 1:
                    return False, "also writes %s" % label([x for x in eff if x[0] != "put"][0])
                continue
            nd = puts[0][2]
            x = nd.a[3][0] if nd.op == "agg" and nd.a[1] == "Internal" else nd
            if x.op != "inode" or x.a[0].op != "cins" or Fld(x.a[0].a[2], "hash").op != "nhash":
                return (False if nd.op == "agg" and nd.a[1] != "Internal" else None), "stores %s for a shared nibble" % short(nd)
            below = Fld(x.a[0].a[2], "hash").a[0]
            inn = below.a[3][0] if below.op == "agg" and below.a[3] else below
            ns = [inn] if inn.op == "loopvar" else []
            if len(ns) != 1:
                return False if below.op == "agg" else None, "wraps %s" % short(below)
            N = ns[0]
            r = effects(X, State({}, dict(f)), [("put", up, Inner(T("nochild"), [(T("plast", P), ChildOf(below, self.ver))]))], eff, eff)
            if r[0] is not True:
                return r[0], "for a shared nibble: %s" % r[1]
            if match(X, State({}, dict(f)), Same(nd), wrap(V[N]["next"][i][1]))[0] is not True:
                return False, "the next node wraps %s, expected the node just stored" % short(V[N]["next"][i][1], 80)
        if self.mode == "stale":
            return True, ""
        r = match(X, st, self.split, wrap(tidyterm(V[N]["init"])))
        if r[0] is not True:
            return r[0], "the first node wrapped %s" % r[1]
        want = Con("Ok", Tu(Con("Updated", Tu(LoopKey(self, V, P), Same(wrap(N)))), Any()))
        return match(X, st, want, ret)


def wrap(x):
    return x if x.op == "agg" and x.a[1] in ("Internal", "Leaf", "Null") else mknode("Internal", x)


class Same(M):
    def __init__(self, t):
        self.t = t

    def m(self, X, st, v):
        return (True, "") if wrap(v) is wrap(self.t) else (None if v.op not in ("agg", "loopvar") else False, "is %s, expected %s" % (short(v), short(self.t)))


class InStep(M):
    """a loop variable that starts at `init` and becomes `nxt` every round, or the variable `same`"""

    def __init__(self, V, init, nxt, same):
        self.V, self.init, self.nxt, self.same = V, init, nxt, same

    def m(self, X, st, v):
        if v is self.same:
            return True, ""
        if v.op != "loopvar" or v not in self.V:
            return match(X, st, self.same, v) if self.same is not None else (None, "is %s" % short(v))
        d = self.V[v]
        r = match(X, st, self.init, tidyterm(d["init"]))
        if r[0] is not True:
            return r
        for f, nx in d["next"]:
            r = match(X, State({}, dict(f)), self.nxt, nx)
            if r[0] is not True:
                return r
        return True, ""


class LoopKey(M):
    """the key of the last node stored: the shortened path at this version"""

    def __init__(self, ch, V, P):
        self.ch, self.V, self.P = ch, V, P

    def m(self, X, st, v):
        ch, nn = self.ch, self.ch.nn
        up = T("ppop", self.P)
        if v.op == "loopvar":
            return InStep(self.V, key(nn, ch.ver, ch.path), key(nn, ch.ver, up), None).m(X, st, v)
        return match(X, st, key(nn, InStep(self.V, ch.ver, ch.ver, ch.ver), InStep(self.V, ch.path, up, self.P)), v)


def tidyterm(t):
    m = {s: T("pathof", s.a[1]) for s in subterms(t) if s.op == "collected" and s.a[0].endswith("NibblePath")}
    return substm(t, m) if m else t


PUT = (KH, OVAL, VER, CACHE, FLAG)


def found_call(p, name, ours, arg_ok=lambda call: None):
    """the recursive or delegated call of `name`; reports it when it is made with other arguments"""
    calls = [s for s in reach(p.rs, "call") if s.a[0].split("::")[-1] == name]
    calls += [x for s in reach(p.rs, "mut") if s.a[0].split("::")[-1] == name for x in [T("call", s.a[0], s.a[2])] if x not in calls]
    good = [x for x in calls if ours(x)]
    if good:
        bad = [x for x in calls if x not in good]
        if not bad:
            p.rep.ok(p.name + "/" + name, p.site)
            return good[0]
        calls = bad
    if not calls:
        p.rep.undet(p.name + "/" + name, p.site, "no call of %s recognised" % name)
        return None
    p.rep.put(False if known_args(calls[0]) else None, p.name + "/" + name, p.site,
              "calls %s with %s" % (name, ", ".join(short(a, 90) for a in calls[0].a[1][1:])))
    return None


def put_one(c, rep, mode):
    nn = NN(c)
    for flag in (True, False):
        p = Pass(c, rep, "put", PUT, ("insert_at",), flag=flag)
        k, val, ver, cache = (p.par(x) for x in (KH, OVAL, VER, CACHE))
        fl = TRUE if flag else FALSE
        sig = Sig(tree(c, "insert_at"), *AT)
        def ours(call):
            a = lambda i: sig.arg(call, i)
            it = a(2)
            whole = whole_key(c, nn, it, Agg("", "", (nn.lk,), (k,)))
            return a(0) is T("rootkey", cache) and a(1) is ver and whole and a(3) is val and a(4) is cache and a(5) is fl
        call = found_call(p, "insert_at", ours)
        if call is None:
            continue
        res = Fld(As(call, "Ok"), "0")
        pr, pf = Fld(res, "0"), Fld(res, "1")
        step = ("call", lambda t: t is call)
        root = key(nn, ver, EmptyPath())
        new = Fld(Fld(As(pr, "Updated"), "0"), "0")
        o = lambda *h: Tu(Con("Ok", pf) if mode == "proof" else Con("Ok", Any()), Any() if mode == "proof" else Hist(cache, step, *h).keep(
            *(("del",) if mode == "stale" else ("put", "call", "setroot", "putval", "freeze"))))
        p.table([
            Row("updated", [Is(call, "Ok"), Is(pr, "Updated")], o(("setroot", new))),
            Row("unchanged", [Is(call, "Ok"), Is(pr, "NotChanged")], o()),
            Row("emptied", [Is(call, "Ok"), Is(pr, "Removed")], o(("setroot", root), ("put", root, Con("Null"))))])


@prop("C17", floor=40)
def structure(c, rep):
    insert_at(c, rep, "tree")
    insert_at_internal(c, rep, "tree")
    insert_at_leaf(c, rep, "tree")
    put_one(c, rep, "tree")


@prop("C18", floor=40)
def stale(c, rep):
    insert_at(c, rep, "stale")
    insert_at_internal(c, rep, "stale")
    insert_at_leaf(c, rep, "stale")
    put_one(c, rep, "stale")


@prop("C19", floor=40)
def proofs(c, rep):
    insert_at(c, rep, "proof")
    insert_at_internal(c, rep, "proof")
    insert_at_leaf(c, rep, "proof")
    put_one(c, rep, "proof")
