"""Committing value sets: which updates are applied to which version, and what the caller gets back."""
from rules import prop
from rules.domain import *
from rules.nodes import *
from rules.proofs import Names
from rules.read import Sig, VER, KH, tree
from rules.write import Pass, PUT, CACHE, history, effects, failures
from spec import *
from terms import *


class Each(Over):
    """iteration over every item of the iterable `seq`"""

    def __call__(self, X, st, t):
        b = self.base(t)
        if b.op == "iter" and self.seq.op != "iter":
            b = b.a[0]
        if b is self.seq:
            return True
        return False if known_space(b, X) and b.op != "mapped" else None

    def elem(self, t, uid):
        b = self.base(t)
        return T("elem", b, 0, uid), T("ipos", b, 0)


class Made(M):
    """a call of `name` with these arguments, by position of its signature"""

    def __init__(self, sig, name, *ms):
        self.sig, self.name, self.ms = sig, name, ms

    def m(self, X, st, v):
        if v.op != "call" or v.a[0].split("::")[-1] != self.name:
            return None, "is %s, expected the result of %s" % (short(v, 90), self.name)
        for i, m in enumerate(self.ms):
            r = match(X, st, m, self.sig.arg(v, i))
            if r[0] is not True:
                return r[0], "argument of %s %s" % (self.name, r[1])
        return True, ""


class After(M):
    """the cache as the call left it"""

    def __init__(self, call):
        self.call = call

    def m(self, X, st, v):
        while v.op == "as" or (v.op == "fld" and v.a[0].op == "as"):
            return None, "is %s" % short(v, 90)
        if v.op != "mut":
            return (False if v.op in ("loopvar", "putval", "cache0", "put", "del", "setroot", "freeze") else None), \
                "is %s, expected the cache after %s" % (short(v, 90), self.call.name)
        return match(X, st, self.call, T("call", v.a[0], v.a[2]))


class W1(M):
    """one write on top of `base`: op and arguments"""

    def __init__(self, op, base, *ms):
        self.op, self.base, self.ms = op, base, ms

    def m(self, X, st, v):
        if v.op != self.op:
            return (False if v.op in ("loopvar", "cache0", "putval", "put", "del", "setroot", "freeze", "mut") else None), \
                "is %s, expected %s" % (short(v, 90), {"putval": "the value to be recorded", "freeze": "the version to be closed",
                                                      "setroot": "the new root to be set"}[self.op])
        for m, x in zip(self.ms, v.a[1:]):
            r = match(X, st, m, x)
            if r[0] is not True:
                return r[0], "%s %s" % (self.op, r[1])
        return match(X, st, self.base, v.a[0])


class Shared(M):
    """a loop's accumulated value, and the same one wherever it is asked for again"""

    def __init__(self, m):
        self.inner, self.seen = m, None

    def m(self, X, st, v):
        r = match(X, st, self.inner, v)
        if r[0] is True:
            self.seen = v
        return r


def plain(t):
    """a term whose every part is understood"""
    st = [t]
    while st:
        x = st.pop()
        if x.op in ("elem", "ipos"):
            st.append(x.a[0])
        elif x.op == "loopvar" or x.op not in PUREOPS | {"enum", "min", "max", "not", "is", "bool", "konst", "b2i", "slice", "slicer"}:
            return False
        else:
            st.extend(kids(x))
    return True


class VerOf(M):
    """first + index, computed or counted along"""

    def __init__(self, first, item, pos):
        self.first, self.item, self.t = first, item, Add(first, pos)

    def m(self, X, st, v):
        if v is self.t:
            return True, ""
        if v.op == "loopvar":
            L = X.loops[v.a[0]]
            d = L.vars[v]
            if self.item.op == "elem" and self.item.a[2] == v.a[0] and d["init"] is self.first \
                    and all(nx is Add(v, Int(1)) for _, nx in d["next"]):
                return True, ""
            return None, "version is %s" % short(v, 90)
        return (False if plain(v) else None), "version is %s, expected %s" % (short(v, 90), short(self.t))


class Single(M):
    """the only item of a sequence"""

    def __init__(self, seq, proj=None):
        self.seq, self.proj = seq, proj

    def m(self, X, st, v):
        if self.proj is not None:
            if v.op != "fld" or v.a[1] != self.proj:
                return None, "is %s" % short(v, 90)
            v = v.a[0]
        while v.op == "fld" and v.a[0].op == "as":
            v = v.a[0].a[0]
        if v.op in ("idx", "nth", "remove") and v.a[1] in (Int(0), 0) or v.op in ("lastof", "firstof"):
            b = v.a[0]
            b = b.a[0] if b.op == "iter" else b
            if b is self.seq:
                return True, ""
        return None, "is %s, expected the only item of %s" % (short(v, 90), short(self.seq, 90))


def hashed(val):
    return Agg("ValueHash", "", ("0",), (T("hash", "H", (Fld(As(val, "Some"), "0"),)),))


class VHash(M):
    """the hash of the value being written"""

    def __init__(self, val):
        self.val = val

    def m(self, X, st, v):
        h = Fld(v, "0")
        if h.op == "hash":
            parts = h.a[1] if isinstance(h.a[1], tuple) else h.a[1:]
            if len(parts) == 1 and parts[0] is self.val:
                return True, ""
            own = {self.val: Par("the value")}
            return (False if all(plain(substm(p, own)) for p in parts) else None), \
                "hashes %s" % ", ".join(short(p, 60) for p in parts)
        return (False if h.op in ("fld", "as", "elem", "par", "agg", "bytes", "konst") else None), "is %s, expected the hash of the value" % short(v, 90)


def updates(c, items, ver, flag, start):
    """the cache after every (key, value) of `items` was written at `ver`"""
    sig = Sig(tree(c, "put"), *PUT)
    fl = TRUE if flag else FALSE

    def call(item, base, isome):
        key, val = Fld(item, "0"), Fld(item, "1")
        vh = Con("Some", VHash(Fld(As(val, "Some"), "0"))) if isome else Con("None")
        rec = lambda b: W1("putval", b, ver, key, val)
        mk = lambda cch: After(Made(sig, "put", key, vh, ver, cch, Same_(fl)))
        return Either(lambda v: v.op == "putval", rec(mk(base)), mk(rec(base)))

    def step(el, cel, acc):
        item = el[0][0]
        val = Fld(item, "1")
        return [([Is(val, "Some")], call(item, acc, True)), ([Is(val, "None")], call(item, acc, False))]
    return Shared(Fold([Each(items)], start, step)), call


class Same_(M):
    def __init__(self, t):
        self.t = t

    def m(self, X, st, v):
        return (True, "") if v is self.t else (False if plain(v) else None, "is %s, expected %s" % (short(v, 60), short(self.t, 60)))


def proofs_of(c, items, ver, caches):
    """one proof per (key, value) of `items`, in order, each the one returned when it was written"""
    sig = Sig(tree(c, "put"), *PUT)

    def step(el, cel, acc):
        item = el[0][0]
        key, val = Fld(item, "0"), Fld(item, "1")

        def one(isome):
            vh = Con("Some", VHash(Fld(As(val, "Some"), "0"))) if isome else Con("None")
            return Pushed(acc, Unwrapped(Made(
                sig, "put", key, vh, ver, Either(lambda v: v.op == "putval", W1("putval", OneSeen(caches), ver, key, val), OneSeen(caches)),
                Same_(TRUE))))
        return [([Is(val, "Some")], one(True)), ([Is(val, "None")], one(False))]
    return Fold([Each(items)], T("vec0"), step)


class OneSeen(M):
    def __init__(self, shared):
        self.shared = shared

    def m(self, X, st, v):
        return (True, "") if v in self.shared.all else (None, "another cache %s" % short(v, 60))


class Either(M):
    """one of two forms, told apart by `test`"""

    def __init__(self, test, a, b):
        self.test, self.a, self.b = test, a, b

    def m(self, X, st, v):
        return match(X, st, self.a if self.test(v) else self.b, v)


class Log(M):
    """remembers every value an inner matcher accepted"""

    def __init__(self, m):
        self.inner, self.all = m, []

    def m(self, X, st, v):
        r = match(X, st, self.inner, v)
        if r[0] is True:
            self.all.append(v)
        return r


class Pushed(M):
    def __init__(self, base, item):
        self.base, self.item = base, item

    def m(self, X, st, v):
        if v.op != "pushed":
            return (False if v.op in ("loopvar", "vec0") or v.op == "vecop" and v.a[0] == "insert" and v.a[1][0] is self.base
                    and v.a[1][1] is Int(0) else None), "is %s, expected one item to be added at the end" % short(v, 90)
        if v.a[0] is not self.base:
            return (False if v.a[0].op in ("pushed", "vec0") else None), "added to %s" % short(v.a[0], 60)
        return match(X, st, self.item, v.a[1])


class Unwrapped(M):
    """what a call returned, without its Ok and Some"""

    def __init__(self, call):
        self.call = call

    def m(self, X, st, v):
        n = 0
        while v.op == "fld" and v.a[0].op == "as" and v.a[0].a[1] in ("Ok", "Some"):
            v, n = v.a[0].a[0], n + 1
        if n != 2:
            return None, "is %s, expected the proof returned by put" % short(v, 90)
        return match(X, st, self.call, v)


class Zipped(M):
    """pairs of two sequences, in order"""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def m(self, X, st, v):
        left = v
        if v.op == "collected" and v.a[1].op == "zip":
            z = zips(v.a[1])
        elif v.op == "loopvar":
            L = X.loops[v.a[0]]
            z = []
            for k, d in L.vars.items():
                if k.op == "itpos":
                    z += zips(d["init"])
        else:
            return None, "is %s, expected root hashes paired with proofs" % short(v, 90)
        if len(z) != 2:
            return None, "pairs %s" % ", ".join(short(x, 60) for x in z)
        for want in (self.a, self.b):
            pass
        if v.op == "loopvar":
            its = [Each(x.a[0] if x.op == "iter" else x) for x in z]
            r = match(X, st, Fold(its, T("vec0"), lambda el, cel, acc: [([], Pushed(acc, Tu(el[0][0], el[1][0])))]), v)
            if r[0] is not True:
                return r
        for want, x in zip((self.a, self.b), z):
            r = match(X, st, want, x.a[0] if x.op == "iter" else x)
            if r[0] is not True:
                return r
        return True, ""


class Batch(M):
    """what the finished cache yields: its nodes and values, its stale indices and its statistics"""

    def __init__(self, c, cache):
        self.cache = cache
        self.map = {"node_batch": "node_cache", "stale_node_index_batch": "stale_node_index_cache", "node_stats": "node_stats"}

    def m(self, X, st, v):
        for f, g in self.map.items():
            x = Fld(v, f)
            if x.op != "fld" or x.a[0].op != "fld" or x.a[0].a[1] != "frozen_cache":
                return (False if x.op in ("vec0", "map0") else None), "%s is %s" % (f, short(x, 90))
            if x.a[1] != g:
                return False, "%s is %s" % (f, short(x, 90))
            r = match(X, st, self.cache, x.a[0].a[0])
            if r[0] is not True:
                return r
        return True, ""


class Roots(M):
    def __init__(self, cache):
        self.cache = cache

    def m(self, X, st, v):
        if v.op != "fld" or v.a[1] != "root_hashes":
            return None, "is %s, expected the root hashes" % short(v, 90)
        return match(X, st, self.cache, v.a[0].a[0])


def commit_pass(c, rep, name, opaque, extra=None, **k):
    return Pass(c, rep, name, None, opaque, extra={**wholecache(c), **(extra or {})}, **k)


def many(c, rep, flag):
    name = "put_value_sets_with_proof" if flag else "put_value_sets"
    p = commit_pass(c, rep, name, ("put",))
    sets, first = Par("a1"), Par("a2")
    logs = []

    def version(el, cel, acc):
        items, pos = el[0]
        ver = VerOf(first, items, pos)
        up, _ = updates(c, items, ver, flag, acc)
        lg = Log(up)
        logs.append(lg)
        return [([], W1("freeze", lg))]
    cache = Fold([Each(sets)], T("cache0", Fld(Par("self"), "reader"), first), version)
    n = Names(c)
    if not flag:
        p.ret([Row("done", [], Con("Ok", Tu(Roots(cache), Batch(c, cache))))])
        return

    class Seen:
        @property
        def all(self):
            # the variable the inner cache fold runs on, in whichever loop instance accepted it
            return {v for lg in logs for x in lg.all for v in [x]}

    def proofs(el, cel, acc):
        items, pos = el[0]
        return [([], Pushed(acc, Fields(**{"0": proofs_of(c, items, VerOf(first, items, pos), Seen())})))]
    allproofs = Fold([Each(sets)], T("vec0"), proofs)
    p.ret([Row("done", [], Con("Ok", Both(Tu(Any(), Batch(c, cache)), Tu(Zipped(Roots(cache), allproofs), Any()))))])


class Both(M):
    def __init__(self, *ms):
        self.ms = ms

    def m(self, X, st, v):
        for m in self.ms:
            r = match(X, st, m, v)
            if r[0] is not True:
                return r
        return True, ""


def one(c, rep, flag):
    name = "put_value_set_with_proof" if flag else "put_value_set"
    whole = "put_value_sets_with_proof" if flag else "put_value_sets"
    p = commit_pass(c, rep, name, (whole,))
    calls = {s for st, v in p.rs for t in list(st.did) + list(st.facts) + [v] if isinstance(t, Term)
             for s in subterms(t) if s.op == "call" and s.a[0].split("::")[-1] == whole}
    if len(calls) != 1:
        rep.undet(name, p.site, "the call of %s was not recognised" % whole)
        return
    call = calls.pop()
    parts = seq_parts(call.a[1][1])
    ok = parts == [("one", Par("a1"))] and call.a[1][2] is Par("a2")
    rep.put(ok or (False if parts is not None and plain(call.a[1][2]) else None),
            name + "/delegates", p.site, "calls %s with %s" % (whole, ", ".join(short(a, 60) for a in call.a[1][1:])))
    res = Fld(As(call, "Ok"), "0")
    seq, batch = Fld(res, "0"), Fld(res, "1")
    if flag:
        out = Con("Ok", Tu(Single(seq, "0"), Single(seq, "1"), batch))
    else:
        out = Con("Ok", Tu(Single(seq), batch))
    p.ret([Row("done", [Is(call, "Ok")], out)])


def append(c, rep):
    if not any(b.get("name") == "append_value_set" for b in c.p.facts["bodies"]):
        return
    p = commit_pass(c, rep, "append_value_set", ("put",))
    ver = Par("a2")
    up, _ = updates(c, Par("a1"), ver, False, T("cacheow", Fld(Par("self"), "reader"), ver))
    done = W1("freeze", up)

    class First(M):
        def m(self, X, st, v):
            if v.op == "idx" and v.a[1] in (Int(0), 0):
                return match(X, st, Roots(done), v.a[0])
            return None, "is %s" % short(v, 90)

    def impossible(st):
        """not exactly one root after one version was closed"""
        return any(isinstance(k, Term) and k.op == "bin" and k.a[0] == "Eq" and x is False and Int(1) in k.a[1:] and
                   any(y.op == "len" and y.a[0].op == "fld" and y.a[0].a[1] == "root_hashes" for y in k.a[1:]) for k, x in st.facts.items())
    p.rs = [(st, v) for st, v in p.rs if not impossible(st)]
    p.ret([Row("done", [], Con("Ok", Tu(First(), Batch(c, done))))])


@prop("C20", floor=10)
def value_sets(c, rep):
    many(c, rep, False)
    many(c, rep, True)
    one(c, rep, False)
    one(c, rep, True)
    append(c, rep)
