"""Positional reading of iteration spaces: what the i-th element of a space is, how long the space is,
and loops that count an index instead of advancing an iterator, rewritten as the latter."""
from terms import *
import terms as TM


def rng(S):
    """(start, end) of a range"""
    if S.op == "agg" and S.a[0].endswith("::Range"):
        f = dict(zip(S.a[2], S.a[3]))
        return f["start"], f["end"]
    if S.op == "agg" and S.a[0].endswith("::RangeInclusive"):
        f = dict(zip(S.a[2], S.a[3]))
        return f["start"], Add(f["end"], Int(1))
    return None


def lengths(S):
    """bounds on the number of elements (the space has as many as the least of them); None if unknown"""
    o = S.op
    if o == "iter":
        return [Len(S.a[0])]
    if o in ("enum", "map"):
        return lengths(S.a[0])
    if o == "rev":
        n = lengths(S.a[0])
        return n if n is not None and len(n) == 1 else None
    if o == "skip":
        n = lengths(S.a[0])
        return None if n is None else [Sub(x, S.a[1]) for x in n]
    if o == "take":
        n = lengths(S.a[0])
        return None if n is None else n + [S.a[1]]
    if o == "zip":
        n, m = lengths(S.a[0]), lengths(S.a[1])
        return None if n is None or m is None else n + m
    r = rng(S)
    return None if r is None else [Sub(r[1], r[0])]


def at(S, i):
    """the i-th element of a space, None if it has no simple description"""
    o = S.op
    if o == "iter":
        return T("idx", S.a[0], i) if S.a[0].op == "bits" else Idx(S.a[0], i)
    if o == "enum":
        x = at(S.a[0], i)
        return None if x is None else Tup(i, x)
    if o == "zip":
        x, y = at(S.a[0], i), at(S.a[1], i)
        return None if x is None or y is None else Tup(x, y)
    if o == "rev":
        n = lengths(S.a[0])
        return at(S.a[0], Sub(Sub(n[0], Int(1)), i)) if n is not None and len(n) == 1 else None
    if o == "skip":
        return at(S.a[0], Add(i, S.a[1]))
    if o == "take":
        return at(S.a[0], i)
    r = rng(S)
    return None if r is None else Add(r[0], i)


def plain(S):
    """an iterator over a sequence, needing no rewriting"""
    while S.op in ("rev", "skip", "take"):
        S = S.a[0]
    return S.op in ("iter", "itermut")


def parts(S):
    return parts(S.a[0]) + parts(S.a[1]) if S.op == "zip" else [S]


def bound(k, v, c, t):
    """facts `k = v` that say c < B (v true) or not (v false): B"""
    if k.op != "bin" or k.a[0] != "Lt" or k.a[1].op != "int":
        return None
    c0, m = TM.lin_parts(k.a[2])
    if m.get(c) != -1:
        return None
    return Sub(Add(k.a[2], c), k.a[1])


def bitforms(b, d):
    """the conditions on the byte at d / 8 that hold exactly when (True) or unless (False) bit d of the sequence,
    from the most significant of each byte, is set"""
    r = Bin("Rem", d, Int(8))
    low = Bin("Shr", b, Sub(Int(7), r))
    out = []
    for x in (Bin("Rem", low, Int(2)), Bin("BitAnd", low, Int(1))):
        out += [(Eq(x, Int(1)), True), (Eq(x, Int(0)), False)]
    for w in (Bin("Shr", Int(128), r), Bin("Shl", Int(1), Sub(Int(7), r))):
        for x in (Bin("BitAnd", b, w), Bin("BitAnd", w, b)):
            out += [(Eq(x, w), True), (Eq(x, Int(0)), False), (Lt(Int(0), x), True)]
    return [(f.a[0], not v) if f.op == "not" else (f, v) for f, v in out]


def deindex(L, unadv):
    """L with counted indices turned into iterators, and the function rewriting terms alike; None where
    nothing is counted"""
    uid = L.uid
    t = T("itn", uid)
    m, drives, counters, cond = {}, [], [], []
    changed = False
    for k, d in L.vars.items():
        nx = [x for _, x in d["next"]]
        if not nx:
            return None
        if k.op == "itpos":
            mv = [unadv(x)[1] if unadv(x)[0] is k else None for x in nx]
            if all(x == 1 for x in mv):
                drives.append((k, d))
            continue
        if k.op != "loopvar":
            continue
        st = [Sub(x, k) for x in nx]
        if any(x.op != "int" for x in st):
            continue
        st = [x.a[0] for x in st]
        if st[0] in (1, -1) and all(x == st[0] for x in st):
            m[k] = Add(d["init"], t) if st[0] == 1 else Sub(d["init"], t)
            counters.append(k)
        elif set(st) <= {0, 1} and 1 in st and d["init"] is Int(0):
            cond.append((k, d, st))
    srcs = []
    for k, d in drives:
        for S in parts(d["init"]):
            e = T("elem", S, 0, uid)
            b = S
            while b.op in ("rev", "skip", "take", "enum"):
                b = b.a[0]
            if rng(b) is not None or S.op in ("rev", "skip", "take") and not plain(S):
                x = at(S, t)
                if x is None or lengths(S) is None:
                    return None
                m[e] = x
                changed = True
                srcs.append((S, False))
            else:
                if S.op == "enum":
                    S = S.a[0]
                    changed = True
                if plain(S):
                    m[T("ipos", S, 0)] = t
                srcs.append((S, True))
    rough = lambda x: TM.substm(x, m) if m else x
    # bits picked out of a byte of a sequence of bytes
    seen = {y for _, d in L.vars.items() for dl, _ in d["next"] for k in dl if isinstance(k, Term) for y in TM.subterms(k)}
    picked = {}
    for b in seen:
        if b.op == "idx" and b.a[1].op == "bin" and b.a[1].a[0] == "Div" and b.a[1].a[2] is Int(8):
            for f, v in bitforms(b, b.a[1].a[1]):
                if f in seen:
                    x = T("idx", T("bits", b.a[0]), rough(b.a[1].a[1]))
                    picked[f] = x if v else Not(x)
    m.update(picked)
    bounds, drop = [], set()
    for S, keep in srcs:
        if not keep:
            bounds += lengths(S)
    deltas = [dl for _, d in list(L.vars.items())[:1] for dl, _ in d["next"]]
    for c in counters:
        bs = None
        for dl in deltas:
            here = {bound(rough(k), True, t, t) for k, v in dl.items() if isinstance(k, Term) and v is True} - {None}
            bs = here if bs is None else bs & here
        for B in sorted(bs or ()):
            if not mention(B, uid):
                bounds.append(B)
    # what is read at the position
    reads, creads = [], {}
    for _, d in L.vars.items():
        for dl, x in d["next"]:
            for y in [x] + [k for k in dl if isinstance(k, Term)]:
                for s in TM.subterms(rough(y)):
                    if s.op == "idx":
                        c0, lm = TM.lin_parts(s.a[1])
                        if lm.get(t) in (1, -1) and not mention(s.a[0], uid):
                            if s not in reads:
                                reads.append(s)
                        for c, _, _ in cond:
                            if s.a[1] is c and not mention(s.a[0], uid):
                                creads.setdefault(c, set()).add(s.a[0])
    keep = [S for S, k in srcs if k]
    if not reads and not creads and not (keep and changed):
        return None
    sub = {}
    out = []
    for s in reads:
        xs, i = s.a
        c0, lm = TM.lin_parts(i)
        base = T("iter", xs)
        off = Sub(i, t) if lm[t] == 1 else Add(i, t)
        if lm[t] == -1:
            base = T("rev", base)
            off = Sub(Sub(Len(xs), Int(1)), off)
        if off is not Int(0):
            base = T("skip", base, off)
        sub[s] = T("elem", base, 0, uid)
        if base not in out:
            out.append(base)
    for S in keep:
        # the same sequence read by an iterator and by its position
        if S in out:
            out.remove(S)
    have = [n for S in keep + out for n in (lengths(S) or [])]
    for B in dict.fromkeys(bounds):
        if B not in have:
            if not out:
                return None
            out[0] = T("take", out[0], B)
            for s, e in list(sub.items()):
                if out[0].a[0] is e.a[0]:
                    sub[s] = T("elem", out[0], 0, uid)
            have.append(B)
    if not keep and not bounds:
        return None
    first = (out + keep)[0]
    for c, xss in creads.items():
        for xs in xss:
            sub[T("idx", xs, c)] = T("elem", T("iter", xs), 0, uid)
    gone = {T("hasnext", S, 0, uid) for S, k in srcs if not k} | {
        T("hasnext", d["init"], 0, uid) for _, d in drives}
    memo, memo2 = {}, {}
    sub[t] = T("ipos", first, 0)

    def term(x):
        return TM.substm(TM.substm(x, m, memo) if m else x, sub, memo2)

    def facts(f):
        r = {}
        for k, v in f.items():
            if isinstance(k, Term):
                if k in gone:
                    r[T("hasnext", first, 0, uid)] = v
                    continue
                k2 = TM.substm(k, m, memo) if m else k
                B = bound(k2, v, t, t)
                if B is not None and B in have:
                    r[T("hasnext", first, 0, uid)] = v
                    continue
                hit = None
                for c, xss in creads.items():
                    B = bound(k2, v, c, c)
                    if B is not None:
                        hit = [xs for xs in xss if Len(xs) is B]
                        if hit:
                            r[T("hasnext", T("iter", hit[0]), 0, uid)] = v
                            break
                if hit:
                    continue
                k2 = TM.substm(k2, sub, memo2)
                while k2.op == "not":
                    k2, v = k2.a[0], not v
                if k2.op == "bool":
                    continue
                r[k2] = v
            elif k[0] == "alts":
                r[("alts", frozenset(frozenset(facts(dict(a)).items()) for a in k[1]))] = v
            elif isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], Term):
                r[(k[0], term(k[1]))] = v
            else:
                r[k] = v
        return r
    # rounds at positions that do not exist
    from engine import assume
    live = []
    for dl in deltas:
        f = dict(L.entry_facts)
        f[("bnd", t)] = (0, None)
        ok = all(assume(f, Lt(t, B), True) for B in dict.fromkeys(have))
        for k, v in dl.items():
            if ok and isinstance(k, Term) and k not in gone:
                ok = assume(f, rough(k), v)
        live.append(ok)
    cut = lambda xs: [x for x, ok in zip(xs, live) if ok]
    deltas = cut(deltas)
    vars_ = {}
    for k, d in L.vars.items():
        if any(k is kk for kk, _ in drives):
            continue
        vars_[k] = dict(d, next=[(facts(dl), term(x)) for dl, x in cut(d["next"])])
    for S in out + keep:
        p = T("itpos", S, uid)
        vars_[p] = dict(init=S, next=[(facts(dl), T("adv", 1, p)) for dl in deltas], root=None, path=(), name="")
    for c, d, st in cond:
        for xs in creads.get(c, ()):
            S = T("iter", xs)
            p = T("itpos", S, uid)
            vars_[p] = dict(init=S, next=[(facts(dl), T("adv", 1, p) if s else p) for (dl, _), s in cut(list(zip(d["next"], st)))],
                            root=None, path=(), name="")
    n = type(L)(uid=uid, vars=vars_, exits=[(tb, [facts(x) for x in xs]) for tb, xs in L.exits] if L.exits else L.exits,
                site=L.site, stack=L.stack, entry_facts=L.entry_facts, kind=L.kind,
                skips=[facts(x) for x in L.skips or ()], stops=[facts(x) for x in L.stops or ()])
    return n, term, facts


def mention(x, uid):
    return any(s.op in ("loopvar", "itpos", "elem", "ipos", "itn") and uid in s.a for s in TM.subterms(x))

