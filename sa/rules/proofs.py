"""C01-C06: what the proof verifiers accept."""
from rules import prop
from spec import *
from terms import *

LEAFTAG = "JMT::LeafNode"
INTTAG = "JMT::IntrnalNode"
PHTAG = "SPARSE_MERKLE_PLACEHOLDER_HASH__"


def by(s):
    return T("bytes", s.encode().hex())


PH = by(PHTAG)


def H(h, *parts):
    return T("hash", h, tuple(parts))


def leafhash(h, k, v):
    return H(h, by(LEAFTAG), k, v)


def inthash(h, l, r):
    return H(h, by(INTTAG), l, r)


def hparam(body):
    """name of the generic parameter bounded by SimpleHasher in this body"""
    for p in body.get("preds", []):
        s = str(p)
        if "SimpleHasher" in s:
            import re
            m = re.match(r"^\W*<?(\w+)(?: as|:)", s)
            if m:
                return m.group(1)
    return "H"


class Names:
    """current names of the proof types' fields"""

    def __init__(self, c):
        self.leaf = c.field("SparseMerkleProof", "leaf", 0)
        self.sibs = c.field("SparseMerkleProof", "siblings", 1)
        self.kh = c.field("SparseMerkleLeafNode", "key_hash", 0)
        self.vh = c.field("SparseMerkleLeafNode", "value_hash", 1)
        self.l = c.field("SparseMerkleInternalNode", "left_child", 0)
        self.r = c.field("SparseMerkleInternalNode", "right_child", 1)
        self.right = c.field("SparseMerkleRangeProof", "right_siblings", 0)


def nodecases(h, n, x):
    """[(guards, hash)] of a SparseMerkleNode x"""
    lf = Fld(As(x, "Leaf"), "0")
    it = Fld(As(x, "Internal"), "0")
    return [([Is(x, "Null")], PH),
            ([Is(x, "Leaf")], leafhash(h, Fld(Fld(lf, n.kh), "0"), Fld(Fld(lf, n.vh), "0"))),
            ([Is(x, "Internal")], inthash(h, Fld(it, n.l), Fld(it, n.r)))]


def path_fold(h, n, sibs, bits, init):
    def step(el, cel, acc):
        s, b = el
        out = []
        for g, sh in nodecases(h, n, s):
            out.append((g + [b], inthash(h, sh, acc)))
            out.append((g + [(b, False)], inthash(h, acc, sh)))
        return out
    return Fold([sibs, bits], init, step)


def keybits(key32, k):
    """the bits of the key next to the k siblings, bottom to top"""
    return T("skip", T("rev", T("iter", T("bits", key32))), k)


def mk_skip(b, k):
    import terms
    return b if k.op == "int" and k.a[0] == 0 else T("skip", b, k)


def RootEq(root, m):
    return Check(root, [m], Con("Ok"))


def verify_rows(h, n, S, root, key, mode, value):
    """mode: 'in' / 'out'; S: the proof term"""
    leaf = Fld(S, n.leaf)
    sibs = Fld(S, n.sibs)
    L = Fld(As(leaf, "Some"), "0")
    lk, lv = Fld(Fld(L, n.kh), "0"), Fld(Fld(L, n.vh), "0")
    long = Lt(Int(256), Len(sibs))
    short_ = Not(long)
    bits = mk_skip(T("rev", T("iter", T("bits", key))), Sub(Int(256), Len(sibs)))
    it = T("iter", sibs)
    rows = [Row("too-many-siblings", [long], IsErr())]
    if mode == "in":
        vhash = H(h, value)
        rows += [
            Row("no-leaf", [short_, Is(leaf, "None")], IsErr()),
            Row("other-key", [short_, Is(leaf, "Some"), Not(Eq(key, lk))], IsErr()),
            Row("other-value", [short_, Is(leaf, "Some"), Eq(key, lk), Not(Eq(vhash, lv))], IsErr()),
            Row("path", [short_, Is(leaf, "Some"), Eq(key, lk), Eq(vhash, lv)],
                RootEq(root, path_fold(h, n, it, bits, OneOf(leafhash(h, lk, lv), leafhash(h, key, lv),
                                                             leafhash(h, key, vhash), leafhash(h, lk, vhash))))),
        ]
    else:
        far = Lt(T("cpl", *sorted((key, lk))), Len(sibs))
        rows += [
            Row("key-present", [short_, Is(leaf, "Some"), Eq(key, lk)], IsErr()),
            Row("leaf-elsewhere", [short_, Is(leaf, "Some"), Not(Eq(key, lk)), far], IsErr()),
            Row("leaf-on-path", [short_, Is(leaf, "Some"), Not(Eq(key, lk)), Not(far)],
                RootEq(root, path_fold(h, n, it, bits, leafhash(h, lk, lv)))),
            Row("empty-subtree", [short_, Is(leaf, "None")],
                RootEq(root, path_fold(h, n, it, bits, PH))),
        ]
    return rows


@prop("C01", floor=8)
def c01(c, rep):
    n = Names(c)
    for name, val, facts in (("verify", Fld(As(Par("a3"), "Some"), "0"), [(Is(Par("a3"), "Some"), True)]),
                             ("verify_existence", Par("a3"), None)):
        b = c.method("SparseMerkleProof", name)
        h = hparam(b)
        X, rs = c.run(b, facts=facts, kmax=200)
        root, key = Fld(Par("a1"), "0"), Fld(Par("a2"), "0")
        table(rep, X, name, where(b), rs, verify_rows(h, n, Par("self"), root, key, "in", val))


@prop("C02", floor=8)
def c02(c, rep):
    n = Names(c)
    for name, facts in (("verify", [(Is(Par("a3"), "None"), True)]), ("verify_nonexistence", None)):
        b = c.method("SparseMerkleProof", name)
        h = hparam(b)
        X, rs = c.run(b, facts=facts, kmax=200)
        root, key = Fld(Par("a1"), "0"), Fld(Par("a2"), "0")
        table(rep, X, name, where(b), rs, verify_rows(h, n, Par("self"), root, key, "out", None))


# ------------------------------------------------------------------------------ C03
class SkipNull:
    """position reached by skipping the leading Null elements of `inner`"""
    name = "siblings from the first non-default one"

    def __init__(self, inner):
        self.inner = inner

    def __call__(self, X, st, t):
        if t.op != "itpos":
            return False if known_space(t) else None
        r = (self.inner is t.a[0]) if isinstance(self.inner, Term) else self.inner(X, st, t.a[0])
        if r is not True:
            return r
        L = X.loops.get(t.a[1])
        if L is None:
            return None
        e, hn, bad = T("elem", t.a[0], 0, t.a[1]), T("hasnext", t.a[0], 0, t.a[1]), None
        null = Is(e, "Null")
        for delta, nx in L.vars[t]["next"]:
            if unadv(nx)[0] is not t:
                return None
            if unadv(nx)[1] != 1:
                bad = True if unadv(nx)[1] == 0 and bad is None else bad
                continue
            if consistent(dict(delta), [(null, False)]) is not None:
                bad = bad or alien_path(X, State({}, delta)) is None and ("lossy",) not in delta
        for tb, dls in L.exits or []:
            for dl in dls:
                other = any(v and isinstance(f, Term) and f.op == "is" and f.a[0] is e and f is not null for f, v in dl.items())
                if not other and consistent(dict(dl), [(hn, True), (null, True)]) is not None:
                    bad = bad or alien_path(X, State({}, dl)) is None and ("lossy",) not in dl
        return True if bad is None else False if bad else None


class After:
    """one element after `inner`"""
    name = "rest"

    def __init__(self, inner):
        self.inner = inner

    def __call__(self, X, st, t):
        b, k = unadv(t)
        if k != 1:
            return False if known_space(t) else None
        return self.inner(X, st, b)


class KeyBits:
    """the key bits from the depth of the first sibling of the space matched before"""
    name = "the key's bits next to those siblings"

    def __init__(self, key, sp):
        self.key, self.sp = key, sp

    def __call__(self, X, st, t):
        if t.op != "skip" or t.a[0] is not T("rev", T("iter", T("bits", self.key))):
            return False if known_space(t) else None
        n = Sub(Int(256), t.a[1])
        if n.op == "len":
            return self.sp(X, st, n.a[0])
        ls = {y for y in subterms(n) if y.op == "len"}
        if len(ls) == 1 and n.op == "lin" and all(y.op == "len" for _, y in n.a[1]) and self.sp(X, st, ls.pop().a[0]) is True:
            return False
        return None


def null_default(h, n, x):
    return PH


def del_fold(h, n, sp, key, init):
    def step(el, cel, acc):
        s, b = el
        out = []
        for g, sh in nodecases(h, n, s):
            out.append((g + [b], inthash(h, sh, acc)))
            out.append((g + [(b, False)], inthash(h, acc, sh)))
        return out
    f = Fold([sp, KeyBits(key, sp)], init, step)
    return f


class NewSibs:
    """the displaced leaf, then default siblings up to the common prefix, then the old siblings"""
    name = "[old leaf, defaults..., old siblings...]"

    def __init__(self, n, L, sibs, cpl):
        self.n, self.L, self.sibs, self.cpl = n, L, sibs, cpl

    def __call__(self, X, st, t):
        if t.op != "iter":
            return False if known_space(t) else None
        p = seq_parts(t.a[0])
        if p is None:
            return None
        p = [x for x in p if not (x[0] == "rep" and x[1].op == "int" and x[1].a[0] == 0)]
        if not p or p[0][0] != "one":
            return False
        lf = p[0][1]
        kh, vh = self.n.kh, self.n.vh
        if not (lf.op == "agg" and lf.a[1] == "Leaf"):
            return False
        x = Fld(lf, "0")
        if Fld(Fld(x, kh), "0") is not Fld(Fld(self.L, kh), "0") or \
                Fld(Fld(x, vh), "0") is not Fld(Fld(self.L, vh), "0"):
            return False
        if p[-1] != ("all", self.sibs):
            return False
        mid = p[1:-1]
        cnt = Int(0)
        for q in mid:
            if q[-1].op != "agg" or q[-1].a[1] != "Null":
                return False
            cnt = Add(cnt, Int(1) if q[0] == "one" else q[1])
        return True if cnt is Sub(self.cpl, Len(self.sibs)) else None if undetermined(cnt) is not None else False


class EqTerm:
    def __init__(self, t, name):
        self.t, self.name = t, name

    def __call__(self, X, st, t):
        return True if t is self.t else False if known_space(t) else None


def update_rows(h, n, S, root, key, vopt, res):
    """rows of one update step: proof S, running root (32 bytes) `root`, key (32 bytes), new value option.
    res(m): matcher of the accepting outcome from the matcher of the new root's bytes"""
    leaf, sibs = Fld(S, n.leaf), Fld(S, n.sibs)
    L = Fld(As(leaf, "Some"), "0")
    lk, lv = Fld(Fld(L, n.kh), "0"), Fld(Fld(L, n.vh), "0")
    val = H(h, Fld(As(vopt, "Some"), "0"))
    long = Lt(Int(256), Len(sibs))
    sh = Not(long)
    it = T("iter", sibs)
    rev = lambda k: T("rev", T("iter", T("bits", k)))
    bits = lambda k: mk_skip(rev(k), Sub(Int(256), Len(sibs)))
    old = path_fold(h, n, it, bits(lk), leafhash(h, lk, lv))
    old2 = path_fold(h, n, it, bits(key), leafhash(h, lk, lv))
    cpl = T("cpl", *sorted((key, lk)))
    far = Lt(cpl, Len(sibs))
    ins, dele = Is(vopt, "Some"), Is(vopt, "None")
    some, none = Is(leaf, "Some"), Is(leaf, "None")
    same, diff = Eq(key, lk), Not(Eq(key, lk))
    newleaf = OneOf(leafhash(h, key, val), leafhash(h, lk, val))
    newbits = EqTerm(T("skip", rev(key), Sub(Int(255), cpl)), "the new key's bits")
    split = Fold([NewSibs(n, L, sibs, cpl), newbits], newleaf, path_fold(h, n, None, None, None).step)

    def first_case(var):
        return SkipNull(it)

    sp1 = SkipNull(it)
    sp2 = SkipNull(After(sp1))

    class Deleted(M):
        """root after the leaf is removed and single leaves are moved up"""

        def m(self, X, st, v):
            # the loop that skips default siblings, on this path
            loops = [q for q in X.loops.values() for k, d in q.vars.items()
                     if k.op == "itpos" and sp1(X, st, k) is True
                     and any(isinstance(f, Term) and f.op == "hasnext" and f.a[2] is q.uid for f in st.facts)]
            if not loops:
                wrong = [k for q in X.loops.values() for k, d in q.vars.items() if k.op == "itpos" and k.a[0] is it and sp1(X, st, k) is False
                         and any(isinstance(f, Term) and f.op == "hasnext" and f.a[2] is q.uid for f in st.facts)]
                return (False if wrong else None), "no loop that skips default siblings"
            q = loops[0]
            hn = T("hasnext", it, 0, q.uid)
            e = T("elem", it, 0, q.uid)
            more = implied(st.facts, hn)
            if more is False:
                return match(X, st, PH, v)
            lf = implied(st.facts, Is(e, "Leaf"))
            nt = implied(st.facts, Is(e, "Internal"))
            if lf is True:
                x = Fld(As(e, "Leaf"), "0")
                return match(X, st, del_fold(h, n, sp2, key, leafhash(
                    h, Fld(Fld(x, n.kh), "0"), Fld(Fld(x, n.vh), "0"))), v)
            if nt is True:
                return match(X, st, del_fold(h, n, sp1, key, PH), v)
            if lf is None and nt is None and known_space(v) and not any(y.op == "loopvar" for y in subterms(v)):
                # the kind was not looked at: the root has to be right for either
                for kind in ("Leaf", "Internal"):
                    f = consistent(st.facts, [(Is(e, kind), True)])
                    if f is not None:
                        r = self.m(X, State(st.env, f, st.did), v)
                        if r[0] is False:
                            return r
            return None, "kind of the first non-default sibling not determined"

    return [
        Row("too-many-siblings", [long], IsErr()),
        Row("delete/absent", [sh, dele, none], Check(root, [path_fold(h, n, it, bits(key), PH)], res(root))),
        Row("delete/other-leaf", [sh, dele, some, diff], IsErr()),
        Row("delete/leaf", [sh, dele, some, same], Check(root, [old, old2], res(Deleted()))),
        Row("insert/empty", [sh, ins, none], Check(root, [path_fold(h, n, it, bits(key), PH)], res(
            path_fold(h, n, it, bits(key), newleaf)))),
        Row("insert/replace", [sh, ins, some, same], Check(root, [old, old2], res(
            OneOf(path_fold(h, n, it, bits(key), newleaf), path_fold(h, n, it, bits(lk), newleaf))))),
        Row("insert/split-elsewhere", [sh, ins, some, diff, far], IsErr()),
        Row("insert/split", [sh, ins, some, diff, Not(far)], Check(root, [old, old2], res(split))),
    ]


@prop("C03", floor=10)
def c03(c, rep):
    n = Names(c)
    b = c.method("UpdateMerkleProof", "verify_update")
    h = hparam(b)
    X, rs = c.run(b, kmax=400)
    proofs, ups = Fld(Par("self"), "0"), Par("a3")
    ne = Not(Eq(Len(proofs), Len(ups)))
    site = where(b)
    Ls = find_loop(X, [T("iter", proofs), T("iter", ups)])
    if len(Ls) != 1:
        rep.undet("verify_update/chain", site, "no single loop over the proofs and the updates in step")
        return
    L = Ls[0]
    accs = [k for k in L.vars if k.op == "loopvar"]
    if not accs and not X.unknown:
        rep.bad("verify_update/chain", site, "no root is carried from one update to the next")
        return
    if len(accs) != 1:
        rep.undet("verify_update/chain", site, "%d loop variables: %s" % (len(accs), "; ".join("%s %s" % (short(k), short(L.vars[k]["init"])) for k in accs)))
        return
    acc = accs[0]
    rep.put(match(X, State({}, {}), Par("a1"), L.vars[acc]["init"])[0], "verify_update/starts-at-old-root", site,
            "the chain starts from %s" % short(L.vars[acc]["init"]))
    S, U = T("elem", T("iter", proofs), 0, L.uid), T("elem", T("iter", ups), 0, L.uid)
    root = Fld(acc, "0")
    rows = update_rows(h, n, S, root, Fld(Fld(U, "0"), "0"), Fld(U, "1"), lambda m: m)
    inside, outside = [], []
    X, rs = recast(X, L, rs)
    for st, v in rs:
        hn = [x for k, x in st.facts.items() if isinstance(k, Term) and k.op == "hasnext" and k.a[2] is L.uid]
        (inside if hn and hn[0] is True else outside).append((st, v))
    for delta, nx in L.vars[acc]["next"]:
        f = dict(L.entry_facts)
        for kk, vv in delta.items():
            f[kk] = vv
            learnd(f, kk, vv)
        inside.append((State({}, f), Fld(nx, "0")))
    table(rep, X, "verify_update/step", site, inside, rows)
    hn = T("hasnext", L.vars[[k for k in L.vars if k.op == "itpos"][0]]["init"], 0, L.uid)
    table(rep, X, "verify_update", site, outside, [
        Row("count-mismatch", [ne], IsErr()),
        Row("end", [Not(ne)], Check(Fld(Par("a2"), "0"), [root], Con("Ok"))),
    ])


# ------------------------------------------------------------------------------ C04
@prop("C04", floor=4)
def c04(c, rep):
    n = Names(c)
    b = c.method("SparseMerkleRangeProof", "verify")
    h = hparam(b)
    X, rs = c.run(b, kmax=200)
    site = where(b)
    left, right = Par("a3"), Fld(Par("self"), n.right)
    lk, lv = Fld(Fld(Par("a2"), n.kh), "0"), Fld(Fld(Par("a2"), n.vh), "0")
    num = Add(Len(left), Len(right))
    bits = mk_skip(T("rev", T("iter", T("bits", lk))), Sub(Int(256), num))
    il, ir = T("iter", left), T("iter", right)

    def step(el, cel, acc):
        bit, (l, r) = el[0], cel
        out = [([bit], inthash(h, l, acc), {0})]
        for g, sh in nodecases(h, n, r):
            out.append((g + [(bit, False)], inthash(h, acc, sh), {1}))
        return out
    fold = Fold([bits], leafhash(h, lk, lv), step, cond=[il, ir])
    long = Lt(Int(256), num)
    drives = lambda L: any(k.op == "itpos" and d["init"] is bits for k, d in L.vars.items())
    Ls = [L for L in X.loops.values() if drives(L)]
    if not Ls:
        Ls = [n[0] for n in (reindexed(X, L) for L in X.loops.values()) if n is not None and drives(n[0])]
    rows = [Row("too-many-siblings", [long], IsErr())]
    if len(Ls) == 1:
        uid = Ls[0].uid
        X, rs = recast(X, Ls[0], rs)
        more = T("hasnext", bits, 0, uid)
        bit = T("elem", bits, 0, uid)
        rows += [Row("missing-left", [Not(long), more, bit], IsErr()),
                 Row("missing-right", [Not(long), more, (bit, False)], IsErr()),
                 Row("path", [Not(long), (more, False)], RootEq(Fld(Par("a1"), "0"), fold))]
    else:
        rows += [Row("path", [Not(long)], RootEq(Fld(Par("a1"), "0"), fold))]
        rep.undet("range/missing", site, "no loop driven by the key's bits")
    table(rep, X, "range", site, rs, rows)
